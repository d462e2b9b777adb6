#!/bin/bash
# Builds the harnesses once (every check rebuilds what changed).
cd "$(dirname "$0")" || exit 1
for h in h_wasp h_merge h_core; do
  VERIF_BUILD_ONLY=1 bash ./check.sh "BUILD:$h" quick || exit 1
done
