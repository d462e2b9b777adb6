#!/bin/bash
# check.sh <ID> [quick|thorough]: builds the harness against /repo's working tree and runs one monitor.
# exit 0 held | 1 VIOLATION | 2 error or inconclusive
ID=${1:?id}
TIER=${2:-${VERIF_TIER:-quick}}
export VERIF_DIR=${VERIF_DIR:-$(cd "$(dirname "$0")" && pwd)}
export VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=$TIER
export HOME=${HOME:-/root}
export PATH=/usr/local/bin:/root/.cargo/bin:/usr/local/sbin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export RUSTC_WRAPPER= RUST_BACKTRACE=0
unset CARGO_TARGET_DIR RUSTFLAGS
mkdir -p "$VERIF_DIR/evidence" "$VERIF_DIR/work"
# those about Python and JavaScript build nothing
case $ID in A03|B01|B02)
  export VERIF_REPO=${VERIF_REPO:-/repo} PYTHONDONTWRITEBYTECODE=1
  rm -f "$VERIF_DIR/evidence/$ID.json"
  LIMIT=300; [ "$TIER" = thorough ] && LIMIT=1800
  timeout -k 10 $LIMIT python3 "$VERIF_DIR/harness/bench/${ID,,}.py" "$ID" "$TIER"
  rc=$?
  case $rc in
    0|1) exit $rc ;;
    *) echo "error: monitor ended with status $rc" >&2; exit 2 ;;
  esac ;;
esac
case $ID in
  BUILD:*) H=${ID#BUILD:} ;;
  W*) H=h_wasp ;;
  M*) H=h_merge ;;
  A*|C*|G*|S*|E*) H=h_core ;;
  *) echo "unknown property $ID" >&2; exit 2 ;;
esac
case $ID in M02) export VERIF_LEVEL=fault_enumeration ;; *) export VERIF_LEVEL=exploration ;; esac
LIMIT=300; [ "$TIER" = thorough ] && LIMIT=1800
# these compile analyses or libraries first
case $ID:$TIER in A0?:quick|G02:quick) LIMIT=650 ;; esac
HDIR=$VERIF_DIR/harness/$H
TGT=$VERIF_DIR/work/target-$H
LOG=$VERIF_DIR/work/build-$H-$$.log
if [ -x "$HDIR/prepare.sh" ]; then
  "$HDIR/prepare.sh" >"$LOG" 2>&1 || { tail -40 "$LOG" >&2; echo "error: preparing $H failed" >&2; exit 2; }
fi
if ! (cd "$HDIR" && cargo build --offline --locked --target-dir "$TGT") >"$LOG" 2>&1; then
  tail -60 "$LOG" >&2
  echo "error: $H does not build against /repo" >&2
  rm -f "$LOG"
  exit 2
fi
case $ID in E02|S03|BUILD:h_core)
  # the repository's own command-line programs, beside the monitor
  if ! (cd "$VERIF_DIR/harness/h_cli" && cargo build --offline --locked --target-dir "$TGT") >"$LOG" 2>&1; then
    tail -60 "$LOG" >&2
    echo "error: the command-line programs do not build against /repo" >&2
    rm -f "$LOG"
    exit 2
  fi ;;
esac
rm -f "$LOG"
[ -n "$VERIF_BUILD_ONLY" ] && exit 0
rm -f "$VERIF_DIR/evidence/$ID.json"
timeout -k 10 $LIMIT "$TGT/debug/$H" "$ID" "$TIER"
rc=$?
case $rc in
  0|1) exit $rc ;;
  *) echo "error: monitor ended with status $rc" >&2; exit 2 ;;
esac
