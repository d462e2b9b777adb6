#!/bin/sh
# Stands in for `cargo run` of the wasmtime benchmarks: writes down what it was asked and runs the program built beforehand.
# SCN: the scenario's directory.
c=0; [ -f "$SCN/nth" ] && read -r c < "$SCN/nth"
echo $((c + 1)) > "$SCN/nth"
echo 0 > "$SCN/run"; printf 0 > "$SCN/run"
while [ $# -gt 0 ] && [ "$1" != -- ]; do shift; done
[ $# -gt 0 ] && shift
printf 'exec|%s' "$c" >> "$SCN/log"; printf '|%s' "$@" >> "$SCN/log"; echo >> "$SCN/log"
{ echo '    Finished `release` profile [optimized] target(s) in 0.'"$((c % 90 + 10))s"; echo '     Running `target/release/wasmtime-benchmarks '"$*"'`'; } >&2
[ $((c % 17)) = 3 ] && { SLOW=1; export SLOW; }
NTH=$c; export NTH
exec "$RUNNER" "$@"
