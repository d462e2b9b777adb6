#!/bin/sh
# Stands in for git, node, cargo, wasabi and wasm-merge: writes down what it was asked and does what the scenario says.
# SCN: the scenario's directory.
me=${0##*/}
log() { printf '%s\n' "$1" >> "$SCN/log"; }
nth() { # how often this was asked before
  c=0; [ -f "$SCN/count/$1" ] && read -r c < "$SCN/count/$1"
  echo $((c + 1)) > "$SCN/count/$1"
}
case "$me" in
git)
  case "$1" in
  clone) log "git clone"; [ -e wasm-r3 ] && { echo "fatal: exists" >&2; exit 128; }; cp -r "$SCN/suite" wasm-r3 ;;
  checkout) log "git checkout $2" ;;
  rev-parse) cat "$SCN/commit" ;;
  esac ;;
wasm-merge) echo "wasm-merge version 119 (version_119)" ;;
node)
  [ "$1" = --version ] && { echo v22.22.2; exit 0; }
  path=; n=
  for a; do case "$a" in -*) ;; *.cjs) path=$a ;; *) n=$a ;; esac; done
  rel=${path#*/wasm-r3/}
  key=$(printf %s "${rel%/*}" | tr / +)
  nth "$key"
  # what is measured: the program beside the wrapper
  prog=$(tail -c +5 "${path%.cjs}.wasm" 2>/dev/null)
  log "node|$key|$c|$n|$prog"
  [ -f "$SCN/plan/$key.$c" ] || { echo "no plan for $key.$c" >> "$SCN/unplanned"; exit 97; }
  . "$SCN/plan/$key.$c" ;;
cargo)
  in=; toml=; out=; hooks=; now=; rest=
  while [ $# -gt 0 ]; do
    case "$1" in
    --input-program-path|--rust-analysis-toml-path|--output-path|--targets) now=$1 ;;
    --hooks) now=--hooks ;;
    --input-program-path=*) in=${1#*=} ;;
    --rust-analysis-toml-path=*) toml=${1#*=} ;;
    --output-path=*) out=${1#*=} ;;
    --hooks=*) hooks="$hooks ${1#*=}" ;;
    --) ;;
    *) case "$now" in
       --input-program-path) in=$1; now= ;;
       --rust-analysis-toml-path) toml=$1; now= ;;
       --output-path) out=$1; now= ;;
       --hooks) hooks="$hooks $1" ;;
       --targets) rest="$rest $1" ;;
       esac ;;
    esac
    shift
  done
  d=${toml%/*}; analysis=${d##*/}
  dir=${out%/*}
  key="$analysis+${dir##*/}"
  nth "cargo+$key"
  log "cargo|$key|$c|$in|$toml|$out|$hooks|$rest"
  [ -f "$toml" ] || { echo "no manifest $toml" >&2; : > "$out"; exit 2; }
  # the real one makes the output file before it reads anything
  if [ -f "$SCN/fail/cargo+$key.$c" ]; then : > "$out"; echo "thread 'main' panicked" >&2; exit 101; fi
  body=$(tail -c +5 "$in")
  { printf '\000asm'; printf '%s' "wastrumentation:$analysis:$(echo $hooks):($body)"; } > "$out" ;;
wasabi)
  dir=; hooks=; in=; now=
  for a; do
    case "$a" in
    --output-dir|--hooks) now=$a ;;
    --output-dir=*) dir=${a#*=} ;;
    --hooks=*) hooks="$hooks ${a#*=}" ;;
    --node) now= ;;
    *) case "$now" in --output-dir) dir=$a ;; --hooks) hooks="$hooks $a" ;; *) in=$a ;; esac; now= ;;
    esac
  done
  b=${in##*/}; b=${b%.wasm}; up=${dir%/*}; key="${up##*/}+$b"
  nth "wasabi+$key"
  log "wasabi|$key|$c|$in|$dir|$hooks"
  if [ -f "$SCN/fail/wasabi+$key.$c" ]; then echo "panicked" >&2; exit 101; fi
  body=$(tail -c +5 "$in")
  { printf '\000asm'; printf '%s' "wasabi:$(echo $hooks):($body)"; } > "$dir/$b.wasm.new"; mv "$dir/$b.wasm.new" "$dir/$b.wasm"
  echo "module.exports = { long: true };" > "$dir/long.js"
  echo "const Long = require('./long.js'); module.exports = { HOOK_NAMES: [], analysis: {}, module: { info: { functions: [] } }, tag: '$key', long: Long.long };" > "$dir/$b.wasabi.js" ;;
esac
