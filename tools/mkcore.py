#!/usr/bin/env python3
"""mkcore.py ID: lays the common files of a core demo (gen.rs, run.mjs, shims, demo.sh) into seeded/ID, beside its check.mjs"""
import sys,os,shutil,subprocess
V=os.environ.get("VERIF","/verif"); i=sys.argv[1]; d=f"{V}/seeded/{i}"; os.makedirs(d,exist_ok=True)
for f in("gen.rs","run.mjs","wasm-merge"): shutil.copy(f"{V}/tools/core/{f}",d)
shutil.copy(f"{V}/tools/core/Cargo.lock",d+"/gen.lock")
subprocess.check_call(["tar","--sort=name","--mtime=@0","--owner=0","--group=0","--exclude=target","-C",V,"-czf",d+"/shim.tgz","shim/wasabi_wasm","shim/clio"])
open(d+"/demo.sh","w").write('''#!/bin/bash
# exit 0: behaves as stated; nonzero: broken
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/usr/local/bin:/root/.cargo/bin:/usr/bin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/gen/src" "$t/bin" "$t/run"
cp "$here/gen.rs" "$t/gen/src/main.rs"; cp "$here/gen.lock" "$t/gen/Cargo.lock"
cp "$here/wasm-merge" "$t/bin/"; chmod +x "$t/bin/wasm-merge"
tar -C "$t/gen" -xzf "$here/shim.tgz" || exit 3
cat > "$t/gen/Cargo.toml" <<'TOML'
[package]
name = "gen"
version = "0.1.0"
edition = "2021"
[dependencies]
wastrumentation = { path = "/repo/wastrumentation" }
wastrumentation-lang-webassembly = { path = "/repo/supported-languages/webassembly" }
wastrumentation-static-analysis = { path = "/repo/wastrumentation-static-analysis" }
wasabi_wasm = { git = "https://github.com/aaronmunsters/wasabi.git", rev = "ee2fb70" }
wat = "1"
[patch."https://github.com/aaronmunsters/wasabi.git"]
wasabi_wasm = { path = "shim/wasabi_wasm" }
[patch.crates-io]
clio = { path = "shim/clio" }
[workspace]
TOML
cd "$t/gen" && cargo build -q --offline --target-dir "$t/target" || exit 3
export PATH="$t/bin:$PATH" GEN="$t/target/debug/gen" DEMO_DIR="$t/run" TMPDIR="$t/run"
cp "$here"/*.mjs "$t/run/" && cd "$t/run" && timeout 120 node check.mjs
''')
