#!/usr/bin/env python3
"""mkrs.py ID [wcli] [wstatic]: lays a demo that is a Rust program (main.rs beside it) on the core crates, into seeded/ID.
With wcli / wstatic the repository's programs are built too and named in $WCLI / $WSTATIC."""
import sys,os,shutil,subprocess
V=os.environ.get("VERIF","/verif"); i=sys.argv[1]; d=f"{V}/seeded/{i}"; os.makedirs(d,exist_ok=True)
shutil.copy(f"{V}/tools/core/rs.lock",d+"/demo.lock")
shutil.copy(f"{V}/tools/core/wasm-merge",d)
subprocess.check_call(["tar","--sort=name","--mtime=@0","--owner=0","--group=0","--exclude=target","-C",V,"-czf",d+"/shim.tgz"]+[f"shim/{s}" for s in("wasabi_wasm","clio","asc-compiler-rs","rust-to-wasm-compiler")])
paths={"wcli":"/repo/cli/src/main.rs","wstatic":"/repo/wastrumentation-static-analysis/src/main.rs"}
bins="".join(f'[[bin]]\nname = "{b}"\npath = "{paths[b]}"\n' for b in sys.argv[2:])
open(d+"/demo.sh","w").write('''#!/bin/bash
# exit 0: behaves as stated; nonzero: broken
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=/usr/local/bin:/root/.cargo/bin:/usr/bin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/demo/src" "$t/bin" "$t/run"
cp "$here/main.rs" "$t/demo/src/main.rs"; cp "$here/demo.lock" "$t/demo/Cargo.lock"
cp "$here/wasm-merge" "$t/bin/"; chmod +x "$t/bin/wasm-merge"
tar -C "$t/demo" -xzf "$here/shim.tgz" || exit 3
cat > "$t/demo/Cargo.toml" <<'TOML'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[[bin]]
name = "demo"
path = "src/main.rs"
'''+bins+'''[dependencies]
clap = { version = "4.5", features = ["derive"] }
clio = { version = "0.3.5", features = ["clap-parse"] }
serde = { version = "1.0", features = ["derive"] }
serde_json = "1.0"
anyhow = "1.0"
wat = "1"
wastrumentation = { path = "/repo/wastrumentation" }
wasp-compiler = { path = "/repo/wasp-compiler" }
wastrumentation-lang-rust = { path = "/repo/supported-languages/rust" }
wastrumentation-lang-webassembly = { path = "/repo/supported-languages/webassembly" }
wastrumentation-lang-assemblyscript = { path = "/repo/supported-languages/assemblyscript" }
wastrumentation-static-analysis = { path = "/repo/wastrumentation-static-analysis" }
wasabi_wasm = { git = "https://github.com/aaronmunsters/wasabi.git", rev = "ee2fb70" }
asc-compiler-rs = { git = "https://github.com/aaronmunsters/asc-compiler-rs", rev = "779738e" }
rust-to-wasm-compiler = { git = "https://github.com/aaronmunsters/rust-to-wasm-compiler", rev = "7f25cd1" }
[patch."https://github.com/aaronmunsters/wasabi.git"]
wasabi_wasm = { path = "shim/wasabi_wasm" }
[patch."https://github.com/aaronmunsters/asc-compiler-rs"]
asc-compiler-rs = { path = "shim/asc-compiler-rs" }
[patch."https://github.com/aaronmunsters/rust-to-wasm-compiler"]
rust-to-wasm-compiler = { path = "shim/rust-to-wasm-compiler" }
[patch.crates-io]
clio = { path = "shim/clio" }
[workspace]
TOML
cd "$t/demo" && cargo build -q --offline --target-dir "$t/target" || exit 3
export PATH="$t/bin:$PATH" DEMO="$t/target/debug/demo" WCLI="$t/target/debug/wcli" WSTATIC="$t/target/debug/wstatic" DEMO_DIR="$t/run" TMPDIR="$t/run"
cp "$here"/*.mjs "$here"/*.js "$t/run/" 2>/dev/null; cd "$t/run" || exit 3
if [ -f check.mjs ]; then timeout 120 node check.mjs; else timeout 120 "$DEMO"; fi
''')
