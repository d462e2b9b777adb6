#!/usr/bin/env python3
"""mkdemo.py ID PROPERTY CRATE: writes demo.sh (builds demo.rs, beside it, against /repo/CRATE in a scratch dir)."""
import sys,os
i,crate=sys.argv[1],sys.argv[2]
d=os.environ.get("VERIF","/verif")+f"/seeded/{i}"; os.makedirs(d,exist_ok=True)
dep={"wasp":'wasp-compiler = { path = "/repo/wasp-compiler" }',"merge":'wasm-merge = { path = "/repo/wasm-merge" }'}[crate]
open(d+"/demo.sh","w").write(f'''#!/bin/bash
# exit 0: behaves as stated; nonzero: broken
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${{HOME:-/root}} PATH=/usr/local/bin:/root/.cargo/bin:/usr/bin:/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true
t=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src" && cp "$here/demo.rs" "$t/src/main.rs"
cat > "$t/Cargo.toml" <<'TOML'
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
{dep}
[workspace]
TOML
cd "$t" && cargo build -q --offline --target-dir "$t/target" || exit 3
mkdir "$t/run" && cd "$t/run" && timeout 120 "$t/target/debug/demo" "$t/run"
''')
