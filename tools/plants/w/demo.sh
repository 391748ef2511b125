#!/bin/bash
# Builds /repo's wrapper for this machine, with a stand-in for wasm-bindgen, and compares what it
# gives for the sources in cases.txt with expected.txt.
here="$(cd "$(dirname "$0")" && pwd)"
dir="$(mktemp -d /tmp/demo.XXXXXX)"
trap 'rm -r "$dir"' EXIT
mkdir -p "$dir/src" "$dir/bindgen/src" "$dir/macro/src"
cp "$here/main.rs" "$dir/src/main.rs"
cp "$here/bindgen.rs" "$dir/bindgen/src/lib.rs"
cp "$here/macro.rs" "$dir/macro/src/lib.rs"
cat > "$dir/Cargo.toml" <<T
[package]
name = "giron-demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
giron = { path = "/repo/giron" }
serde = "1.0"
serde_json = "1.0"
wasm-bindgen = { path = "bindgen" }
[profile.dev]
opt-level = 1
debug = false
T
cat > "$dir/bindgen/Cargo.toml" <<T
[package]
name = "wasm-bindgen"
version = "0.2.999"
edition = "2021"
[dependencies]
serde = "1.0"
serde_json = "1.0"
wasm-bindgen-stub-macro = { path = "../macro" }
T
cat > "$dir/macro/Cargo.toml" <<T
[package]
name = "wasm-bindgen-stub-macro"
version = "0.1.0"
edition = "2021"
[lib]
proc-macro = true
T
cp "$here/Cargo.lock" "$dir/Cargo.lock"
cd "$dir" && CARGO_TARGET_DIR="$dir/target" cargo build --offline --quiet 2>"$dir/log" || { tail -20 "$dir/log"; exit 3; }
ulimit -v 8000000
timeout 60 "$dir/target/debug/giron-demo" "$here/cases.txt" > "$dir/out" 2>"$dir/err" || { tail -3 "$dir/err"; echo "the program failed"; exit 1; }
if [ "$1" = record ]; then cp "$dir/out" "$here/expected.txt"; exit 0; fi
diff "$here/expected.txt" "$dir/out" > "$dir/diff" && exit 0
head -c 1500 "$dir/diff"; exit 1
