#!/bin/bash
# Builds a small program on /repo's giron and compares what it says about the sources in cases.txt
# with expected.txt.
here="$(cd "$(dirname "$0")" && pwd)"
dir="$(mktemp -d /tmp/demo.XXXXXX)"
trap 'rm -r "$dir"' EXIT
mkdir "$dir/src"
cp "$here/main.rs" "$dir/src/main.rs"
cp "$here/Cargo.lock" "$dir/Cargo.lock"
cat > "$dir/Cargo.toml" <<T
[package]
name = "giron-demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
giron = { path = "/repo/giron" }
serde_json = "1.0"
[profile.dev]
opt-level = 1
debug = false
T
cd "$dir" && CARGO_TARGET_DIR="$dir/target" cargo build --offline --quiet 2>"$dir/log" || { tail -20 "$dir/log"; exit 3; }
ulimit -v 8000000
timeout 60 "$dir/target/debug/giron-demo" "$here/cases.txt" > "$dir/out" 2>"$dir/err" || { tail -3 "$dir/err"; echo "the program failed"; exit 1; }
if [ "$1" = record ]; then cp "$dir/out" "$here/expected.txt"; exit 0; fi
diff "$here/expected.txt" "$dir/out" > "$dir/diff" && exit 0
head -c 1500 "$dir/diff"; exit 1
