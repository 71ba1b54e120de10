#!/bin/bash
# Run in the repository's root: builds its library from the current tree (a scratch copy, with a stand-in
# for the crate `integeriser`, which cannot be fetched) and runs demo.rs against it.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
export RUSTUP_TOOLCHAIN=nightly-2026-08-21 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target" CARGO_INCREMENTAL=0 RUSTFLAGS=-Awarnings RUSTC_WRAPPER=
mkdir -p "$t/lib" "$t/demo/src"
cp -r "$repo/src" "$repo/search" "$repo/unique-heap" "$repo/vecmultimap" "$t/lib/" || exit 2
rm -rf "$t/lib/src/bin" "$t/lib"/*/target
cp -r "$here/integeriser" "$t/integeriser"
python3 - "$repo/Cargo.toml" "$t/lib/Cargo.toml" <<'P'
import re, sys
m = open(sys.argv[1]).read()
m = re.sub(r"(?m)^\[\[bin\]\]\n(?:[^\[\n].*\n|\n)*", "", m)
m = re.sub(r"(?m)^integeriser\b.*\n", 'integeriser = { path = "../integeriser" }\n', m)
open(sys.argv[2], "w").write(m)
P
[ -f "$here/publish.sed" ] && sed -i -f "$here/publish.sed" "$t/lib/src/dyck/multiple/mod.rs" "$t/lib/src/dyck/multiple/automaton/mod.rs" "$t/lib/src/grammars/lcfrs/from_rparse.rs"
cat > "$t/demo/Cargo.toml" <<'P'
[package]
name = "demo"
version = "0.1.0"
edition = "2018"
[workspace]
[dependencies]
rustomata = { path = "../lib" }
search = { path = "../lib/search" }
unique-heap = { path = "../lib/unique-heap", features = ["fnvtype"] }
vecmultimap = { path = "../lib/vecmultimap" }
num-traits = "0.1.41"
log_domain = "0.4.0"
[profile.dev]
debug = false
P
cp "$here/demo.rs" "$t/demo/src/main.rs"
cp "$here/Cargo.lock.demo" "$t/demo/Cargo.lock"
cd "$t/demo" && cargo build --offline --quiet 2> "$t/log" || { tail -30 "$t/log"; exit 3; }
timeout 200 "$t/target/debug/demo"
