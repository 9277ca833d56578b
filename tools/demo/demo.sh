#!/bin/bash
# Run with /repo as working directory: exit 0 if the property holds on the demonstration's input.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
mkdir -p "$t/src" "$t/stub/src"
cp "$here"/*.rs "$t/src/" || exit 3
cat > "$t/stub/Cargo.toml" <<X
[package]
name = "no-nonsense-flamegraphs"
version = "0.2.0"
edition = "2018"
[workspace]
X
: > "$t/stub/src/lib.rs"
cat > "$t/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
partial-pretty-printer = { path = "$repo", features = ["serialization"] }
serde_json = "1.0"
[profile.dev]
opt-level = 1
[patch."https://github.com/justinpombrio/no-nonsense-flamegraphs"]
no-nonsense-flamegraphs = { path = "stub" }
X
export RUST_BACKTRACE=0 CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$t/target"
cd "$t" || exit 3
cargo build --offline -q >"$t/log" 2>&1 || { cat "$t/log" >&2; exit 3; }
timeout 120 "$t/target/debug/demo"
