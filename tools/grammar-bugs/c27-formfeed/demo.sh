#!/bin/bash
# run with cwd /repo; builds main.rs against it in a scratch directory
set -eu
here="$(cd "$(dirname "$0")" && pwd)"
t="$(mktemp -d)"
trap 'rm -rf "$t"' EXIT
mkdir "$t/src"
cp "$here/main.rs" "$t/src/main.rs"
cat >"$t/Cargo.toml" <<END
[package]
name = "demo"
version = "0.0.0"
edition = "2021"
[dependencies]
dockerfile-parser = { path = "$PWD" }
[workspace]
END
export CARGO_TARGET_DIR="$t/target" CARGO_NET_OFFLINE=true
cargo run -q --offline --manifest-path "$t/Cargo.toml"
