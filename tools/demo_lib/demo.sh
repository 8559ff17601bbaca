#!/bin/bash
# Builds the demonstration against the crate in the current directory and runs it.
# Exit 0: the property's demonstration holds; nonzero: it fails.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
export PATH="/root/.cargo/bin:/usr/local/bin:$PATH" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
export RUSTFLAGS="--cfg zok_verif -Awarnings"
d="$(mktemp -d /tmp/zokdemo.XXXXXX)"
trap 'rm -rf "$d"' EXIT
cp -r "$here/demo/." "$d/"
sed -i "s#@REPO@#$repo#" "$d/Cargo.toml"
cd "$d" && CARGO_TARGET_DIR="$d/target" cargo run --offline -q 2>&1 | tail -n 25
exit "${PIPESTATUS[0]}"
