#!/bin/bash
# Rebuilds /verif/golden: memory images written by the pinned original version (commit d809e95) of the library.
# Run by hand only; the checks read the committed images.
set -e
W=$(mktemp -d)
git clone -q /repo "$W/repo"; git -C "$W/repo" checkout -q d809e95
cp -a /verif/mc "$W/mc"; rm -rf "$W/mc/target"
sed -i "s#/repo/stable-fs#$W/repo/stable-fs#" "$W/mc/Cargo.toml"
( cd "$W/mc" && RUSTUP_TOOLCHAIN=1.88.0 cargo build --offline --release --target-dir "$W/target" && "$W/target/release/mc" golden /verif/golden )
rm -rf "$W"
