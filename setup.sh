#!/bin/bash
# Checks build everything they need themselves; this only confirms the tools are there.
set -e
cd "$(dirname "$0")"
mkdir -p evidence/replay
command -v cargo python3 >/dev/null
rustup toolchain list | grep -q nightly
cargo metadata --offline --locked --format-version 1 --manifest-path harness/Cargo.toml >/dev/null
echo "toolchains present"
