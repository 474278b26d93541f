#!/bin/bash
# Nothing has to be installed: the checks build everything they need, offline. This only verifies the toolchain.
set -e
cd "$(dirname "$0")"
mkdir -p evidence replays
cargo --version
rustc --version
