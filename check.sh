#!/bin/bash
# usage: check.sh Cxx [quick|thorough]   -- rebuilds from /repo's working tree and decides one property
# exit 0: held on everything explored; 1: VIOLATION printed; anything else: error of the check
set -u
ID=$1
export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
export VERIF_SEED=${VERIF_SEED:-1}
export VERIF_DIR
VERIF_DIR=$(cd "$(dirname "$0")" && pwd)
export CARGO_NET_OFFLINE=true
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset CARGO_ENCODED_RUSTFLAGS RUSTC_WRAPPER CARGO_BUILD_TARGET
bin=$(echo "$ID" | tr 'A-Z' 'a-z')
mkdir -p "$VERIF_DIR/evidence" "$VERIF_DIR/replays"
if [ -x "$VERIF_DIR/checks/$ID.sh" ]; then
    exec bash "$VERIF_DIR/checks/$ID.sh"
fi
export RUSTFLAGS="--cfg chacha20_avx512"
cd "$VERIF_DIR/mc" || exit 3
CARGO_TARGET_DIR="$VERIF_DIR/target/mc" cargo build -q --bin "$bin" >&2 || { echo "build failed" >&2; exit 3; }
exec "$VERIF_DIR/target/mc/debug/$bin"
