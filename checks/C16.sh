#!/bin/bash
# built twice: with every crate's zeroize feature, and with only that of the chacha20 crate
set -u
cd "$VERIF_DIR/mc" || exit 3
export RUSTFLAGS="--cfg chacha20_avx512"
# the allocator must stay opaque to the optimizer, as it is in a normal program
export CARGO_PROFILE_DEV_LTO=off
A=$VERIF_DIR/target/mcz B=$VERIF_DIR/target/mczo
CARGO_TARGET_DIR=$A cargo build -q --bin c16 --features zeroize >&2 & p=$!
CARGO_TARGET_DIR=$B cargo build -q --bin c16 --features zeroize-chacha >&2 || { echo "build failed" >&2; exit 3; }
wait $p || { echo "build failed" >&2; exit 3; }
SUB=$B/sub.txt
rm -f "$SUB"
VERIF_SUB=$SUB "$B/debug/c16" || exit 3
VERIF_CHACHA_ONLY=$SUB exec "$A/debug/c16"
