#!/bin/bash
# The exploration with run-time detection (with and without chacha20_avx512, unoptimised checks off) and each forced backend.
set -u
cd "$VERIF_DIR/mc" || exit 3
T=$VERIF_DIR/target/c21
W=$T/work
mkdir -p "$W"
rm -f "$W"/*
has() { grep -qw "$1" /proc/cpuinfo; }
B='--cfg chacha20_backend='
declare -A FLAGS=(
    [auto]='' [soft]="$B\"soft\"" [sse2]="$B\"sse2\"" [avx2]="$B\"avx2\" -C target-feature=+avx2"
    [avx512]="--cfg chacha20_avx512 $B\"avx512\" -C target-feature=+avx512f,+avx512vl"
)
L="auto soft sse2"
has avx2 && L="$L avx2"
has avx512f && has avx512vl && L="$L avx512"
RUSTFLAGS="--cfg chacha20_avx512" CARGO_TARGET_DIR="$VERIF_DIR/target/mc" cargo build -q --bin c21 >&2 & p0=$!
pids=
for c in $L; do
    RUSTFLAGS="-A warnings ${FLAGS[$c]}" CARGO_TARGET_DIR="$T/$c" cargo build -q --bin c21 >"$W/$c.log" 2>&1 & pids="$pids $c=$!"
done
ok=1
wait $p0 || ok=
for x in $pids; do wait "${x#*=}" || { ok=; cat "$W/${x%%=*}.log" >&2; }; done
[ -n "$ok" ] || { echo "build failed" >&2; exit 3; }
merge=
for c in $L; do
    VERIF_SUB=$W/$c.sub VERIF_CONFIG=$c "$T/$c/debug/c21" >"$W/$c.run" 2>&1 || { echo "sub-run $c failed" >&2; cat "$W/$c.run" >&2; exit 3; }
    merge="$merge $c=$W/$c.sub"
done
VERIF_MERGE=$merge exec "$VERIF_DIR/target/mc/debug/c21"
