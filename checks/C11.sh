#!/bin/bash
# One build of the exploration per configuration, merged by the default one; and the feature combinations.
set -u
T=$VERIF_DIR/target/c11
W=$T/work
mkdir -p "$W"
rm -f "$W"/*
unset RUSTFLAGS
export CARGO_TERM_COLOR=never
has() { grep -qw "$1" /proc/cpuinfo; }
B='--cfg chacha20_backend='
declare -A FLAGS=(
    [default]='--cfg chacha20_avx512'
    [auto]=''
    [soft]="$B\"soft\""
    [sse2]="$B\"sse2\""
    [avx2]="$B\"avx2\" -C target-feature=+avx2"
    [avx512]="--cfg chacha20_avx512 $B\"avx512\" -C target-feature=+avx512f,+avx512vl"
    [avx512-nocfg]="$B\"avx512\" -C target-feature=+avx512f,+avx512vl"
    [real]=''
    [real-avx512]='--cfg chacha20_avx512'
    [native]='--cfg chacha20_avx512 -C target-cpu=native'
    [release]='--cfg chacha20_avx512'
)
# does the chacha20 crate alone compile? (otherwise it is the harness that does not)
alone() { # config, crate dir, profile flag
    (cd "$VERIF_DIR/$2" && RUSTFLAGS="-A warnings ${FLAGS[$1]}" CARGO_TARGET_DIR="$T/$1" cargo build -q $3 -p chacha20 >"$W/$1.err" 2>&1)
}
build() { # config
    local dir=mc prof= p=debug
    case $1 in real*|native) dir=mc-real ;; release) prof=--release p=release ;; esac
    local tdir=$T/$1
    [ "$1" = default ] && tdir=$VERIF_DIR/target/mc
    # the default configuration is built exactly as for the other checks
    local aw="-A warnings "
    [ "$1" = default ] && aw=
    if ! (cd "$VERIF_DIR/$dir" && RUSTFLAGS="$aw${FLAGS[$1]}" CARGO_TARGET_DIR="$tdir" cargo build -q $prof --bin c11 >"$W/$1.log" 2>&1); then
        if alone "$1" "$dir" "$prof"; then
            echo "harness does not build in configuration $1" >"$W/$1.broken"
        else
            printf 'config %s does not compile\tconfiguration %s (RUSTFLAGS=%s) does not compile: %s\n' "$1" "$1" "${FLAGS[$1]}" \
                "$(grep -m1 '^error' "$W/$1.err" | tr -d '\t')" >>"$W/$1.problem"
        fi
        return
    fi
    echo "$tdir/$p/c11" >"$W/$1.bin"
}
runs() { # config: can this machine execute it?
    case $1 in
        avx2) has avx2 ;;
        avx512*) has avx512f && has avx512vl ;;
        *) true ;;
    esac
}
# feature combinations: all distinct closures of the five features
combos() {
    local r z l x
    for z in "" zeroize; do
        for r in "" rng; do
            echo "$r $z"
            for l in "" legacy; do
                for x in "" xchacha; do echo "cipher $l $x $r $z"; done
            done
        done
    done
}
N=0
feature_lane() { # name, config, how
    local dir=$T/feat-$1 i=0
    while read -r f; do
        i=$((i + 1))
        local out=$W/feat-$1-$i.out
        if ! (cd "$VERIF_DIR/feat" && RUSTFLAGS="-A warnings ${FLAGS[$2]}" CARGO_TARGET_DIR="$dir" cargo $3 -q --features "$f" >"$out" 2>"$out.err"); then
            if (cd "$VERIF_DIR/feat" && RUSTFLAGS="-A warnings ${FLAGS[$2]}" CARGO_TARGET_DIR="$dir" cargo check -q --lib --features "$f" >"$out.err2" 2>&1); then
                if [ "$3" = check ]; then echo "feat: $f" >"$W/feat-$1.broken"; else
                    (cd "$VERIF_DIR/feat" && RUSTFLAGS="-A warnings ${FLAGS[$2]}" CARGO_TARGET_DIR="$dir" cargo check -q --features "$f" >/dev/null 2>&1) || echo "feat: $f" >"$W/feat-$1.broken"
                    printf 'features %s/%s fail\tthe transcript under features [%s], configuration %s, was not completed\n' "$2" "$f" "$f" "$2" >>"$W/feat-$1.problem"
                fi
            else
                printf 'features %s/%s do not compile\tfeatures [%s] with RUSTFLAGS=%s do not compile: %s\n' "$2" "$f" "$f" "${FLAGS[$2]}" "$(grep -m1 '^error' "$out.err2" | tr -d '\t')" >>"$W/feat-$1.problem"
            fi
        fi
        echo . >>"$W/feat-$1.count"
    done
}
CONFIGS="default auto soft sse2 avx2 avx512 avx512-nocfg real real-avx512 native release"
for c in $CONFIGS; do build "$c" & done
combos | awk 'NR%2' | { feature_lane default-a default run; } &
combos | awk 'NR%2==0' | { feature_lane default-b default run; } &
combos | awk 'NR%2' | { feature_lane auto-a auto run; } &
combos | awk 'NR%2==0' | { feature_lane auto-b auto run; } &
for c in soft sse2 avx2 avx512 avx512-nocfg; do
    how=check
    runs $c && how=run
    combos | { feature_lane $c $c $how; } &
done
wait
if cat "$W"/*.broken 2>/dev/null; then echo "harness build failed; no verdict" >&2; cat "$W"/*.log "$W"/*.err 2>/dev/null | head -40 >&2; exit 3; fi
# transcripts: every line of every combination and lane must agree
cat "$W"/feat-*.out | sort -u >"$W/transcript"
cut -f1 "$W/transcript" | uniq -d | while read -r item; do
    printf 'transcript %s\t%s differs between feature combinations or CPU feature sets: %s\n' "$item" "$item" "$(grep -F "$item	" "$W/transcript" | cut -f2 | head -4 | tr '\n\t' '  ')"
done | head -20 >"$W/transcript.problem"
merge=
for c in $CONFIGS; do
    [ -e "$W/$c.bin" ] || continue
    [ "$c" = default ] && continue
    runs "$c" || continue
    one=one
    case $c in auto|release) one=all ;; esac
    VERIF_SUB=$W/$c.sub VERIF_CONFIG=$c VERIF_LANES=$one "$(cat "$W/$c.bin")" >"$W/$c.run" 2>&1
    # a lane that did not finish normally: crashed in the code under test
    if [ ! -e "$W/$c.sub" ]; then
        echo "sub-run $c gave no result" >&2
        cat "$W/$c.run" >&2
        exit 3
    fi
    merge="$merge $c=$W/$c.sub"
done
cat "$W"/*.problem >"$W/problems" 2>/dev/null
{
    printf 'feature combinations built\t%s\n' "$(cat "$W"/feat-*.count | wc -l)"
    printf 'transcript items compared between combinations\t%s\n' "$(wc -l <"$W/transcript")"
    printf 'build configurations explored\t%s\n' "$(echo "$merge" | wc -w | awk '{print $1+1}')"
} >"$W/counts"
if [ ! -e "$W/default.bin" ]; then
    r=$VERIF_DIR/replays/C11-0.txt
    cp "$W/default.problem" "$r"
    echo "VIOLATION property=C11 replay=$r"
    cat "$r"
    exit 1
fi
VERIF_MERGE=$merge VERIF_PROBLEMS=$W/problems VERIF_COUNTS=$W/counts exec "$(cat "$W/default.bin")"
