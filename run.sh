#!/bin/bash
# bash run.sh check <property> [quick|thorough]   explore, verdict, evidence
# bash run.sh replay <file under replays/>        run one case again
# bash run.sh build
cd "$(dirname "$0")" || exit 2
. /opt/vp/env.sh
export CARGO_TARGET_DIR=$PWD/target VERIF_ROOT=$PWD
unset CARGO_INCREMENTAL RUSTFLAGS
log=$(mktemp) || exit 2
mkdir -p target
(
    flock 9
    # Cargo judges freshness by file times; judge by content instead.
    sum=$(cd /repo && find Cargo.toml src build.rs -type f -print0 2>/dev/null | sort -z | xargs -0 sha256sum | sha256sum)
    if [ "$sum" != "$(cat target/.repo-sum 2>/dev/null)" ]; then
        rm -f target/.repo-sum
        cargo clean --release --offline --locked --manifest-path harness/Cargo.toml -p boxcars > /dev/null 2>&1
    fi
    cargo build --release --offline --locked --manifest-path harness/Cargo.toml > "$log" 2>&1 || exit 1
    echo "$sum" > target/.repo-sum
) 9> target/.lock
if [ $? -ne 0 ]; then
    tail -n 40 "$log" >&2
    rm -f "$log"
    echo "harness error: build failed" >&2
    exit 2
fi
rm -f "$log"
[ "$1" = build ] && exit 0
exec "$CARGO_TARGET_DIR/release/mc" "$@"
