#!/bin/bash
# check.sh ID [quick|thorough]: rebuild the harness against /repo's working tree and run one property's check.
# check.sh --build: only build.
cd "$(dirname "$0")" || exit 2
export VERIF_DIR="$PWD"
. ./env.sh
ID="$1"; TIER="${VERIF_TIER:-${2:-quick}}"; SEED="${VERIF_SEED:-1}"
cd harness || exit 2
mkdir -p target
build() {
    # cargo decides staleness by mtime; compare contents too
    local sum
    sum=$( (cd /repo && find src Cargo.toml -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum)
    if [ "$sum" != "$(cat target/repo.sum 2>/dev/null)" ]; then
        rm -f "$PWD/target/repo.sum"
        cargo clean -p multipart --offline >/dev/null 2>&1
    fi
    cargo build --offline --locked >target/build.log 2>&1 || { tail -40 target/build.log; return 1; }
    echo "$sum" >target/repo.sum
}
exec 9>target/.lock
flock 9
if ! build; then
    echo "CHECK-ERROR property=$ID the harness does not build"
    exit 2
fi
flock -u 9
exec 9>&-
[ "$ID" = "--build" ] && exit 0
exec ./target/debug/pbt run "$ID" "$TIER" "$SEED"
