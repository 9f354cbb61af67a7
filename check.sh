#!/bin/bash
# check.sh setup | check ID | replay FILE | survey ID
# Builds the simulator together with /repo's current working tree, then runs it.
set -u
cd "$(dirname "$(readlink -f "$0")")/sim" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
build() {
    # cargo decides by modification times; decide by content instead
    local h
    h=$(cd /repo && { find src -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum; sha256sum Cargo.toml; } | sha256sum)
    if [ "$(cat target/.repo_hash 2>/dev/null)" != "$h" ]; then
        mkdir -p target
        rm -f target/.repo_hash
        cargo clean --offline --release -p maybe-dns -p maybe-dns-plain >/dev/null 2>&1
    fi
    if ! cargo build --release --offline --locked >target/build.log 2>&1; then
        grep -A14 '^error' target/build.log | head -150 >&2
        echo "the simulator does not build with /repo's current tree" >&2
        exit 2
    fi
    echo "$h" >target/.repo_hash
}
mkdir -p target
case "${1:-}" in
setup) build ;;
check | survey | replay)
    build
    exec ./target/release/sim "$@"
    ;;
*)
    echo "usage: check.sh setup | check ID | replay FILE" >&2
    exit 2
    ;;
esac
