#!/bin/bash
# usage: run.sh build | check <ID> [quick|thorough] | replay <file>
# Rebuilds the harness against /repo's working tree, then runs it.
cd "$(dirname "$0")" || exit 2
export HARNESS_ROOT="$PWD"
export CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$PWD/target"
export RUSTFLAGS="--cfg piston_meta_verif -Awarnings"
# Instruments the library, and only it, for coverage guidance.
export RUSTC_WRAPPER="$PWD/harness/rustc-wrap.sh"
mkdir -p target
build() {
    # Cargo goes by time stamps: force a rebuild of the library when its content changed.
    sum=$(cd /repo && find Cargo.toml src assets -type f -print0 | sort -z | xargs -0 sha256sum | sha256sum)
    (
        flock 9
        if [ "$sum" != "$(cat target/sources.sum 2>/dev/null)" ]; then
            rm -f target/sources.sum
            cargo clean -q --release --offline --manifest-path harness/Cargo.toml -p piston_meta -p piston_meta_search >/dev/null 2>&1
        fi
        cargo build -q --release --offline --manifest-path harness/Cargo.toml >target/build.log 2>&1 || { tail -40 target/build.log >&2; exit 2; }
        echo "$sum" > target/sources.sum
    ) 9>target/lock || exit 2
}
case "$1" in
    build) build ;;
    check) build; exec target/release/harness check "$2" ${3:-${VERIF_TIER:-quick}} ;;
    replay) build; exec target/release/harness replay "$2" ;;
    *) echo "usage: run.sh build | check <ID> [tier] | replay <file>" >&2; exit 2 ;;
esac
