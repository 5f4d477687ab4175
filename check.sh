#!/bin/bash
# usage: check.sh PROP        (or: check.sh setup)
# Builds the simulator against /repo's current tree and runs the check of one property.
# 0: held on everything explored, 1: violation, 2: the check could not be made.
here=$(cd "$(dirname "$0")" && pwd)
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET CARGO_INCREMENTAL RUSTC_WRAPPER
mkdir -p "$here/build"

# the code under test, by content: build products of another tree are never reused
tree() { (cd /repo && find src Cargo.toml -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum) | sha256sum; }

build() { # normal | engine
    local dir=$here/build/target args=()
    [ "$1" = engine ] && dir=$here/build/target-engine args=(--features engine)
    (
        flock 9
        cd "$here/harness" || exit 2
        local now; now=$(tree)
        if [ "$(cat "$dir/tree" 2>/dev/null)" != "$now" ]; then
            rm -f "$dir/tree" "$dir/release/puzzle-sim"
            CARGO_TARGET_DIR=$dir cargo clean --release --offline -p puzzle-utils -p puzzle-sim >/dev/null 2>&1
        fi
        [ "$1" = engine ] && export RUSTFLAGS="--cfg vp_sim"
        CARGO_TARGET_DIR=$dir cargo build --release --offline --locked "${args[@]}" >"$dir.log" 2>&1 || {
            rm -f "$dir/tree"; echo "the simulator does not build:"; tail -40 "$dir.log"; exit 2; }
        [ "$dir/release/puzzle-sim.sites" -nt "$dir/release/puzzle-sim" ] ||
            "$here/sites.sh" "$dir/release/puzzle-sim" >"$dir/release/puzzle-sim.sites"
        echo "$now" >"$dir/tree"
    ) 9>"$dir.lock" || exit 2
    bin=$dir/release/puzzle-sim
}

case $1 in
setup) (build normal) || exit 2; (build engine); exit 0 ;;
C11)
    # a tree whose matrix no longer has the interface the hook re-exports: only what sudokus do to it
    (build engine) && build engine || {
        echo "the hook of C11 does not build against this tree: exercising the matrix through solve_sudoku only"
        build normal
    } ;;
C0[1-9] | C10) build normal ;;
*) echo "no such check: $1"; exit 2 ;;
esac
cd "$here" && exec "$bin" check "$1"
