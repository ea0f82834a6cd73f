#!/bin/bash
# check.sh ID            decides property ID on /repo's current tree (tier and seed from VERIF_TIER and VERIF_SEED)
# check.sh replay FILE   executes a recorded violation again
# check.sh build         only builds the simulator (against /repo's current tree)
# check.sh selftest [RUNS [ID]]   executes the same seeds twice, under different worker counts, and compares every event log
[ "$1" = replay ] && set -- replay "$(realpath -- "$2")"
cd "$(dirname "$0")/sim" || exit 2
export PATH=/usr/local/bin:/root/.cargo/bin:${PATH:-/usr/bin:/bin}
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu} CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET_DIR
LOG=$(mktemp)
trap '/bin/rm -f "$LOG" "$LOG.sum"' EXIT
# cargo trusts modification times, which copies of the tree may not keep: rebuilt for every other content
find /repo/src /repo/Cargo.toml -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum > "$LOG.sum"
if ! cmp -s "$LOG.sum" target/built-from.sum; then cargo clean --release --offline -p big-o-test >/dev/null 2>&1; fi
build() {
    if ! cargo build --release --offline "$@" >"$LOG" 2>&1; then
        grep -A12 "^error" "$LOG" | head -80 >&2
        echo "the simulator could not be built against /repo" >&2
        exit 2
    fi
}
# the crate's other builds are simulated, too, where it makes a difference
case "$1" in
    build|replay|C15|C16|C17)
        for v in err none; do
            build --no-default-features --features $v
            cmp -s target/release/bigosim target/bigosim-$v || { cp target/release/bigosim target/bigosim-$v.new && mv target/bigosim-$v.new target/bigosim-$v; }
        done ;;
esac
build
cp "$LOG.sum" target/built-from.sum
# the memory model doesn't know what locks synchronise: it is off, should the allocator and its ring ever use them
LOCKS='\b(Mutex|RwLock|ReentrantLock|Condvar|Once|OnceLock|LazyLock|mpsc|Barrier|park|unpark|parking_lot)\b'
if find /repo/src -name '*.rs' -not -path '*/runners/*' -not -path '*/api/*' -not -name sim_std.rs -print0 | xargs -0 sed 's#//.*##' | grep -E "$LOCKS" >/dev/null; then export BIGOSIM_LOCKS=1; else export BIGOSIM_LOCKS=0; fi
export BIGOSIM_DIR="$(dirname "$PWD")"
case "$1" in
    build) exit 0 ;;
    replay) ./target/release/bigosim replay "$2" ;;
    selftest) shift; ./target/release/bigosim selftest "$@" ;;
    show) shift; ./target/release/bigosim show "$@" ;;
    *) ./target/release/bigosim check "$1" ;;
esac
