#!/bin/bash
# run.sh PROPERTY [--replay FILE]: builds the harness against /repo's working tree and runs one check.
# run.sh --setup: only builds.
set -u
export VERIF_ROOT="$(cd "$(dirname "$0")" && pwd)"
cd "$VERIF_ROOT/harness" || exit 3
export PATH="/root/.cargo/bin:$PATH" HOME="${HOME:-/root}"
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTUP_TOOLCHAIN=1.82.0
export CARGO_TARGET_DIR="$VERIF_ROOT/target" CARGO_INCREMENTAL=0 RUSTC_WRAPPER= RUST_BACKTRACE=0
export RUSTFLAGS="--cap-lints=warn"
id="$1"
features=()
case "$id" in
C24|C25) features=(--features cli) ;;
C28) features=(--features decl) ;;
esac
log="$VERIF_ROOT/target/build-$id.$$.log"
mkdir -p "$VERIF_ROOT/target" "$VERIF_ROOT/evidence"
if ! cargo build --release --offline -q "${features[@]}" >"$log" 2>&1; then
    grep -E '^error' -A 12 "$log" | head -60 >&2
    echo "build failed" >&2
    rm -f "$log"
    exit 3
fi
# unic-ucd-normal with its default features only
if [ "$id" = C19 ] || [ "$id" = --setup ]; then
    if ! (cd "$VERIF_ROOT/harness-min" && cargo build --release --offline -q) >"$log" 2>&1; then
        grep -E '^error' -A 12 "$log" | head -60 >&2
        echo "build failed" >&2
        rm -f "$log"
        exit 3
    fi
fi
# programs that are run as such: DIR NAME
program() {
    if ! (cd "$1" && CARGO_TARGET_DIR="$VERIF_ROOT/target/$2" cargo build --offline -q "${@:3}") >"$log" 2>&1; then
        grep -E '^error' -A 12 "$log" | head -60 >&2
        echo "build failed" >&2
        rm -f "$log"
        exit 3
    fi
}
case "$id" in
C25) program /repo/apps/cli cli --bins ;;
C26) program /repo/gen gen --release ;;
esac
rm -f "$log"
[ "$id" = --setup ] && exit 0
ulimit -v 20000000
exec "$VERIF_ROOT/target/release/unic-verif" "$@"
