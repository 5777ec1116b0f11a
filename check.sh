#!/bin/bash
# check.sh <property> [quick|thorough] [harness options, e.g. --replay FILE]
# check.sh --setup          only build
# Rebuilds the harness and the library from /repo's working tree, then runs
# the check. Exit 0: held; 1: VIOLATION; anything else: error of the check.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export PATH="$HOME/.cargo/bin:$PATH"
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$here/harness/target"
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER
[ -n "${RUSTUP_TOOLCHAIN:-}" ] || export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu

# Coverage callbacks in the library (and nowhere else), for the guided search.
[ -x "$here/harness/instrument.sh" ] || chmod +x "$here/harness/instrument.sh"
export RUSTC_WRAPPER="$here/harness/instrument.sh"

fp="$here/harness/target/release/.fingerprint"
# Freshness by modification time is not reliable after git checkout / cp -a.
if [ -d "$fp" ]; then
    find "$fp" -mindepth 1 -maxdepth 1 \( -name 'ur20-*' -o -name 'harness-*' \) \
        -exec rm -rf {} +
fi
log="$here/harness/build.log"
if ! (cd "$here/harness" && cargo build --release --offline --locked) >"$log" 2>&1; then
    tail -40 "$log" >&2
    echo "CHECK ERROR: build failed" >&2
    exit 3
fi
if [ "${1:-}" = "--setup" ]; then
    exit 0
fi
prop=$1
shift
tier=${VERIF_TIER:-quick}
case "${1:-}" in
quick | thorough)
    tier=$1
    shift
    ;;
esac
exec "$here/harness/target/release/harness" "$prop" --tier "$tier" \
    --seed "${VERIF_SEED:-1}" --root "$here" "$@"
