#!/bin/bash
# usage: check.sh build            build the simulator against /repo's working tree
#        check.sh C01 quick        decide one property (quick | thorough)
# exit 0: held on everything explored; 1: violation; 2: no answer (build or harness failure)
set -u
VERIF=$(cd "$(dirname "$0")" && pwd)
REPO=/repo
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export BITCOIND_SKIP_DOWNLOAD=1 ELECTRSD_SKIP_DOWNLOAD=1
unset RUSTFLAGS CARGO_BUILD_TARGET CARGO_TARGET_DIR
TARGET=$VERIF/target
mkdir -p "$TARGET" "$VERIF/evidence" "$VERIF/replays"

build() {
    # Timestamps of a copied tree say nothing: what was built is identified by content.
    local now
    now=$(cd "$REPO" && find silentpayments indexer oracles wallet dleq cli fuzz Cargo.toml \
        -type f \( -name '*.rs' -o -name Cargo.toml \) -not -path '*/target/*' -print0 2>/dev/null |
        LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
    now="$now $(cd "$VERIF/sim" && find . -type f -not -path '*/target/*' -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)"
    if [ -x "$TARGET/release/spsim" ] && [ "$(cat "$TARGET/built.sha" 2>/dev/null)" = "$now" ]; then
        return 0
    fi
    rm -f "$TARGET/built.sha"
    cd "$VERIF/sim" || return 2
    cargo clean --release --offline --target-dir "$TARGET" -p bdk_sp -p indexer -p bdk_sp_oracles \
        -p bdk_sp_wallet -p sim_cli1 -p sim_cli2 -p bdk_tx -p sim_tracing -p sim_tracing_subscriber -p dleq -p spsim >/dev/null 2>&1
    if ! cargo build --release --offline --target-dir "$TARGET" >"$TARGET/build.log" 2>&1; then
        tail -40 "$TARGET/build.log"
        echo "the simulator does not build against $REPO"
        return 2
    fi
    echo "$now" >"$TARGET/built.sha"
}

(
    flock 9
    build
) 9>"$TARGET/.lock" || exit 2
[ "$1" = build ] && exit 0
cd "$VERIF" && exec "$TARGET/release/spsim" check --property "$1" --tier "${2:-quick}"
