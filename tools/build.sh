#!/bin/bash
# tools/build.sh main|mv|sched|net|cml|tools : builds a harness binary against /repo's working tree
set -u
here=$(cd "$(dirname "$0")/.." && pwd)
export HOME=/root PATH="/root/.cargo/bin:${PATH:-/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin}"
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
unset RUSTFLAGS
export CARGO_TARGET_DIR="$here/build/target"
which=$1
programs="cip1852-first-address cardano-net-fetcher oura-block-fetcher"
python3 "$here/tools/mirror.py" || exit 2
# cargo trusts mtimes; a tree laid out anew may carry old ones.  Rebuild the crates under test
# whenever the content of /repo's sources differs from what was last built.
sum=$(cd /repo && find . -path ./.git -prune -o -name target -prune -o -type f \( -name '*.rs' -o -name Cargo.toml \) -print0 \
    | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum | cut -c1-64)
stamp="$here/build/stamp-$which"
if [ "$(cat "$stamp" 2>/dev/null)" != "$sum" ]; then
    rm -f "$stamp"
    if [ -d "$CARGO_TARGET_DIR" ]; then
        case $which in
            main) pk="-p deps -p dcspark-core -p multiverse -p dcspark-blockchain-source -p fraos -p indexed-log-map -p utxo-selection -p cardano-utils" ;;
            mv|net) pk="-p deps -p dcspark-core -p multiverse -p dcspark-blockchain-source" ;;
            cml) pk="-p deps -p dcspark-core -p cardano-utils -p utxo-selection" ;;
            sched) pk="-p deps -p fraos -p indexed-log-map" ;;
            tools) pk="" ;;
        esac
        if [ "$which" = tools ]; then
            for t in $programs; do
                (cd "$here/build/ws/$t" && cargo clean --offline -p "$t") >/dev/null 2>&1
            done
            (cd "$here/build/ws/oura-block-fetcher" \
                && cargo clean --offline -p deps -p dcspark-core -p multiverse -p dcspark-blockchain-source) >/dev/null 2>&1
        else
            (cd "$here/harness/$which" && cargo clean --offline $pk) >/dev/null 2>&1
        fi
    fi
fi
log="$here/build/log-$which"
build() {
    if [ "$which" = tools ]; then
        # the programs under test themselves
        for t in $programs; do
            (cd "$here/build/ws/$t" && cargo build --offline) >"$log" 2>&1 || return
        done
    fi
    (cd "$here/harness/$which" && cargo build --offline) >"$log" 2>&1
}
if [ "$which" = sched ]; then
    # a point before each statement of the two stores
    points="$here/build/ws/points"
    pairs="/repo/fraos/src $points/fraos/src /repo/indexed-log-map/src $points/indexed-log-map/src"
    for c in fraos indexed-log-map; do
        [ -L "$points/$c/src" ] && rm -f "$points/$c/src"
    done
    if (cd "$here/harness/instr" && cargo build --offline) >"$log" 2>&1 \
        && "$CARGO_TARGET_DIR/debug/vh-instr" $pairs >>"$log" 2>&1 && build; then
        echo "$sum" > "$stamp"
        exit 0
    fi
    cat "$log" >&2
    echo "no points: built from the plain sources" >&2
    for c in fraos indexed-log-map; do
        rm -rf "$points/$c/src"
        ln -s "/repo/$c/src" "$points/$c/src"
    done
fi
if ! build; then
    cat "$log" >&2
    echo "build of the $which harness failed" >&2
    exit 2
fi
echo "$sum" > "$stamp"
