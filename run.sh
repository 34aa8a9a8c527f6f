#!/bin/bash
# Builds the simulators against /repo's working tree and runs them.
#   run.sh check PROPERTY      tier from VERIF_TIER, seed from VERIF_SEED
#   run.sh replay FILE
#   run.sh selftest N          the contracts' simulator
#   run.sh selftest-ampd N     the worker daemon's simulator
#   run.sh build
# C01-C30 are decided by sim/ (contracts), C31-C37 by ampdsim/ (worker daemon); each needs only its own build.
cd "$(dirname "$0")" || exit 2
source ./env.sh

# cargo decides by file times what to rebuild; contents decide here
stale() { # target directory, then the package directories
    local t=$1 d n s f; shift
    mkdir -p "$t/sums"
    for d in "$@"; do
        [ -f "$d/Cargo.toml" ] || continue
        n=$(sed -n 's/^name *= *"\(.*\)"/\1/p' "$d/Cargo.toml" | head -1)
        s=$(find -L "$d" \( -name target -o -name .git \) -prune -o -type f \( -name '*.rs' -o -name '*.toml' \) -print0 | sort -z | xargs -0 sha256sum | sha256sum)
        f="$t/sums/$n"
        if [ "$s" != "$(cat "$f" 2>/dev/null)" ]; then
            find "$t/debug/.fingerprint" -maxdepth 1 -name "$n-*" -exec rm -rf {} + 2>/dev/null
            echo "$s" >"$f.new"
        fi
    done
}
build() { # directory of the simulator, target directory, package directories
    local dir=$1 t=$2 log; shift 2
    stale "$t" "$@"
    log=$(mktemp /tmp/ampsim-build.XXXXXX)
    if ! (cd "$dir" && CARGO_TARGET_DIR=$t cargo build --offline --locked) >"$log" 2>&1; then
        echo "$dir does not build against /repo:"; tail -60 "$log"; rm -f "$log"; return 2
    fi
    tail -1 "$log"; rm -f "$log"
    for f in "$t"/sums/*.new; do [ -f "$f" ] && mv "$f" "${f%.new}"; done
    return 0
}
contracts() { build sim "$CARGO_TARGET_DIR" /repo/contracts/* /repo/packages/* ./sim; }
daemon() {
    build ampdsim "$CARGO_TARGET_DIR/ampd" /repo/contracts/* /repo/packages/* \
        ./ampdsim/ampd ./ampdsim/events ./ampdsim/events-derive ./ampdsim/simnet ./ampdsim/stubs/* ./ampdsim
}

what=$2
[ "$1" = replay ] && what=$(sed -n 's/.*"property": *"\(C[0-9]*\)".*/\1/p' "$2" | head -1)
export AMPSIM_DIR="$PWD"
case "$1:$what" in
    build:*) contracts && daemon; exit ;;
    check:C3[1-7] | replay:C3[1-7]) daemon || exit 2; exec "$CARGO_TARGET_DIR/ampd/debug/ampdsim" "$@" ;;
    selftest-ampd:*) daemon || exit 2; shift; exec "$CARGO_TARGET_DIR/ampd/debug/ampdsim" selftest "$@" ;;
    *) contracts || exit 2; exec "$CARGO_TARGET_DIR/debug/ampsim" "$@" ;;
esac
