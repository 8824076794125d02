#!/bin/bash
# Usage: check.sh ID [quick|thorough]     run the check of one property
#        check.sh build                   just build everything
#        check.sh replay FILE             run one saved case again
# Builds the harness, and with it aoc-parse, from /repo's current working tree.
set -u
cd "$(dirname "$(readlink -f "$0")")" || exit 2
export VERIF_ROOT="$PWD"
export CARGO_TARGET_DIR="$PWD/target"
export CARGO_NET_OFFLINE=true
mkdir -p work evidence
log="work/build.$$.log"
build() { (cd harness && cargo build --offline --locked --quiet "$@") >"$log" 2>&1; }
if ! build; then
    # C13 and C14 only generate programs: they can tell what is wrong with a
    # tree that some parser! of the harness does not compile with.
    case "${1:-}" in
        C13 | C14) retry=yes ;;
        replay) grep -qE '"property": *"C1[34]"' "$2" && retry=yes || retry=no ;;
        *) retry=no ;;
    esac
    if [ "$retry" = no ] || ! build --no-default-features; then
        tail -n 40 "$log" >&2
        rm -f "$PWD/$log"
        echo "cannot build the harness" >&2
        exit 2
    fi
fi
rm -f "$PWD/$log"
case "${1:-}" in
    build)
        # The build used when a parser! of the rest does not compile.
        (cd harness && cargo check --offline --locked --quiet --no-default-features) 2>"$log" || { cat "$log" >&2; exit 2; }
        rm -f "$PWD/$log"
        exit 0
        ;;
    replay) exec target/debug/harness replay "$2" ;;
    "") echo "usage: $0 ID [quick|thorough]" >&2; exit 2 ;;
    *) exec target/debug/harness run "$1" "${2:-${VERIF_TIER:-quick}}" ;;
esac
