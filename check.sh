#!/bin/bash
# usage: check.sh setup                         build the harness
# usage: check.sh <property> <quick|thorough>     decide one property
#        check.sh replay <file>                   re-run one recorded execution
# Rebuilds the harness against /repo's working tree, then runs it.
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
mkdir -p evidence
log=evidence/.build-$1.log
if ! cargo build --release --offline --manifest-path mc/Cargo.toml --target-dir target >"$log" 2>&1; then
    grep -E "^(error|warning: unused)" -A8 "$log" | grep -A8 ^error | head -60
    echo "the harness does not build against this tree"
    exit 2
fi
rm -f "$PWD/$log"
if [ "$1" = setup ]; then exit 0; fi
if [ "$1" = replay ]; then
    exec target/release/mc replay "$2"
fi
exec target/release/mc run "$1" "${2:-quick}"
