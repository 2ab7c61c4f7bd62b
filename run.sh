#!/bin/bash
# run.sh PROPERTY quick|thorough [--replay FILE] : rebuilds the harness against /repo's
# working tree and runs one property's check.
set -u
cd "$(dirname "$0")/harness" || exit 2
. ../tools/env.sh
prop=$1 tier=$2
shift 2
log=$(mktemp)
build() {
    if ! cargo build --release --offline "$@" >"$log" 2>&1; then
        tail -60 "$log" >&2
        rm -f "$log"
        exit 2
    fi
}
# never trust file times to tell that /repo changed
[ -d target/release ] && cargo clean --release --offline -p magicblock-delegation-program >/dev/null 2>&1
case $prop in
C05 | C14 | C15 | C16) build --features utc --bin dlpcheck-utc ;;
esac
build --bin dlpcheck
rm -f "$log"
exec ./target/release/dlpcheck --property "$prop" --tier "$tier" "$@"
