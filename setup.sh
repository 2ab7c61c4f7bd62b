#!/bin/bash
# Builds both flavours of the harness, offline, so that later runs only rebuild what changed.
set -u
cd "$(dirname "$0")/harness" || exit 2
. ../tools/env.sh
cargo build --release --offline --bin dlpcheck && cargo build --release --offline --features utc --bin dlpcheck-utc
