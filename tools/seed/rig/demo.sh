#!/bin/bash
# Builds the scenario beside this file against the tree in the current directory and runs it:
# exit 0 if the behaviour it describes holds, 1 if not. Writes only to a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.84.1 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset BPF_OUT_DIR SBF_OUT_DIR RUSTFLAGS CARGO_BUILD_TARGET RUST_BACKTRACE CARGO_TARGET_DIR
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
mkdir "$tmp/src"
cp "$here"/*.rs "$tmp/src/"
cp "$here/Cargo.lock" "$tmp/Cargo.lock"
sed "s|@REPO@|$repo|" "$here/Cargo.toml.in" >"$tmp/Cargo.toml"
export CARGO_TARGET_DIR=${DEMO_TARGET_DIR:-$tmp/target}
if ! (cd "$tmp" && cargo build --release --offline --bin demo) >"$tmp/log" 2>&1; then
    tail -40 "$tmp/log"
    exit 2
fi
"$CARGO_TARGET_DIR/release/demo"
