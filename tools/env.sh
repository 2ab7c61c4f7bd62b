# Sourced by the scripts in /verif: pins the toolchain /repo is built with, offline.
export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.84.1 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0
unset BPF_OUT_DIR SBF_OUT_DIR RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET RUST_BACKTRACE
