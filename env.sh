# Sourced by every script of the framework: the toolchain the repository is pinned to, no network.
export RUSTUP_TOOLCHAIN=nightly-2024-07-02
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR=${CARGO_TARGET_DIR:-/verif/target/sim}
export RUST_BACKTRACE=0
