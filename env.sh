export CARGO_TARGET_DIR=/verif/target
export CARGO_NET_OFFLINE=true
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_TERM_COLOR=never
export RUSTFLAGS="-Awarnings"
unset CARGO_BUILD_TARGET RUSTC_WORKSPACE_WRAPPER
export RUSTC_WRAPPER=/verif/rustc.sh
mkdir -p /verif/out /verif/evidence
