# Build environment shared by the checks.
export RUSTUP_TOOLCHAIN=nightly-2026-05-14
export CARGO_NET_OFFLINE=true
export RUSTC_WRAPPER=
export CARGO_TERM_COLOR=never
export CARGO_INCREMENTAL=0
export CARGO_TARGET_DIR=/verif/target
