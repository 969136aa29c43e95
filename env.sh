export RUSTUP_TOOLCHAIN="${V_TOOLCHAIN:-stable}"
export CARGO_TARGET_DIR="${V_TARGET_DIR:-/verif/target}"
export CARGO_NET_OFFLINE=true
export VERIF_ROOT="${VERIF_ROOT:-/verif}"
export RUST_BACKTRACE=0
unset RUSTFLAGS CARGO_PROFILE_DEV_OPT_LEVEL CARGO_PROFILE_DEV_DEBUG CARGO_INCREMENTAL
