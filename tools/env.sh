export RUSTUP_TOOLCHAIN=nightly-2025-12-04
export CARGO_NET_OFFLINE=true
export CARGO_INCREMENTAL=1
export CARGO_PROFILE_DEV_DEBUG=line-tables-only
export CARGO_TERM_COLOR=never
export RUSTC_WRAPPER=
unset RUSTFLAGS RUSTDOCFLAGS LD_LIBRARY_PATH
