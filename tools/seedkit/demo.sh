#!/bin/bash
# exit 0: the behaviour is as it should be; nonzero: it is not.
set -u
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d /tmp/megademo.XXXXXX)
trap 'rm -rf "$work"' EXIT
export RUSTUP_TOOLCHAIN=nightly-2025-12-04 CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR="${DEMO_TARGET:-$PWD/target}"
unset RUSTFLAGS RUSTDOCFLAGS LD_LIBRARY_PATH
DEMO_WS="$work/ws" python3 "$here/mirror.py" || exit 3
mkdir -p "$work/demo/src"
cp "$here/Cargo.toml" "$here/Cargo.lock" "$work/demo/"
cp "$here"/*.rs "$work/demo/src/"
cd "$work/demo"
cargo build --offline --locked >"$work/log" 2>&1 || { tail -40 "$work/log"; exit 3; }
"$CARGO_TARGET_DIR/debug/mega-demo"
