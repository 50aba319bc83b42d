#!/bin/bash
# Exit 0 when the property holds for this scenario, nonzero when it is broken.
# Builds /repo's sources with the stand-ins beside this file, in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true RUSTFLAGS=-Awarnings RUSTC_WRAPPER=
scratch=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$scratch"' EXIT
cp -r "$here/ws/." "$scratch/" && cp -r "$here/demo" "$scratch/demo" || exit 2
cd "$scratch" || exit 2
export CARGO_TARGET_DIR=$scratch/target
cargo build --offline -q -p demo > build.log 2>&1 || { tail -30 build.log; exit 2; }
timeout 60 ./target/debug/demo
