#!/bin/bash
# Runs demo.rs as a unit test of a scratch copy of the crate in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=/root PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
export CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER=
d=$(mktemp -d /tmp/rustbit-demo.XXXXXX) || exit 2
trap 'rm -rf "$d"' EXIT
cp -r "$repo/src" "$repo/Cargo.toml" "$repo/Cargo.lock" "$d/" || exit 2
{ echo '#[cfg(test)] mod planted_demo { #![allow(unused_imports, dead_code)]'; cat "$here/demo.rs"; echo '}'; } >> "$d/src/main.rs"
mkdir "$d/work"
export CARGO_TARGET_DIR=/repo/target
cd "$d" && timeout 200 cargo test --offline --no-run >"$d/log" 2>&1 || { tail -40 "$d/log"; exit 3; }
timeout 90 cargo test --offline planted_demo -- --test-threads 1 2>&1 | tail -30
exit ${PIPESTATUS[0]}
