#!/bin/bash
# extract.sh FIXTURE_DIR OUT_DIR [extra rustc flags]: writes the fixture crate's MIR export.
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
fx=$1; out=$2; shift 2
mkdir -p "$out"
tmp=$(mktemp -d /tmp/sx.XXXXXX)
trap 'rm -rf "$tmp"' EXIT
cp -r "$fx" "$tmp/fx"
cp "$here/fixtures/common/sxm.rs" "$tmp/fx/src/sxm.rs"
repo=${SX_REPO:-/repo}
cp $repo/Cargo.lock "$tmp/fx/Cargo.lock"
sed -i "s|/repo/|$repo/|g" "$tmp/fx/Cargo.toml"
cd "$tmp/fx"
export LD_LIBRARY_PATH=$(rustc +nightly --print sysroot)/lib
export SXMIR_OUT=$out RUSTC_WRAPPER=$here/driver/target/release/sxmir CARGO_TARGET_DIR=$tmp/t
export RUSTFLAGS="-Awarnings -Zallow-features= $*"
cargo +nightly check --offline -q
