#!/bin/sh
# usage: build_ir.sh OUTDIR [cargo args...]   -> LLVM IR of the driver and the crates of /repo
set -e
here=$(dirname "$(readlink -f "$0")")
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_TARGET_DIR="$1"; shift
export RUSTFLAGS="--cfg blake2_verify --emit=llvm-ir -C no-prepopulate-passes -C opt-level=3 -C codegen-units=1 -C debuginfo=0 -C overflow-checks=on -C debug-assertions=on $LVC_RUSTFLAGS"
exec cargo build --release --offline --manifest-path "$here/drv/Cargo.toml" "$@"
