#!/bin/bash
# Usage: build_ir_fmt.sh TARGET_DIR [on|off] : LLVM IR of /repo's crate, of the formatting harness, and of core and alloc.
set -e
export HOME=/root PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0 RUSTC_BOOTSTRAP=1
export CARGO_TARGET_DIR="$1"
export RUSTFLAGS="--emit=llvm-ir -C codegen-units=1 -C opt-level=0 -C debuginfo=0 -C debug-assertions=${2:-on} -C overflow-checks=${2:-on} -C no-prepopulate-passes -C symbol-mangling-version=v0 -C passes=function(mem2reg)"
cd "$(dirname "$0")/harness_fmt"
exec cargo build --lib --offline -Zbuild-std=core,alloc --target x86_64-unknown-linux-gnu
