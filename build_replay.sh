#!/bin/bash
# Usage: build_replay.sh TARGET_DIR [on|off] : the harnesses as native code, with every memory access and atomic
# operation of the crate and of the harnesses instrumented (calls into replay/rt.c).
set -e
export HOME=/root PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=0 RUSTC_BOOTSTRAP=1
export CARGO_TARGET_DIR="$1"
export RUSTFLAGS="-Zsanitizer=thread -Zexternal-clangrt -Cunsafe-allow-abi-mismatch=sanitizer -C codegen-units=1 -C opt-level=0 -C debuginfo=0 -C debug-assertions=${2:-on} -C overflow-checks=${2:-on} -Zshare-generics=n"
cd "$(dirname "$0")/replay"
exec cargo build --offline --target x86_64-unknown-linux-gnu
