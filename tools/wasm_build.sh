#!/bin/bash
# usage: wasm_build.sh CRATE OUT.wasm BUILDDIR TARGET-FEATURES: builds /verif/CRATE for wasm32; the standard library is built from rust-src, offline, once
set -e
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_BOOTSTRAP=1
H=$(cd "$(dirname "$0")/.." && pwd); unset CARGO_TARGET_DIR; S=$3/sysroot-full-wasm32-unknown-unknown
"$H/tools/xsysroot.sh" wasm32-unknown-unknown "$S" build
cd "$H/$1"
RUSTFLAGS="--sysroot $S ${4:+-C target-feature=$4} -C linker=rust-lld" cargo build -q --offline --target wasm32-unknown-unknown --target-dir "$3/t_$1"
cp "$3/t_$1/wasm32-unknown-unknown/debug/$1.wasm" "$2"
