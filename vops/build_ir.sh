#!/bin/bash
# usage: build_ir.sh OUT.ll RUSTC-TARGET-FEATURES CARGO-FEATURES TARGETDIR
# Emits rustc's unoptimised LLVM IR of vsimd's vector operations (instantiated by the wrappers), links it and applies LLVM's
# function inlining / SSA construction only.
set -e
out=$1; tf=$2; feats=$3; td=$4
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
B=$(rustc --print sysroot)/lib/rustlib/x86_64-unknown-linux-gnu/bin
cd "$(dirname "$0")"
rm -rf "$td/debug/deps"; mkdir -p "$td"
x=; dbg=debug
if [ -n "$X_TARGET" ]; then   # another architecture: its standard library comes from $X_SYSROOT (tools/xsysroot.sh)
  export RUSTC_BOOTSTRAP=1; x="--target $X_TARGET"; dbg=$X_TARGET/debug; xs="--sysroot $X_SYSROOT"; rm -rf "$td/$dbg/deps"
fi
RUSTFLAGS="$xs -C no-prepopulate-passes --emit=llvm-ir ${tf:+-C target-feature=$tf}" cargo build -q --offline $x --target-dir "$td" ${feats:+--features $feats}
ls "$td"/$dbg/deps/{vops,vsimd}-*.ll > "$td/list" 2>/dev/null || true
"$B/llvm-link" -S $(cat "$td/list") -o "$td/linked.ll"
"$B/opt" -S -passes='always-inline,cgscc(inline<only-mandatory>),function(sroa,early-cse,simplifycfg),cgscc(inline),function(sroa<modify-cfg>,early-cse,instsimplify,simplifycfg<no-switch-to-lookup>),globaldce' -inline-threshold=100000 "$td/linked.ll" -o "$out"
