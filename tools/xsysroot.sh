#!/bin/bash
# usage: xsysroot.sh TARGET DIR [build]
# Prepares DIR as a sysroot for TARGET: the standard library's metadata and MIR (type-checked from the installed rust-src, offline,
# nothing linked), which is all that emitting LLVM IR for another architecture needs; with "build", its compiled libraries, to link
# programs (WebAssembly, run by node).  It does not depend on /repo, and is kept.
set -e
t=$1; d=$2; ext=$([ "$3" = build ] && echo rlib || echo rmeta)
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTC_BOOTSTRAP=1
mkdir -p "$d"; exec 9>"$d/lock"; flock 9
lib="$d/lib/rustlib/$t/lib"; v=$(rustc -V); [ "$(cat "$d/ready" 2>/dev/null)" = "$v" ] && exit 0
mkdir -p "$d/x/src"; printf '[package]\nname="x"\nversion="0.0.0"\nedition="2021"\n[workspace]\n' > "$d/x/Cargo.toml"; echo '#![no_std]' > "$d/x/src/lib.rs"
V=$(rustc --print sysroot)/lib/rustlib/src/rust/library/vendor
cd "$d/x"; unset CARGO_TARGET_DIR
RUSTFLAGS="-Zalways-encode-mir" cargo ${3:-check} -q --release --offline -Zbuild-std=std,panic_abort --config 'source.crates-io.replace-with="v"' --config "source.v.directory=\"$V\"" --target "$t" --target-dir "$d/t"
rm -rf "$lib"; mkdir -p "$lib"; cp "$d/t/$t"/release/deps/lib*.$ext "$lib/"; rm -f "$lib"/libx-*; rm -rf "$d/t"
echo "$v" > "$d/ready"
