//! One wrapper per vector operation and instruction-set level (generated: ops.rs), so that the real code of vsimd is
//! instantiated for verification, and can be run natively on a counterexample.
#![allow(unused_imports, unused_unsafe, clippy::all)]
use vsimd::isa::{AVX2, NEON, SSE2, SSE41, SSSE3, WASM128, InstructionSet};
use vsimd::vector::{V128, V256, V512, V64};
use vsimd::{Scalable, SIMD128, SIMD256};
#[inline(always)] unsafe fn ld<T: Copy>(i: *const u8, off: usize) -> T { i.add(off).cast::<T>().read_unaligned() }
#[inline(always)] unsafe fn st<T: Copy>(o: *mut u8, off: usize, v: T) { o.add(off).cast::<T>().write_unaligned(v) }
#[cfg(target_arch = "x86_64")] include!("ops.rs");
#[cfg(target_arch = "aarch64")] include!("ops_neon.rs");
#[cfg(target_arch = "wasm32")] include!("ops_wasm.rs");
