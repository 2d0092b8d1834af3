//! The vector-operation wrappers as a WebAssembly module (run by run.js).
pub use vops::*;
#[repr(C, align(64))]
pub struct Buf([u8; 1024]);
#[no_mangle] pub static mut IO: Buf = Buf([0; 1024]);
