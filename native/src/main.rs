#![allow(unused, static_mut_refs)]
//! Native runner: calls the real operations (through the same wrappers the verifier uses) on concrete inputs,
//! with guard pages around every buffer, at a chosen instruction-set level, and compares with scalar oracles.
//! It replays counterexamples and serves as the bounded stand-in where the verifier gives no answer.
use hx::Ret;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Duration;
#[cfg(not(target_arch = "wasm32"))] use std::time::Instant;
#[cfg(target_arch = "wasm32")] use host::*;
/// on WebAssembly (run by node, see native_wasm/run.js): the few services needed from outside
#[cfg(target_arch = "wasm32")] mod host {
    #[link(wasm_import_module = "env")] extern "C" { fn now() -> f64; fn out(p: *const u8, n: usize); fn exit(c: i32) -> !; }
    #[derive(Clone, Copy)] pub struct Instant(f64);
    impl Instant { pub fn now() -> Self { Instant(unsafe { now() }) } pub fn elapsed(&self) -> super::Duration { super::Duration::from_secs_f64((unsafe { now() } - self.0).max(0.0) / 1000.0) } }
    pub fn print(s: &str) { unsafe { out(s.as_ptr(), s.len()) } }
    pub fn quit(c: i32) -> ! { unsafe { exit(c) } }
    pub unsafe fn alarm(_: u32) -> u32 { 0 }
    pub static mut PANIC: String = String::new();
    #[no_mangle] pub extern "C" fn hx_alloc(n: usize) -> *mut u8 { Vec::leak(vec![0u8; n]).as_mut_ptr() }
    /// arguments separated by newlines
    #[no_mangle] pub unsafe extern "C" fn hx_go(p: *const u8, n: usize) {
        std::panic::set_hook(Box::new(|i| unsafe { PANIC = format!("panicked: {}", i.payload().downcast_ref::<String>().cloned().or(i.payload().downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default()) }));
        let a = String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).split('\n').map(|x| x.to_string()).collect(); super::real_main(a)
    }
    /// after a trap: what was running
    #[no_mangle] pub unsafe extern "C" fn hx_crash(p: *const u8, n: usize) {
        let m = String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).to_string();
        let m = if !PANIC.is_empty() { PANIC.clone() } else if m.contains("memory access") { format!("SIGSEGV: access outside memory ({m})") } else { format!("abort ({m})") };
        let c = super::CUR; print(&format!("\nMISMATCH\t{}\t{}\t{}\t{}\t{}\n", c.0, c.4, c.1, if c.3 == 0 { "-".into() } else { super::hexs(std::slice::from_raw_parts(c.2, c.3)) }, m.replace(['\t', '\n'], " ")))
    }
}
#[cfg(target_arch = "wasm32")] macro_rules! println { ($($t:tt)*) => { host::print(&(format!($($t)*) + "\n")) } }
#[cfg(not(target_arch = "wasm32"))] fn quit(c: i32) -> ! { std::process::exit(c) }
#[cfg(not(target_arch = "wasm32"))] extern "C" {
    fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn mprotect(a: *mut u8, n: usize, p: i32) -> i32;
    fn signal(s: i32, h: usize) -> usize;
    fn write(fd: i32, p: *const u8, n: usize) -> isize;
    fn _exit(c: i32) -> !;
    fn alarm(s: u32) -> u32;
    fn sigaltstack(a: *const StackT, b: *mut StackT) -> i32;
}
#[repr(C)] struct StackT { sp: *mut u8, flags: i32, size: usize }
const PG: usize = 4096;
struct Arena { base: *mut u8, cap: usize }
impl Arena {
    #[cfg(target_arch = "wasm32")] fn new(cap: usize) -> Self { let b = Vec::leak(vec![0u8; cap + 3 * PG]).as_mut_ptr(); unsafe { Arena { base: b.add(PG - b as usize % PG + PG), cap: cap / PG * PG } } }
    #[cfg(not(target_arch = "wasm32"))] fn new(cap: usize) -> Self { unsafe {
        let cap = (cap + PG - 1) / PG * PG; let b = mmap(std::ptr::null_mut(), cap + 2 * PG, 3, 0x22, -1, 0);
        mprotect(b, PG, 0); mprotect(b.add(PG + cap), PG, 0); Arena { base: b.add(PG), cap }
    } }
    /// a buffer of n bytes abutting the guard page after it (end) or before it
    fn place(&self, n: usize, end: bool) -> *mut u8 { assert!(n <= self.cap); unsafe { if end { self.base.add(self.cap - n) } else { self.base } } }
    fn canary(&self, p: *mut u8, n: usize, pat: u8, check: bool) -> bool { unsafe {
        let lo = (p as usize).saturating_sub(128).max(self.base as usize); let hi = (p as usize + n + 128).min(self.base as usize + self.cap);
        #[cfg(target_arch = "wasm32")] let (lo, hi) = (p as usize - 128, p as usize + n + 128);
        let mut ok = true;
        for a in (lo..p as usize).chain(p as usize + n..hi) { let q = a as *mut u8; if check { ok &= *q == pat } else { *q = pat } }
        ok
    } }
}
static mut CUR: (&str, usize, *const u8, usize, &str) = ("", 0, std::ptr::null(), 0, "");
fn hexs(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
#[cfg(not(target_arch = "wasm32"))] extern "C" fn on_sig(s: i32) { unsafe {
    let mut b = [0u8; 64 + 2 * 70000]; let mut k = 0;
    let mut put = |x: &[u8]| { for &c in x { if k < b.len() { b[k] = c; k += 1; } } };
    put(b"\nMISMATCH\t"); put(CUR.0.as_bytes()); put(b"\t"); put(CUR.4.as_bytes()); put(b"\t");
    let mut d = [0u8; 20]; let mut i = 20; let mut v = CUR.1; loop { i -= 1; d[i] = b'0' + (v % 10) as u8; v /= 10; if v == 0 { break } } put(&d[i..]); put(b"\t");
    if CUR.3 == 0 { put(b"-") }
    for j in 0..CUR.3.min(69000) { let c = *CUR.2.add(j); put(&[b"0123456789abcdef"[(c >> 4) as usize], b"0123456789abcdef"[(c & 15) as usize]]) }
    put(match s { 11 => b"\tSIGSEGV: access outside a buffer\n" as &[u8], 4 => b"\tSIGILL\n", 6 => b"\tabort (non-unwinding panic)\n", 14 => b"\ttimeout: the call does not return\n", 7 => b"\tSIGBUS\n", 8 => b"\tSIGFPE\n", _ => b"\tsignal\n" });
    write(1, b.as_ptr(), k); _exit(1)
} }

// ------------------------------------------------------------------ oracles (independent scalar definitions)
const B64S: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
const B64U: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
const B32S: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZ234567";
const B32H: &[u8] = b"0123456789ABCDEFGHIJKLMNOPQRSTUV";
fn enc(al: &[u8], bits: u32, pad: bool, s: &[u8]) -> Vec<u8> {
    let (mut acc, mut n, mut o) = (0u32, 0, vec![]);
    for &b in s { acc = (acc << 8 | b as u32) & 0xffff; n += 8; while n >= bits { n -= bits; o.push(al[(acc >> n) as usize & ((1 << bits) - 1)]) } }
    if n > 0 { o.push(al[(acc << (bits - n)) as usize & ((1 << bits) - 1)]) }
    if pad { let g = if bits == 6 { 4 } else { 8 }; while o.len() % g != 0 { o.push(b'=') } }
    o
}
fn dec(al: &[u8], bits: u32, pad: bool, s: &[u8]) -> Option<Vec<u8>> {
    let mut e = s.len();
    if pad { while e > 0 && s[e - 1] == b'=' { e -= 1 } }
    let (mut acc, mut n, mut o) = (0u32, 0, vec![]);
    for c in &s[..e] { let v = al.iter().position(|x| x == c)? as u32; acc = (acc << bits | v) & 0xffff; n += bits; if n >= 8 { n -= 8; o.push((acc >> n) as u8) } }
    if enc(al, bits, pad, &o) == s { Some(o) } else { None }
}
fn fdec(s: &[u8]) -> Option<Vec<u8>> { // WHATWG forgiving-base64 decode
    let mut d: Vec<u8> = s.iter().copied().filter(|c| !matches!(c, 9 | 10 | 12 | 13 | 32)).collect();
    if d.len() % 4 == 0 { for _ in 0..2 { if d.last() == Some(&b'=') { d.pop(); } } }
    if d.len() % 4 == 1 { return None }
    let (mut acc, mut n, mut o) = (0u32, 0, vec![]);
    for c in &d { let v = B64S.iter().position(|x| x == c)? as u32; acc = (acc << 6 | v) & 0xffff; n += 6; if n >= 8 { n -= 8; o.push((acc >> n) as u8) } }
    Some(o)
}
fn hexv(c: u8) -> Option<u8> { (c as char).to_digit(16).map(|x| x as u8) }
fn hdec(s: &[u8]) -> Option<Vec<u8>> { if s.len() % 2 != 0 { return None } s.chunks(2).map(|p| Some(hexv(p[0])? << 4 | hexv(p[1])?)).collect() }
fn henc(s: &[u8], up: bool) -> Vec<u8> { s.iter().flat_map(|b| if up { format!("{b:02X}") } else { format!("{b:02x}") }.into_bytes()).collect() }
fn uparse(s: &[u8], forms: &[usize]) -> Option<Vec<u8>> {
    if !forms.contains(&s.len()) { return None }
    let b = match s.len() { 32 => return hdec(s), 36 => s, 38 => { if s[0] != b'{' || s[37] != b'}' { return None } &s[1..37] }, 45 => s.strip_prefix(b"urn:uuid:")?, _ => return None };
    if [8, 13, 18, 23].iter().any(|&i| b[i] != b'-') { return None }
    hdec(&b.iter().enumerate().filter(|(i, _)| ![8, 13, 18, 23].contains(i)).map(|x| *x.1).collect::<Vec<_>>())
}
fn ufmt(s: &[u8], hy: bool, up: bool) -> Vec<u8> {
    let h = henc(s, up); if !hy { return h }
    [&h[0..8], b"-", &h[8..12], b"-", &h[12..16], b"-", &h[16..20], b"-", &h[20..32]].concat()
}

// ------------------------------------------------------------------ entries
type Ores = Option<Vec<u8>>;
#[derive(Clone, Copy)]
enum F {
    SD(fn(&[u8], &mut [u8], &mut Ret)), SDU(unsafe fn(&[u8], &mut [u8], &mut Ret)), D(fn(&mut [u8], &mut Ret)), DU(unsafe fn(&mut [u8], &mut Ret)),
    S(fn(&[u8], &mut Ret)), SU(unsafe fn(&[u8], &mut Ret)), N(fn(usize, &mut Ret)),
    P16(fn(&[u8], &mut [u8; 16], &mut Ret)), F32(fn(&[u8; 16], &mut [u8; 32], &mut Ret)), F36(fn(&[u8; 16], &mut [u8; 36], &mut Ret)),
    W32(fn(&[u32], &mut Ret)), I32(fn(&mut [u32], &mut Ret)), I16(fn(&mut [u16], &mut Ret)), C32(fn(&[u32], &mut [u32], &mut Ret)), C16(fn(&[u16], &mut [u16], &mut Ret)),
    Ap(unsafe fn(&[u8], *mut u8, usize, usize, &mut Ret)), Fm(fn(&[u8]) -> String),
}
#[derive(Clone, Copy, PartialEq)]
enum K { Enc, EncRaw, Dec, DecF, DecRaw, Inp, InpF, Chk, Dlen, Elen, Edlen, HDlen, Parse, Fmt, Ascii, FromAscii, Utf32, Swap, SwapI, Alloc, Append, Disp }
struct E { name: &'static str, f: F, k: K, o: Box<dyn Fn(&[u8]) -> Ores>, gen: u8, unit: usize }
// gen: input family: 0 random bytes, 6 base64 std, 7 base64 url, 5 base32, 4 base32hex, 1 hex, 2 uuid, 3 ascii, 8 utf32, 9 forgiving
macro_rules! codec { ($v:ident, $m:ident, $al:expr, $bits:expr, $pad:expr, $g:expr, [$($n:ident)*]) => { codec!(@ $v, $m, $al, $bits, $pad, $g, $($n)*) };
(@ $v:ident, $m:ident, $al:expr, $bits:expr, $pad:expr, $g:expr, $enc:ident $encs:ident $dec:ident $inp:ident $chk:ident $dl:ident $el:ident $ed:ident
    $ebb:ident $ebs:ident $evc:ident $est:ident $eav:ident $eas:ident $dbb:ident $dvc:ident $dav:ident) => {
    let e = || -> Box<dyn Fn(&[u8]) -> Ores> { Box::new(|s| Some(enc($al, $bits, $pad, s))) };
    let d = || -> Box<dyn Fn(&[u8]) -> Ores> { Box::new(|s| dec($al, $bits, $pad, s)) };
    use hx::$m::*;
    for (n, f) in [(stringify!($enc), $enc as fn(&[u8], &mut [u8], &mut Ret)), (stringify!($encs), $encs)] { $v.push(E { name: n, f: F::SD(f), k: K::Enc, o: e(), gen: 0, unit: 1 }); }
    $v.push(E { name: stringify!($dec), f: F::SD($dec), k: K::Dec, o: d(), gen: $g, unit: 1 });
    $v.push(E { name: stringify!($inp), f: F::D($inp), k: K::Inp, o: d(), gen: $g, unit: 1 });
    $v.push(E { name: stringify!($chk), f: F::S($chk), k: K::Chk, o: d(), gen: $g, unit: 1 });
    $v.push(E { name: stringify!($dl), f: F::S($dl), k: K::Dlen, o: d(), gen: $g, unit: 1 });
    $v.push(E { name: stringify!($el), f: F::N($el), k: K::Elen, o: e(), gen: ($bits as u8) << 1 | $pad as u8, unit: 1 });
    $v.push(E { name: stringify!($ed), f: F::N($ed), k: K::Edlen, o: d(), gen: ($bits as u8) << 1 | $pad as u8, unit: 1 });
    for (n, f) in [(stringify!($ebb), $ebb as fn(&[u8], &mut Ret)), (stringify!($ebs), $ebs), (stringify!($evc), $evc), (stringify!($est), $est)] { $v.push(E { name: n, f: F::S(f), k: K::Alloc, o: e(), gen: 0, unit: 1 }); }
    for (n, f) in [(stringify!($dbb), $dbb as fn(&[u8], &mut Ret)), (stringify!($dvc), $dvc)] { $v.push(E { name: n, f: F::S(f), k: K::Alloc, o: d(), gen: $g, unit: 1 }); }
    for (n, f) in [(stringify!($eav), $eav as unsafe fn(&[u8], *mut u8, usize, usize, &mut Ret)), (stringify!($eas), $eas)] { $v.push(E { name: n, f: F::Ap(f), k: K::Append, o: e(), gen: 0, unit: 1 }); }
    $v.push(E { name: stringify!($dav), f: F::Ap($dav), k: K::Append, o: d(), gen: $g, unit: 1 });
} }
macro_rules! hexc { ($v:ident, $up:expr, [$enc:ident $encs:ident $encr:ident $ebb:ident $ebs:ident $evc:ident $est:ident $eav:ident $eas:ident]) => {
    let e = || -> Box<dyn Fn(&[u8]) -> Ores> { Box::new(|s| Some(henc(s, $up))) };
    use hx::hex::*;
    for (n, f) in [(stringify!($enc), $enc as fn(&[u8], &mut [u8], &mut Ret)), (stringify!($encs), $encs)] { $v.push(E { name: n, f: F::SD(f), k: K::Enc, o: e(), gen: 0, unit: 1 }); }
    $v.push(E { name: stringify!($encr), f: F::SDU($encr), k: K::EncRaw, o: e(), gen: 0, unit: 1 });
    for (n, f) in [(stringify!($ebb), $ebb as fn(&[u8], &mut Ret)), (stringify!($ebs), $ebs), (stringify!($evc), $evc), (stringify!($est), $est)] { $v.push(E { name: n, f: F::S(f), k: K::Alloc, o: e(), gen: 0, unit: 1 }); }
    for (n, f) in [(stringify!($eav), $eav as unsafe fn(&[u8], *mut u8, usize, usize, &mut Ret)), (stringify!($eas), $eas)] { $v.push(E { name: n, f: F::Ap(f), k: K::Append, o: e(), gen: 0, unit: 1 }); }
} }
fn entries() -> Vec<E> {
    let mut v: Vec<E> = vec![];
    codec!(v, b64, B64S, 6, true, 6, [b64s_enc b64s_encs b64s_dec b64s_inp b64s_chk b64s_dlen b64s_elen b64s_edlen b64s_ebb b64s_ebs b64s_evc b64s_est b64s_eav b64s_eas b64s_dbb b64s_dvc b64s_dav]);
    codec!(v, b64, B64U, 6, true, 7, [b64u_enc b64u_encs b64u_dec b64u_inp b64u_chk b64u_dlen b64u_elen b64u_edlen b64u_ebb b64u_ebs b64u_evc b64u_est b64u_eav b64u_eas b64u_dbb b64u_dvc b64u_dav]);
    codec!(v, b64, B64S, 6, false, 6, [b64sn_enc b64sn_encs b64sn_dec b64sn_inp b64sn_chk b64sn_dlen b64sn_elen b64sn_edlen b64sn_ebb b64sn_ebs b64sn_evc b64sn_est b64sn_eav b64sn_eas b64sn_dbb b64sn_dvc b64sn_dav]);
    codec!(v, b64, B64U, 6, false, 7, [b64un_enc b64un_encs b64un_dec b64un_inp b64un_chk b64un_dlen b64un_elen b64un_edlen b64un_ebb b64un_ebs b64un_evc b64un_est b64un_eav b64un_eas b64un_dbb b64un_dvc b64un_dav]);
    codec!(v, b32, B32S, 5, true, 5, [b32s_enc b32s_encs b32s_dec b32s_inp b32s_chk b32s_dlen b32s_elen b32s_edlen b32s_ebb b32s_ebs b32s_evc b32s_est b32s_eav b32s_eas b32s_dbb b32s_dvc b32s_dav]);
    codec!(v, b32, B32H, 5, true, 4, [b32h_enc b32h_encs b32h_dec b32h_inp b32h_chk b32h_dlen b32h_elen b32h_edlen b32h_ebb b32h_ebs b32h_evc b32h_est b32h_eav b32h_eas b32h_dbb b32h_dvc b32h_dav]);
    codec!(v, b32, B32S, 5, false, 5, [b32sn_enc b32sn_encs b32sn_dec b32sn_inp b32sn_chk b32sn_dlen b32sn_elen b32sn_edlen b32sn_ebb b32sn_ebs b32sn_evc b32sn_est b32sn_eav b32sn_eas b32sn_dbb b32sn_dvc b32sn_dav]);
    codec!(v, b32, B32H, 5, false, 4, [b32hn_enc b32hn_encs b32hn_dec b32hn_inp b32hn_chk b32hn_dlen b32hn_elen b32hn_edlen b32hn_ebb b32hn_ebs b32hn_evc b32hn_est b32hn_eav b32hn_eas b32hn_dbb b32hn_dvc b32hn_dav]);
    hexc!(v, false, [hexl_enc hexl_encs hexl_encr hexl_ebb hexl_ebs hexl_evc hexl_est hexl_eav hexl_eas]);
    hexc!(v, true, [hexu_enc hexu_encs hexu_encr hexu_ebb hexu_ebs hexu_evc hexu_est hexu_eav hexu_eas]);
    { use hx::b64::*;
    let d = || -> Box<dyn Fn(&[u8]) -> Ores> { Box::new(fdec) };
    v.push(E { name: "b64f_dec", f: F::SD(b64f_dec), k: K::DecF, o: d(), gen: 9, unit: 1 });
    v.push(E { name: "b64f_inp", f: F::D(b64f_inp), k: K::InpF, o: d(), gen: 9, unit: 1 });
    v.push(E { name: "b64f_dvc", f: F::S(b64f_dvc), k: K::Alloc, o: d(), gen: 9, unit: 1 }); }
    { use hx::hex::*;
    let d = || -> Box<dyn Fn(&[u8]) -> Ores> { Box::new(hdec) };
    let c = || -> Box<dyn Fn(&[u8]) -> Ores> { Box::new(|s| if s.iter().all(|&c| hexv(c).is_some()) { Some(vec![]) } else { None }) };
    v.push(E { name: "hex_dec", f: F::SD(hex_dec), k: K::Dec, o: d(), gen: 1, unit: 1 });
    v.push(E { name: "hex_decr", f: F::SDU(hex_decr), k: K::DecRaw, o: d(), gen: 1, unit: 1 });
    v.push(E { name: "hex_inp", f: F::D(hex_inp), k: K::Inp, o: d(), gen: 1, unit: 1 });
    v.push(E { name: "hex_inpr", f: F::DU(hex_inpr), k: K::Inp, o: d(), gen: 1, unit: 1 });
    v.push(E { name: "hex_chk", f: F::S(hex_chk), k: K::Chk, o: c(), gen: 1, unit: 1 });
    v.push(E { name: "hex_chkr", f: F::SU(hex_chkr), k: K::Chk, o: c(), gen: 1, unit: 1 });
    v.push(E { name: "hex_dlen", f: F::N(hex_dlen), k: K::HDlen, o: d(), gen: 0, unit: 1 });
    v.push(E { name: "hex_elen", f: F::N(hex_elen), k: K::Elen, o: d(), gen: 8, unit: 1 });
    for (n, f) in [("hex_dbb", hex_dbb as fn(&[u8], &mut Ret)), ("hex_dvc", hex_dvc)] { v.push(E { name: n, f: F::S(f), k: K::Alloc, o: d(), gen: 1, unit: 1 }); }
    v.push(E { name: "hex_dav", f: F::Ap(hex_dav), k: K::Append, o: d(), gen: 1, unit: 1 }); }
    { use hx::uuid::*;
    for (n, f, fo) in [("uuid_parse", uuid_parse as fn(&[u8], &mut [u8; 16], &mut Ret), &[32usize, 36, 38, 45] as &'static [usize]), ("uuid_psimple", uuid_psimple, &[32]), ("uuid_phyph", uuid_phyph, &[36]),
        ("uuidx_parse", uuidx_parse, &[32, 36, 38, 45]), ("uuidx_psimple", uuidx_psimple, &[32]), ("uuidx_phyph", uuidx_phyph, &[36])] {
        v.push(E { name: n, f: F::P16(f), k: K::Parse, o: Box::new(move |s| uparse(s, fo)), gen: 2, unit: 1 }); }
    for (n, f, up) in [("uuid_fsimple_l", uuid_fsimple_l as fn(&[u8; 16], &mut [u8; 32], &mut Ret), false), ("uuid_fsimple_u", uuid_fsimple_u, true)] { v.push(E { name: n, f: F::F32(f), k: K::Fmt, o: Box::new(move |s| Some(ufmt(s, false, up))), gen: 0, unit: 16 }); }
    for (n, f, up) in [("uuid_fhyph_l", uuid_fhyph_l as fn(&[u8; 16], &mut [u8; 36], &mut Ret), false), ("uuid_fhyph_u", uuid_fhyph_u, true)] { v.push(E { name: n, f: F::F36(f), k: K::Fmt, o: Box::new(move |s| Some(ufmt(s, true, up))), gen: 0, unit: 16 }); }
    use uuid_simd::UuidExt; fn u(s: &[u8]) -> uuid::Uuid { uuid::Uuid::from_slice(s).unwrap() }
    for (n, f, hy, up) in [("uuid_ds", (|s| format!("{}", UuidExt::format_simple(&u(s)))) as fn(&[u8]) -> String, false, false), ("uuid_dsl", |s| format!("{:x}", UuidExt::format_simple(&u(s))), false, false), ("uuid_dsu", |s| format!("{:X}", UuidExt::format_simple(&u(s))), false, true),
        ("uuid_dh", |s| format!("{}", UuidExt::format_hyphenated(&u(s))), true, false), ("uuid_dhl", |s| format!("{:x}", UuidExt::format_hyphenated(&u(s))), true, false), ("uuid_dhu", |s| format!("{:X}", UuidExt::format_hyphenated(&u(s))), true, true)] {
        v.push(E { name: n, f: F::Fm(f), k: K::Disp, o: Box::new(move |s| Some(ufmt(s, hy, up))), gen: 0, unit: 16 }); } }
    { use hx::uni::*;
    let a = || -> Box<dyn Fn(&[u8]) -> Ores> { Box::new(|s| if s.iter().all(|c| *c < 128) { Some(vec![]) } else { None }) };
    v.push(E { name: "uni_ascii", f: F::S(uni_ascii), k: K::Ascii, o: a(), gen: 3, unit: 1 });
    v.push(E { name: "uni_from_ascii", f: F::S(uni_from_ascii), k: K::FromAscii, o: a(), gen: 3, unit: 1 });
    v.push(E { name: "uni_utf32", f: F::W32(uni_utf32), k: K::Utf32, o: Box::new(|s| if s.chunks(4).all(|c| char::from_u32(u32::from_le_bytes(c.try_into().unwrap())).is_some()) { Some(vec![]) } else { None }), gen: 8, unit: 4 });
    let sw = |u: usize| -> Box<dyn Fn(&[u8]) -> Ores> { Box::new(move |s| Some(s.chunks(u).flat_map(|c| c.iter().rev().copied()).collect())) };
    v.push(E { name: "uni_swap32i", f: F::I32(uni_swap32i), k: K::SwapI, o: sw(4), gen: 0, unit: 4 }); v.push(E { name: "uni_swap16i", f: F::I16(uni_swap16i), k: K::SwapI, o: sw(2), gen: 0, unit: 2 });
    v.push(E { name: "uni_swap32", f: F::C32(uni_swap32), k: K::Swap, o: sw(4), gen: 0, unit: 4 }); v.push(E { name: "uni_swap16", f: F::C16(uni_swap16), k: K::Swap, o: sw(2), gen: 0, unit: 2 }); }
    for (n, f, g) in [("c20_b64s", c20_b64s as fn(&[u8], &mut Ret), 6), ("c20_b64u", c20_b64u, 7), ("c20_b64sn", c20_b64sn, 6), ("c20_b64un", c20_b64un, 7), ("c20_b64f", c20_b64f, 9),
        ("c20_b32s", c20_b32s, 5), ("c20_b32h", c20_b32h, 4), ("c20_b32sn", c20_b32sn, 5), ("c20_b32hn", c20_b32hn, 4), ("c20_hex", c20_hex, 1), ("c20_uuid", c20_uuid, 2)] {
        v.push(E { name: n, f: F::S(f), k: K::Chk, o: Box::new(|_| Some(vec![])), gen: g, unit: 1 }); }
    v.push(E { name: "nat_exec", f: F::SD(hx::nat::nat_exec), k: K::Enc, o: Box::new(|s| Some(s.iter().map(|b| b.wrapping_add(0x5a)).collect())), gen: 0, unit: 1 });
    v
}

// ------------------------------------------------------------------ one call
struct Ctx { src: Arena, dst: Arena }
fn show(r: &Ores) -> String { match r { None => "Err".into(), Some(v) => format!("Ok({})", hexs(&v[..v.len().min(200)])) } }
/// run one case; Some(description) on a mismatch. d: destination length (elements), or the argument of length functions
fn run(c: &Ctx, e: &E, data: &[u8], d: usize, end: bool, pat: u8, isa: &'static str) -> Option<String> {
    unsafe { CUR = (std::mem::transmute::<&str, &'static str>(e.name), d, data.as_ptr(), data.len(), isa); }
    let want = if matches!(e.f, F::N(_)) { None } else { (e.o)(data) };
    let n = data.len();
    #[cfg(target_arch = "wasm32")] if e.k == K::Elen && d > usize::MAX / 2 || e.k == K::Swap && d * e.unit < n { return None }   // documented assertion; a panic cannot be caught there
    let (sp, dp);
    unsafe {
        sp = c.src.place(n, end); std::ptr::copy_nonoverlapping(data.as_ptr(), sp, n); c.src.canary(sp, n, 0x5a, false);
        let db = d.saturating_mul(e.unit).min(c.dst.cap); dp = c.dst.place(db, end);
        if matches!(e.k, K::Enc | K::EncRaw | K::Dec | K::DecF | K::DecRaw | K::Swap | K::Parse | K::Fmt) { for i in 0..db { *dp.add(i) = pat } c.dst.canary(dp, db, 0x5a, false); }
    }
    let mut r = Ret { ok: 99, ptr: std::ptr::null(), len: 0, cap: 0 };
    let rr = &mut r;
    let mut text = String::new();
    let prefix: Vec<u8> = (0..d % 23).map(|i| b'a' + i as u8).collect();
    let res = catch_unwind(AssertUnwindSafe(|| unsafe {
        let s: &[u8] = std::slice::from_raw_parts(sp, n);
        match e.f {
            F::SD(f) => f(s, std::slice::from_raw_parts_mut(dp, d), rr), F::SDU(f) => f(s, std::slice::from_raw_parts_mut(dp, d), rr),
            F::D(f) => f(std::slice::from_raw_parts_mut(sp, n), rr), F::DU(f) => f(std::slice::from_raw_parts_mut(sp, n), rr),
            F::S(f) => f(s, rr), F::SU(f) => f(s, rr), F::N(f) => f(d, rr),
            F::P16(f) => f(s, &mut *dp.cast(), rr), F::F32(f) => f(&*sp.cast(), &mut *dp.cast(), rr), F::F36(f) => f(&*sp.cast(), &mut *dp.cast(), rr),
            F::W32(f) => f(std::slice::from_raw_parts(sp.cast(), n / 4), rr), F::I32(f) => f(std::slice::from_raw_parts_mut(sp.cast(), n / 4), rr), F::I16(f) => f(std::slice::from_raw_parts_mut(sp.cast(), n / 2), rr),
            F::C32(f) => f(std::slice::from_raw_parts(sp.cast(), n / 4), std::slice::from_raw_parts_mut(dp.cast(), d), rr), F::C16(f) => f(std::slice::from_raw_parts(sp.cast(), n / 2), std::slice::from_raw_parts_mut(dp.cast(), d), rr),
            F::Ap(f) => { let mut v = Vec::with_capacity(prefix.len() + d / 23 % 3 * 40); v.extend_from_slice(&prefix); let mut v = std::mem::ManuallyDrop::new(v); f(s, v.as_mut_ptr(), v.len(), v.capacity(), rr) }
            F::Fm(f) => { text = f(s); }
        }
    }));
    let get = |r: &Ret| -> Vec<u8> { if r.len == 0 { vec![] } else { unsafe { std::slice::from_raw_parts(r.ptr, r.len * if e.k == K::Swap { e.unit } else { 1 }).to_vec() } } };
    let dlen_ok = match (&want, e.k) { (Some(w), K::Enc | K::Dec) => d >= w.len(), (_, K::DecF) => d >= n, _ => true };
    if let Err(p) = res {
        let m = p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
        let okp = match e.k { K::Elen => d > usize::MAX / 2, K::Swap => d * e.unit < n, _ => false };
        return if okp { None } else { Some(format!("panicked: {m}")) };
    }
    let got: Ores = if r.ok == 1 { Some(vec![]) } else { None };
    unsafe { if !c.src.canary(sp, n, 0x5a, true) { return Some("bytes next to the input buffer were modified".into()) } }
    match e.k {
        K::Enc | K::EncRaw | K::Dec | K::DecRaw | K::DecF | K::Swap | K::Parse | K::Fmt => {
            let db = d * e.unit;
            if !c.dst.canary(dp, db, 0x5a, true) { return Some("bytes outside the destination were modified".into()) }
            if unsafe { std::slice::from_raw_parts(sp, n) } != data { return Some("the source was modified".into()) }
            if e.k == K::Swap && d * e.unit < n { return Some("a destination shorter than the source was not refused".into()) }
            let want = if dlen_ok { want } else { None };
            let got = got.map(|_| get(&r));
            if got != want { return Some(format!("got {}, expected {}", show(&got), show(&want))) }
            if let Some(w) = &want {
                if !w.is_empty() && r.ptr != dp as *const u8 { return Some("the result does not start at the destination".into()) }
                if e.k != K::DecF { for i in w.len()..db { if unsafe { *dp.add(i) } != pat { return Some(format!("destination byte {i} beyond the result ({} bytes) was modified", w.len())) } } }
            }
            None
        }
        K::Inp | K::InpF | K::SwapI => {
            let got = if e.k == K::SwapI { Some(unsafe { std::slice::from_raw_parts(sp, n).to_vec() }) } else { got.map(|_| get(&r)) };
            if got != want { return Some(format!("got {}, expected {}", show(&got), show(&want))) }
            if let Some(w) = &want { if e.k == K::Inp {
                if !w.is_empty() && r.ptr != sp as *const u8 { return Some("the result does not start at the buffer".into()) }
                for i in w.len()..n { if unsafe { *sp.add(i) } != data[i] { return Some(format!("buffer byte {i} beyond the result ({} bytes) was modified", w.len())) } } } }
            None
        }
        K::Chk | K::Ascii | K::Utf32 | K::FromAscii => {
            if (r.ok == 1) != want.is_some() { return Some(format!("returned {}, expected {}", r.ok == 1, want.is_some())) }
            if e.k == K::FromAscii && r.ok == 1 && (r.len != n || r.ptr != sp as *const u8) { return Some("the returned text is not the input slice".into()) }
            None
        }
        K::Dlen => match want { Some(w) => if r.ok != 1 || r.len != w.len() { Some(format!("decoded length query: ok={} len={}, but decoding yields {} bytes", r.ok, r.len, w.len())) } else { None }, None => None },
        K::Elen => {
            if d > usize::MAX / 2 { return Some("no assertion for a length above usize::MAX/2".into()) }
            let (b, p) = ((e.gen >> 1) as u128, e.gen & 1 == 1); let dn = d as u128;
            let w = if p { let (gi, go) = if b == 6 { (3, 4) } else { (5, 8) }; dn.div_ceil(gi) * go } else { (dn * 8).div_ceil(b) };
            if w != r.len as u128 { Some(format!("encoded length of {d} is {}, expected {w}", r.len)) } else { None }
        }
        K::Edlen => {
            let (b, p) = ((e.gen >> 1) as u128, e.gen & 1 == 1); let dn = d as u128; let go = if b == 6 { 4 } else { 8 };
            if p && dn % go != 0 { return None }
            if dn % go * b % 8 >= b { return None }
            if (r.len as u128) < dn * b / 8 { Some(format!("estimate {} for length {d} is below {}", r.len, dn * b / 8)) } else { None }
        }
        K::HDlen => if (r.ok == 1) != (d % 2 == 0) || r.ok == 1 && r.len != d / 2 { Some(format!("hex decoded length of {d}: ok={} {}", r.ok, r.len)) } else { None },
        K::Alloc => {
            let g = got.map(|_| get(&r));
            if r.ok == 1 && r.cap > 0 { unsafe { drop(Vec::from_raw_parts(r.ptr as *mut u8, r.len, r.cap)) } }
            if g != want { Some(format!("got {}, expected {}", show(&g), show(&want))) } else { None }
        }
        K::Append => {
            let v = get(&r); let mut w = prefix.clone(); if let Some(x) = &want { w.extend_from_slice(x) }
            let res = if (r.ok == 1) != want.is_some() { Some(format!("append returned ok={}, expected {}", r.ok, want.is_some())) }
                else if r.cap < r.len { Some("capacity below length".into()) }
                else if v != w { Some(format!("vector is {} (len {}), expected {}", hexs(&v[..v.len().min(200)]), v.len(), hexs(&w[..w.len().min(200)]))) } else { None };
            if r.cap > 0 { unsafe { drop(Vec::from_raw_parts(r.ptr as *mut u8, r.len, r.cap)) } }
            res
        }
        K::Disp => if text.as_bytes() != want.as_deref().unwrap() { Some(format!("printed {text:?}, expected {:?}", String::from_utf8(want.unwrap()))) } else { None },
    }
}

// ------------------------------------------------------------------ round trips (C20)
use hx::c20::*;
fn c20_codec(v: &[u8], f: fn(&[u8]) -> bool, g: fn(&[u8]) -> bool, o: &dyn Fn(&[u8]) -> Ores) -> bool { f(v) && g(v) && o(v).map_or(true, |x| f(&x)) }
macro_rules! c20c { ($n:ident, $rt:ident, $tr:ident, $o:expr) => { fn $n(v: &[u8], r: &mut Ret) { r.ok = c20_codec(v, $rt, $tr, &$o) as u64 } } }
c20c!(c20_b64s, rt_b64s, tr_b64s, |s: &[u8]| dec(B64S, 6, true, s)); c20c!(c20_b64u, rt_b64u, tr_b64u, |s: &[u8]| dec(B64U, 6, true, s));
c20c!(c20_b64sn, rt_b64sn, tr_b64sn, |s: &[u8]| dec(B64S, 6, false, s)); c20c!(c20_b64un, rt_b64un, tr_b64un, |s: &[u8]| dec(B64U, 6, false, s));
c20c!(c20_b32s, rt_b32s, tr_b32s, |s: &[u8]| dec(B32S, 5, true, s)); c20c!(c20_b32h, rt_b32h, tr_b32h, |s: &[u8]| dec(B32H, 5, true, s));
c20c!(c20_b32sn, rt_b32sn, tr_b32sn, |s: &[u8]| dec(B32S, 5, false, s)); c20c!(c20_b32hn, rt_b32hn, tr_b32hn, |s: &[u8]| dec(B32H, 5, false, s));
c20c!(c20_b64f, rt_b64f, yes, |s: &[u8]| fdec(s)); c20c!(c20_hex, rt_hex, tr_hex, |s: &[u8]| hdec(s));
c20c!(c20_uuid, rt_uuid, yes, |s: &[u8]| uparse(s, &[32, 36, 38, 45]));
fn yes(_: &[u8]) -> bool { true }

// ------------------------------------------------------------------ generation
struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 { self.0 ^= self.0 << 13; self.0 ^= self.0 >> 7; self.0 ^= self.0 << 17; self.0.wrapping_mul(0x2545F4914F6CDD1D) >> 11 }
    fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    fn bytes(&mut self, n: usize) -> Vec<u8> { let m = self.below(6); (0..n).map(|_| match m { 0 => 0, 1 => 0xff, 2 => [0, 1, 0x7f, 0x80, 0xff, 0xfe][self.below(6)], _ => self.next() as u8 }).collect() }
}
/// an element of the input family of size about n (exactly n where the family allows)
fn valid(e: &E, g: &mut Rng, n: usize) -> Vec<u8> {
    let pick = |g: &mut Rng, al: &[u8], n: usize| -> Vec<u8> { (0..n).map(|_| al[g.below(al.len())]).collect() };
    let codec = |g: &mut Rng, al: &[u8], bits: u32, pad: bool, go: usize| { let k = n * bits as usize / 8; let s = g.bytes(k); let mut v = enc(al, bits, false, &s); if pad { while v.len() % go != 0 { v.push(b'=') } } v };
    let rt = e.name.starts_with("c20_");
    match e.gen {
        _ if rt && g.below(2) == 0 => g.bytes(if e.gen == 2 { 16 } else { n }),
        _ if matches!(e.k, K::Elen | K::Edlen | K::HDlen) => vec![],
        6 | 7 | 9 => { let pad = if rt { !e.name.ends_with('n') } else { (e.o)(b"QQ==").is_some() }; let al = if e.gen == 7 { B64U } else { B64S }; let pad = pad && (e.gen != 9 || g.below(2) == 0); let mut v = codec(g, al, 6, pad, 4);
            if e.gen == 9 { let m = g.below(4); if m == 0 && v.len() > 1 { let k = v.len() - 1; if v[k] != b'=' { v[k] = B64S[g.below(64)] } }
                let ws = [0, 1, 3, v.len() / 8, v.len()][g.below(5)]; let run = g.below(4) == 0; let mut at = 0;
                for _ in 0..g.below(ws + 1) { if !run || at == 0 { at = g.below(v.len() + 1) } v.insert(at, [9, 10, 12, 13, 32][g.below(5)]) } }
            v }
        5 | 4 => { let pad = !(e.name.contains("b32sn") || e.name.contains("b32hn")); codec(g, if e.gen == 5 { B32S } else { B32H }, 5, pad, 8) }
        1 => pick(g, b"0123456789abcdefABCDEF", n),
        2 => { let b = g.bytes(16); let (hy, up) = (g.below(4) > 0, g.below(2) == 0); let mut v = ufmt(&b, hy, up); for c in v.iter_mut() { if g.below(3) == 0 { *c = c.to_ascii_lowercase() } }
            if hy { match g.below(3) { 0 => { v.insert(0, b'{'); v.push(b'}') } 1 => { v = [b"urn:uuid:", &v[..]].concat() } _ => {} } } v }
        3 => (0..n).map(|_| g.next() as u8 & 0x7f).collect(),
        8 => (0..n / 4).flat_map(|_| { let m = g.below(4); let c = match m { 0 => [0, 0x7f, 0xd7ff, 0xe000, 0x10ffff, 0xffff, 0x10000][g.below(7)], _ => { let c = g.next() as u32 % 0x110000; if (0xd800..0xe000).contains(&c) { 0x41 } else { c } } }; c.to_le_bytes() }).collect(),
        _ => g.bytes(n / e.unit * e.unit),
    }
}
fn mutate(e: &E, g: &mut Rng, v: &mut Vec<u8>) {
    if e.gen == 0 || matches!(e.f, F::N(_)) { return }
    const SP: &[u8] = b"=\0 \n\t-_+/:@[`{gGzZ09\xff\x80\x7fuU}AQ\x0b\x0c\r";
    for _ in 0..[0, 0, 1, 1, 1, 2, 3][g.below(7)] {
        let n = v.len();
        match g.below(8) {
            0 if n > 0 && e.unit == 1 => { v.truncate(n - 1 - g.below(n.min(6))) }
            1 if e.unit == 1 => { let c = SP[g.below(SP.len())]; v.push(c) }
            2 if n > 0 => { let k = n - 1 - g.below(n.min(8)); v[k] = SP[g.below(SP.len())] }
            3 if n > 0 => { let k = n - 1 - g.below(n.min(8)); v[k] = g.next() as u8 }
            4 if n > 0 => { let k = g.below(n); v[k] ^= 1 << g.below(8) }
            5 if n > 0 => { let k = g.below(n); v[k] = g.next() as u8 }
            6 if n > 1 => { let (a, b) = (g.below(n), g.below(n)); v.swap(a, b) }
            _ if n > 0 => { let k = g.below(n); v[k] = SP[g.below(SP.len())] }
            _ => {}
        }
    }
    if e.unit == 4 { let n = v.len() / 4; if n > 0 && g.below(2) == 0 { let k = g.below(n) * 4; let c: u32 = [0xd800, 0xdbff, 0xdc00, 0xdfff, 0x110000, 0x80000000, 0xffffffff, 0x10ffff, 0xd7ff, 0xe000, 0x7fffffff, 0x11d800][g.below(12)]; v[k..k + 4].copy_from_slice(&c.to_le_bytes()) } }
}
fn dst_for(e: &E, g: &mut Rng, data: &[u8]) -> usize {
    match e.k {
        K::EncRaw | K::DecRaw | K::Enc | K::Dec => { let w = (e.o)(data).map_or(data.len(), |w| w.len()); let raw = matches!(e.k, K::EncRaw | K::DecRaw); match g.below(6) { 0 if w > 0 && !raw => w - 1, 1 => w + 1 + g.below(70), 2 if !raw => g.below(w + 1), _ => w } }
        K::DecF => match g.below(5) { 0 => data.len() + g.below(40), 1 if data.len() > 0 => data.len() - 1, _ => data.len() },
        K::Swap => { let n = data.len() / e.unit; match g.below(5) { 0 if n > 0 => n - 1, 1 => n + g.below(9), _ => n } }
        K::Parse => 16, K::Fmt => if matches!(e.f, F::F32(_)) { 2 } else { 36 },
        K::Elen | K::Edlen | K::HDlen => match g.below(4) { 0 => g.below(200), 1 => usize::MAX - g.below(40), 2 => (usize::MAX / 2).wrapping_add(g.below(5)).wrapping_sub(2), _ => ((g.next() as u128) << 64 >> g.below(64)) as u64 as usize ^ g.next() as usize >> g.below(60) },
        K::Append => g.below(69), _ => 0,
    }
}
fn size(e: &E, g: &mut Rng) -> usize { if e.unit == 16 { return 16 } let u = if e.unit > 4 { 1 } else { e.unit }; u * match g.below(20) { 0 => 0, 1..=8 => g.below(48), 9..=13 => g.below(100), 14..=17 => g.below(300), 18 => g.below(1200), _ => if e.k == K::Append || e.gen == 9 { g.below(600) } else { g.below(5000) } } }
fn report(e: &E, isa: &str, d: usize, data: &[u8], m: &str) { println!("MISMATCH\t{}\t{}\t{}\t{}\t{}", e.name, isa, d, if data.is_empty() { "-".into() } else { hexs(data) }, m.replace(['\t', '\n'], " ")); }
fn dfix(e: &E, d: usize) -> usize { if e.k == K::Fmt { if matches!(e.f, F::F32(_)) { 2 } else { 36 } } else { d } }

// ------------------------------------------------------------------ instruction-set level: mask the cached CPU feature bits of std_detect
#[no_mangle] #[inline(never)] pub extern "C" fn hx_anchor() { std::hint::black_box(0); }
#[cfg(target_arch = "wasm32")] fn set_isa(level: &str) {}
#[cfg(not(target_arch = "wasm32"))] fn set_isa(level: &str) {
    let have = || [std::is_x86_feature_detected!("ssse3"), std::is_x86_feature_detected!("sse4.1"), std::is_x86_feature_detected!("avx2"), std::is_x86_feature_detected!("avx")];
    let h = have();
    let k = match level { "avx2" | "avx" => 3, "sse4.1" => 2, "ssse3" => 1, _ => 0 }; let avx = level == "avx";
    if k >= 1 && !h[k - 1] { println!("NOCPU {level}"); quit(0) }
    if k == 3 && !avx { return }
    let off: i64 = std::env::var("CACHE_OFF").expect("CACHE_OFF").parse().unwrap();
    let n: usize = std::env::var("CACHE_LEN").unwrap().parse().unwrap();
    let p = (hx_anchor as *const () as i64 + off) as *mut u64;
    for w in 0..n / 8 { for b in 0..63 { unsafe {
        let q = p.add(w); let old = q.read_volatile();
        if old >> b & 1 == 0 { continue }
        let before = have(); q.write_volatile(old & !(1 << b)); let after = have();
        let lost = (0..4).find(|&i| before[i] && !after[i]);
        if avx { if !(lost == Some(2) && after[3]) { q.write_volatile(old) } continue }
        match lost { Some(i) if i >= k => {} _ => q.write_volatile(old) }
    } } }
    let a = have();
    for i in 0..3 { if a[i] != (i < k && !(avx && i == 2)) && h[i] { println!("NOISA {level} {a:?}"); quit(0) } }
}

// ------------------------------------------------------------------ instruction tracing: which instructions does an operation really execute when a level is reported?
/// least level needed by the instruction at p: 1 SSSE3, 2 SSE4.1, 3 AVX (VEX), 4 AVX2 (as far as the encoding tells), 5 AVX-512
unsafe fn level_of(mut p: *const u8) -> u8 {
    let mut n = 0;
    while n < 14 && matches!(*p, 0x66 | 0xf2 | 0xf3 | 0x2e | 0x36 | 0x3e | 0x26 | 0x64 | 0x65 | 0x67 | 0xf0) { p = p.add(1); n += 1 }
    if *p == 0x62 { return 5 }
    let vex = match *p { 0xc5 => Some((1u8, *p.add(1), *p.add(2))), 0xc4 => Some((*p.add(1) & 31, *p.add(2), *p.add(3))), _ => None };
    if let Some((map, b, op)) = vex {
        let (l, pp) = (b & 4 != 0, b & 3);
        let two = match map {
            1 => l && (matches!(op, 0x70..=0x73) || pp == 1 && matches!(op, 0x60..=0x6d | 0x74..=0x76 | 0xd1..=0xd5 | 0xd7..=0xdf | 0xe0..=0xe5 | 0xe8..=0xef | 0xf1..=0xf6 | 0xf8..=0xfe)),
            2 => l && matches!(op, 0x00..=0x0b | 0x1c..=0x1e | 0x20..=0x25 | 0x28 | 0x29 | 0x2b | 0x30..=0x35 | 0x37..=0x40) || matches!(op, 0x16 | 0x36 | 0x45..=0x47 | 0x58..=0x5a | 0x78 | 0x79 | 0x8c | 0x8e | 0x90..=0x93),
            3 => l && matches!(op, 0x0e | 0x0f | 0x42 | 0x4c) || matches!(op, 0x00..=0x02 | 0x38 | 0x39 | 0x46),
            _ => false };
        return if two { 4 } else { 3 }
    }
    if *p & 0xf0 == 0x40 { p = p.add(1) }
    if *p != 0x0f { return 0 }
    match (*p.add(1), *p.add(2)) {
        (0x38, 0x00..=0x0b | 0x1c..=0x1e) => 1, (0x38, 0x10 | 0x14 | 0x15 | 0x17 | 0x20..=0x25 | 0x28..=0x2b | 0x30..=0x35 | 0x37..=0x41) => 2,
        (0x3a, 0x0f) => 1, (0x3a, 0x08..=0x0e | 0x14..=0x17 | 0x20..=0x22 | 0x40..=0x42 | 0x60..=0x63) => 2, _ => 0 }
}
#[cfg(target_arch = "wasm32")] fn trace(c: &Ctx, e: &E, data: &[u8], d: usize, isa: &'static str) -> Option<String> { None }
#[cfg(not(target_arch = "wasm32"))] extern "C" { fn fork() -> i32; fn ptrace(r: i64, pid: i32, a: usize, d: usize) -> i64; fn waitpid(p: i32, st: *mut i32, o: i32) -> i32; fn raise(s: i32) -> i32; fn kill(p: i32, s: i32) -> i32; static __executable_start: u8; static etext: u8; }
#[cfg(not(target_arch = "wasm32"))] fn trace(c: &Ctx, e: &E, data: &[u8], d: usize, isa: &'static str) -> Option<String> { unsafe {
    let have = match isa { "avx2" => return None, "avx" => 3, "sse4.1" => 2, "ssse3" => 1, _ => 0 };
    let (lo, hi) = (&__executable_start as *const u8 as usize, &etext as *const u8 as usize);
    let pid = fork();
    if pid == 0 { ptrace(0, 0, 0, 0); raise(19); run(c, e, data, d, false, 0, isa); _exit(0) }
    let mut st = 0; let mut seen = std::collections::HashMap::new(); let t0 = Instant::now(); let mut res = None;
    loop {
        if waitpid(pid, &mut st, 0) != pid { break }
        if st & 0xff != 0x7f { break }
        let sig = st >> 8 & 0xff;
        if sig != 5 && sig != 19 || t0.elapsed() > Duration::from_secs(20) { kill(pid, 9); waitpid(pid, &mut st, 0); break }
        let rip = ptrace(3, pid, 128, 0) as usize;      // PTRACE_PEEKUSER rip; the text is the same in both processes
        if rip >= lo && rip < hi {
            let l = *seen.entry(rip).or_insert_with(|| level_of(rip as *const u8));
            if l > have { let b = std::slice::from_raw_parts(rip as *const u8, 8);
                res = Some(format!("executes an {} instruction (bytes {}) although detection reports only {isa}", ["", "SSSE3", "SSE4", "AVX", "AVX2", "AVX-512"][l as usize], hexs(b)));
                kill(pid, 9); waitpid(pid, &mut st, 0); break }
        }
        ptrace(9, pid, 0, 0);
    }
    res
} }
fn main() { real_main(std::env::args().collect()) }
fn real_main(a: Vec<String>) {
    let isa: &'static str = Box::leak(a[2].clone().into_boxed_str());
    #[cfg(not(target_arch = "wasm32"))] std::panic::set_hook(Box::new(|_| {}));
    #[cfg(not(target_arch = "wasm32"))] unsafe {
        let st = Box::leak(vec![0u8; 1 << 20].into_boxed_slice()); let s = StackT { sp: st.as_mut_ptr(), flags: 0, size: 1 << 20 }; sigaltstack(&s, std::ptr::null_mut());
        #[repr(C)] struct Sa { h: usize, mask: [u64; 16], flags: i32, r: usize }
        extern "C" { fn sigaction(s: i32, a: *const Sa, o: *mut Sa) -> i32; }
        let sa = Sa { h: on_sig as *const () as usize, mask: [0; 16], flags: 0x08000000, r: 0 };
        for s in [11, 4, 6, 7, 8, 14] { sigaction(s, &sa, std::ptr::null_mut()); } let _ = signal;
    }
    set_isa(isa);
    let es = entries(); let c = Ctx { src: Arena::new(1 << 17), dst: Arena::new(1 << 18) };
    let find = |n: &str| es.iter().find(|e| e.name == n).unwrap_or_else(|| panic!("no entry {n}"));
    let mut bad = 0;
    match a[1].as_str() {
        "exact" => { let e = find(&a[3]); let d = dfix(e, a[4].parse().unwrap()); let data = unhex(&a[5]); unsafe { alarm(20); }
            for end in [true, false] { for pat in [0u8, 0xff] { if let Some(m) = run(&c, e, &data, d, end, pat, isa) { report(e, isa, d, &data, &m); quit(1) } } } println!("HOLDS"); }
        "tracex" => { let e = find(&a[3]); let d = dfix(e, a[4].parse().unwrap()); let data = unhex(&a[5]); match trace(&c, e, &data, d, isa) { Some(m) => { report(e, isa, d, &data, &m); quit(1) } None => println!("HOLDS") } }
        "trace" => { // entry seed
            let e = find(&a[3]); let mut g = Rng(a[4].parse::<u64>().unwrap() | 1);
            'o: for it in 0..14 { let u = e.unit.min(4); let n = [200, 64, 32, 16, 300, 48, 96, 20, 38, 0, 100, 31, 24, 8][it] * u; let mut v = valid(e, &mut g, n); if it > 10 { mutate(e, &mut g, &mut v) }
                let mut d = dst_for(e, &mut g, &v); for _ in 0..20 { if d >= v.len() { break } d = dst_for(e, &mut g, &v) } let d = dfix(e, d);
                if let Some(m) = trace(&c, e, &v, d, isa) { report(e, isa, d, &v, &m); bad = 1; break 'o } } }
        "case" => { // entry n d seed count idx:val,...   (n, d = - : free)
            let e = find(&a[3]); let mut g = Rng(a[6].parse::<u64>().unwrap() | 1); let count: usize = a[7].parse().unwrap();
            let fixed: Vec<(usize, u8)> = a[8].split(',').filter(|x| !x.is_empty()).map(|x| { let (i, v) = x.split_once(':').unwrap(); (i.parse().unwrap(), v.parse().unwrap()) }).collect();
            let t0 = Instant::now();
            for it in 0..count { if t0.elapsed() > Duration::from_secs(4) { break } unsafe { alarm(20); }
                let n = a[4].parse().unwrap_or_else(|_| size(e, &mut g)); if n > 100000 { break }
                let mut v = valid(e, &mut g, n);
                if e.gen != 2 { v.resize(n, match e.gen { 5 | 4 | 6 | 7 | 9 => b'A', _ => b'0' }); if e.unit == 1 { for x in v.iter_mut() { if *x == b'=' { *x = b'A' } } } } else if v.len() != n { v = vec![b'0'; n] }
                for &(i, x) in &fixed { if i < v.len() { v[i] = x } }
                let d = a[5].parse().unwrap_or_else(|_| dst_for(e, &mut g, &v)); let d = dfix(e, d); if d * e.unit > (1 << 18) && !matches!(e.f, F::N(_)) { break }
                if matches!(e.k, K::EncRaw | K::DecRaw) && d < (e.o)(&v).map_or(v.len() / 2, |w| w.len()) { continue }
                if let Some(m) = run(&c, e, &v, d, it % 2 == 0, it as u8, isa) { report(e, isa, d, &v, &m); bad = 1; break } } }
        _ => { // fuzz seed seconds entry...
            let mut g = Rng(a[3].parse::<u64>().unwrap().wrapping_mul(0x9E3779B97F4A7C15) | 1); for _ in 0..9 { g.next(); } let secs: f64 = a[4].parse().unwrap(); let mut calls = 0u64;
            let sel: Vec<&E> = a[5..].iter().map(|n| find(n)).collect();
            for e in sel { let t0 = Instant::now(); unsafe { alarm(30 + secs as u32); } let mut it = 0usize;
                while t0.elapsed().as_secs_f64() < secs { for _ in 0..64 { it += 1;
                    let n = if it < 400 && e.unit != 16 { it / 2 * e.unit.min(4) } else { size(e, &mut g) };
                    let mut v = valid(e, &mut g, n); if it >= 200 || it % 2 == 0 { mutate(e, &mut g, &mut v) }
                    let d = dst_for(e, &mut g, &v); calls += 1;
                    if let Some(m) = run(&c, e, &v, d, it % 2 == 0, g.next() as u8, isa) { report(e, isa, d, &v, &m); bad = 1; break } }
                    if bad == 1 { break } }
                if bad == 1 { break } }
            println!("CALLS {calls}"); }
    }
    quit(bad);
}
fn unhex(s: &str) -> Vec<u8> { if s == "-" { return vec![] } (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
