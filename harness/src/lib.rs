//! Entry points for the verifier: one thin wrapper per public operation, so that the real
//! code of /repo (generic / #[inline]) is instantiated into this crate's LLVM IR, and so that
//! the same operation can be called natively when a counterexample is replayed.
#![allow(clippy::missing_safety_doc, improper_ctypes_definitions, non_snake_case, unused_imports)]
use core::mem::ManuallyDrop;
#[repr(C)]
pub struct Ret { pub ok: u64, pub ptr: *const u8, pub len: usize, pub cap: usize }
impl Ret {
    #[inline(always)] fn ok(&mut self, s: &[u8]) { self.ok = 1; self.ptr = s.as_ptr(); self.len = s.len(); }
    #[inline(always)] fn err(&mut self) { self.ok = 0; }
    #[inline(always)] fn bx(&mut self, b: Box<[u8]>) { let b = ManuallyDrop::new(b); self.ok = 1; self.ptr = b.as_ptr(); self.len = b.len(); self.cap = b.len(); }
    #[inline(always)] fn bs(&mut self, b: Box<str>) { let b = ManuallyDrop::new(b); self.ok = 1; self.ptr = b.as_ptr(); self.len = b.len(); self.cap = b.len(); }
    #[inline(always)] fn vc(&mut self, v: Vec<u8>) { let v = ManuallyDrop::new(v); self.ok = 1; self.ptr = v.as_ptr(); self.len = v.len(); self.cap = v.capacity(); }
    #[inline(always)] fn st(&mut self, v: String) { let v = ManuallyDrop::new(v); self.ok = 1; self.ptr = v.as_ptr(); self.len = v.len(); self.cap = v.capacity(); }
}
macro_rules! ret { ($r:expr, $o:expr) => { match $r { Ok(s) => $o.ok(s), Err(_) => $o.err() } } }
macro_rules! retw { ($r:expr, $o:expr, $m:ident) => { match $r { Ok(s) => $o.$m(s), Err(_) => $o.err() } } }
macro_rules! app { ($p:expr, $len:expr, $cap:expr, $o:expr, $v:ident, $e:expr) => { {
    let mut $v = ManuallyDrop::new(Vec::<u8>::from_raw_parts($p, $len, $cap));
    let r: bool = $e;
    $o.ok = r as u64; $o.ptr = $v.as_ptr(); $o.len = $v.len(); $o.cap = $v.capacity();
} } }
macro_rules! appstr { ($p:expr, $len:expr, $cap:expr, $o:expr, $v:ident, $e:expr) => { {
    let mut $v = ManuallyDrop::new(String::from_raw_parts($p, $len, $cap));
    $e;
    $o.ok = 1; $o.ptr = $v.as_ptr(); $o.len = $v.len(); $o.cap = $v.capacity();
} } }

macro_rules! codec { ($v:path, [$($n:ident)*]) => { codec!(@ $v, $($n)*); };
(@ $v:path, $enc:ident $encs:ident $dec:ident $inp:ident $chk:ident $dl:ident $el:ident $ed:ident
    $ebb:ident $ebs:ident $evc:ident $est:ident $eav:ident $eas:ident $dbb:ident $dvc:ident $dav:ident) => {
    #[no_mangle] pub fn $enc(src: &[u8], dst: &mut [u8], o: &mut Ret) { ret!($v.encode(src, AsOut::as_out(dst)), o) }
    #[no_mangle] pub fn $encs(src: &[u8], dst: &mut [u8], o: &mut Ret) { match $v.encode_as_str(src, AsOut::as_out(dst)) { Ok(s) => o.ok(s.as_bytes()), Err(_) => o.err() } }
    #[no_mangle] pub fn $dec(src: &[u8], dst: &mut [u8], o: &mut Ret) { ret!($v.decode(src, AsOut::as_out(dst)), o) }
    #[no_mangle] pub fn $inp(data: &mut [u8], o: &mut Ret) { ret!($v.decode_inplace(data), o) }
    #[no_mangle] pub fn $chk(src: &[u8], o: &mut Ret) { o.ok = $v.check(src).is_ok() as u64; }
    #[no_mangle] pub fn $dl(src: &[u8], o: &mut Ret) { match $v.decoded_length(src) { Ok(n) => { o.ok = 1; o.len = n }, Err(_) => o.ok = 0 } }
    #[no_mangle] pub fn $el(n: usize, o: &mut Ret) { o.ok = 1; o.len = $v.encoded_length(n); }
    #[no_mangle] pub fn $ed(n: usize, o: &mut Ret) { o.ok = 1; o.len = $v.estimated_decoded_length(n); }
    #[no_mangle] pub fn $ebb(src: &[u8], o: &mut Ret) { o.bx($v.encode_type::<Box<[u8]>>(src)) }
    #[no_mangle] pub fn $ebs(src: &[u8], o: &mut Ret) { o.bs($v.encode_type::<Box<str>>(src)) }
    #[no_mangle] pub fn $evc(src: &[u8], o: &mut Ret) { o.vc($v.encode_type::<Vec<u8>>(src)) }
    #[no_mangle] pub fn $est(src: &[u8], o: &mut Ret) { o.st($v.encode_to_string(src)) }
    #[no_mangle] pub unsafe fn $eav(src: &[u8], p: *mut u8, len: usize, cap: usize, o: &mut Ret) { app!(p, len, cap, o, v, { $v.encode_append::<Vec<u8>>(src, &mut v); true }) }
    #[no_mangle] pub unsafe fn $eas(src: &[u8], p: *mut u8, len: usize, cap: usize, o: &mut Ret) { appstr!(p, len, cap, o, v, { $v.encode_append::<String>(src, &mut v); }) }
    #[no_mangle] pub fn $dbb(src: &[u8], o: &mut Ret) { retw!($v.decode_type::<Box<[u8]>>(src), o, bx) }
    #[no_mangle] pub fn $dvc(src: &[u8], o: &mut Ret) { retw!($v.decode_to_vec(src), o, vc) }
    #[no_mangle] pub unsafe fn $dav(src: &[u8], p: *mut u8, len: usize, cap: usize, o: &mut Ret) { app!(p, len, cap, o, v, { $v.decode_append::<Vec<u8>>(src, &mut v).is_ok() }) }
} }

pub mod b64 { use super::*; use base64_simd::{AsOut, *};
codec!(STANDARD, [b64s_enc b64s_encs b64s_dec b64s_inp b64s_chk b64s_dlen b64s_elen b64s_edlen b64s_ebb b64s_ebs b64s_evc b64s_est b64s_eav b64s_eas b64s_dbb b64s_dvc b64s_dav]);
codec!(URL_SAFE, [b64u_enc b64u_encs b64u_dec b64u_inp b64u_chk b64u_dlen b64u_elen b64u_edlen b64u_ebb b64u_ebs b64u_evc b64u_est b64u_eav b64u_eas b64u_dbb b64u_dvc b64u_dav]);
codec!(STANDARD_NO_PAD, [b64sn_enc b64sn_encs b64sn_dec b64sn_inp b64sn_chk b64sn_dlen b64sn_elen b64sn_edlen b64sn_ebb b64sn_ebs b64sn_evc b64sn_est b64sn_eav b64sn_eas b64sn_dbb b64sn_dvc b64sn_dav]);
codec!(URL_SAFE_NO_PAD, [b64un_enc b64un_encs b64un_dec b64un_inp b64un_chk b64un_dlen b64un_elen b64un_edlen b64un_ebb b64un_ebs b64un_evc b64un_est b64un_eav b64un_eas b64un_dbb b64un_dvc b64un_dav]);
#[no_mangle] pub fn b64f_dec(src: &[u8], dst: &mut [u8], o: &mut Ret) { ret!(forgiving_decode(src, AsOut::as_out(dst)), o) }
#[no_mangle] pub fn b64f_inp(data: &mut [u8], o: &mut Ret) { ret!(forgiving_decode_inplace(data), o) }
#[no_mangle] pub fn b64f_dvc(src: &[u8], o: &mut Ret) { retw!(forgiving_decode_to_vec(src), o, vc) }
#[cfg(feature = "parallel")] #[no_mangle] pub fn b64s_par(src: &[u8], dst: &mut [u8], o: &mut Ret) { ret!(STANDARD.par_encode(src, AsOut::as_out(dst)), o) }
#[cfg(feature = "parallel")] #[no_mangle] pub fn b64u_par(src: &[u8], dst: &mut [u8], o: &mut Ret) { ret!(URL_SAFE.par_encode(src, AsOut::as_out(dst)), o) }
#[cfg(feature = "parallel")] #[no_mangle] pub fn b64sn_par(src: &[u8], dst: &mut [u8], o: &mut Ret) { ret!(STANDARD_NO_PAD.par_encode(src, AsOut::as_out(dst)), o) }
#[cfg(feature = "parallel")] #[no_mangle] pub fn b64un_par(src: &[u8], dst: &mut [u8], o: &mut Ret) { ret!(URL_SAFE_NO_PAD.par_encode(src, AsOut::as_out(dst)), o) }
#[no_mangle] pub fn b64_chars(o: &mut Ret, k: u32) { let s: &'static [u8] = match k { 0 => { const B: base64_simd::Base64 = STANDARD; const C: &[u8; 64] = B.charset(); C }, _ => { const B: base64_simd::Base64 = URL_SAFE; const C: &[u8; 64] = B.charset(); C } }; o.ok(s) }
}
pub mod b32 { use super::*; use base32_simd::{AsOut, *};
codec!(BASE32, [b32s_enc b32s_encs b32s_dec b32s_inp b32s_chk b32s_dlen b32s_elen b32s_edlen b32s_ebb b32s_ebs b32s_evc b32s_est b32s_eav b32s_eas b32s_dbb b32s_dvc b32s_dav]);
codec!(BASE32HEX, [b32h_enc b32h_encs b32h_dec b32h_inp b32h_chk b32h_dlen b32h_elen b32h_edlen b32h_ebb b32h_ebs b32h_evc b32h_est b32h_eav b32h_eas b32h_dbb b32h_dvc b32h_dav]);
codec!(BASE32_NO_PAD, [b32sn_enc b32sn_encs b32sn_dec b32sn_inp b32sn_chk b32sn_dlen b32sn_elen b32sn_edlen b32sn_ebb b32sn_ebs b32sn_evc b32sn_est b32sn_eav b32sn_eas b32sn_dbb b32sn_dvc b32sn_dav]);
codec!(BASE32HEX_NO_PAD, [b32hn_enc b32hn_encs b32hn_dec b32hn_inp b32hn_chk b32hn_dlen b32hn_elen b32hn_edlen b32hn_ebb b32hn_ebs b32hn_evc b32hn_est b32hn_eav b32hn_eas b32hn_dbb b32hn_dvc b32hn_dav]);
}
macro_rules! hexc { ($c:expr, [$($n:ident)*]) => { hexc!(@ $c, $($n)*); };
(@ $c:expr, $enc:ident $encs:ident $encr:ident $ebb:ident $ebs:ident $evc:ident $est:ident $eav:ident $eas:ident) => {
    #[no_mangle] pub fn $enc(src: &[u8], dst: &mut [u8], o: &mut Ret) { ret!(encode(src, AsOut::as_out(dst), $c), o) }
    #[no_mangle] pub fn $encs(src: &[u8], dst: &mut [u8], o: &mut Ret) { match encode_as_str(src, AsOut::as_out(dst), $c) { Ok(s) => o.ok(s.as_bytes()), Err(_) => o.err() } }
    #[no_mangle] pub unsafe fn $encr(src: &[u8], dst: &mut [u8], o: &mut Ret) { let n = encode_raw(src.as_ptr(), src.len(), dst.as_mut_ptr(), $c); o.ok = 1; o.ptr = dst.as_ptr(); o.len = n }
    #[no_mangle] pub fn $ebb(src: &[u8], o: &mut Ret) { o.bx(encode_type::<Box<[u8]>>(src, $c)) }
    #[no_mangle] pub fn $ebs(src: &[u8], o: &mut Ret) { o.bs(encode_type::<Box<str>>(src, $c)) }
    #[no_mangle] pub fn $evc(src: &[u8], o: &mut Ret) { o.vc(encode_type::<Vec<u8>>(src, $c)) }
    #[no_mangle] pub fn $est(src: &[u8], o: &mut Ret) { o.st(encode_to_string(src, $c)) }
    #[no_mangle] pub unsafe fn $eav(src: &[u8], p: *mut u8, len: usize, cap: usize, o: &mut Ret) { app!(p, len, cap, o, v, { encode_append::<Vec<u8>>(src, &mut v, $c); true }) }
    #[no_mangle] pub unsafe fn $eas(src: &[u8], p: *mut u8, len: usize, cap: usize, o: &mut Ret) { appstr!(p, len, cap, o, v, { encode_append::<String>(src, &mut v, $c); }) }
} }
pub mod hex { use super::*; use hex_simd::{AsOut, *};
hexc!(AsciiCase::Lower, [hexl_enc hexl_encs hexl_encr hexl_ebb hexl_ebs hexl_evc hexl_est hexl_eav hexl_eas]);
hexc!(AsciiCase::Upper, [hexu_enc hexu_encs hexu_encr hexu_ebb hexu_ebs hexu_evc hexu_est hexu_eav hexu_eas]);
#[no_mangle] pub fn hex_dec(src: &[u8], dst: &mut [u8], o: &mut Ret) { ret!(decode(src, AsOut::as_out(dst)), o) }
#[no_mangle] pub unsafe fn hex_decr(src: &[u8], dst: &mut [u8], o: &mut Ret) { match decode_raw(src.as_ptr(), src.len(), dst.as_mut_ptr()) { Ok(n) => { o.ok = 1; o.ptr = dst.as_ptr(); o.len = n }, Err(_) => o.err() } }
#[no_mangle] pub fn hex_inp(data: &mut [u8], o: &mut Ret) { ret!(decode_inplace(data), o) }
#[no_mangle] pub unsafe fn hex_inpr(data: &mut [u8], o: &mut Ret) { let p = data.as_mut_ptr(); match decode_raw(p, data.len(), p) { Ok(n) => { o.ok = 1; o.ptr = p; o.len = n }, Err(_) => o.err() } }
#[no_mangle] pub fn hex_chk(src: &[u8], o: &mut Ret) { o.ok = check(src).is_ok() as u64; }
#[no_mangle] pub unsafe fn hex_chkr(src: &[u8], o: &mut Ret) { o.ok = check_raw(src.as_ptr(), src.len()).is_ok() as u64; }
#[no_mangle] pub fn hex_dlen(n: usize, o: &mut Ret) { match decoded_length(n) { Ok(n) => { o.ok = 1; o.len = n }, Err(_) => o.ok = 0 } }
#[no_mangle] pub fn hex_elen(n: usize, o: &mut Ret) { o.ok = 1; o.len = encoded_length(n); }
#[no_mangle] pub fn hex_dbb(src: &[u8], o: &mut Ret) { retw!(decode_type::<Box<[u8]>>(src), o, bx) }
#[no_mangle] pub fn hex_dvc(src: &[u8], o: &mut Ret) { retw!(decode_to_vec(src), o, vc) }
#[no_mangle] pub unsafe fn hex_dav(src: &[u8], p: *mut u8, len: usize, cap: usize, o: &mut Ret) { app!(p, len, cap, o, v, { decode_append::<Vec<u8>>(src, &mut v).is_ok() }) }
}
pub mod uuid { use super::*; use uuid_simd::{AsOut, *}; use std::fmt::{self, Write};
macro_rules! pf { ($n:ident, $f:path) => { #[no_mangle] pub fn $n(src: &[u8], dst: &mut [u8; 16], o: &mut Ret) { match $f(src, AsOut::as_out(dst)) { Ok(s) => o.ok(&s[..]), Err(_) => o.err() } } } }
pf!(uuid_parse, parse); pf!(uuid_psimple, parse_simple); pf!(uuid_phyph, parse_hyphenated);
macro_rules! px { ($n:ident, $f:ident) => { #[no_mangle] pub fn $n(src: &[u8], dst: &mut [u8; 16], o: &mut Ret) { match <::uuid::Uuid as UuidExt>::$f(src) { Ok(u) => { *dst = *u.as_bytes(); o.ok(&dst[..]) }, Err(_) => o.err() } } } }
px!(uuidx_parse, parse); px!(uuidx_psimple, parse_simple); px!(uuidx_phyph, parse_hyphenated);
macro_rules! ff { ($n:ident, $f:path, $c:expr, $l:literal) => { #[no_mangle] pub fn $n(src: &[u8; 16], dst: &mut [u8; $l], o: &mut Ret) { o.ok(&$f(src, AsOut::as_out(dst), $c)[..]) } } }
macro_rules! fd { ($n:ident, $t:path, $m:ident) => { #[no_mangle] pub fn $n(u: &[u8; 16], f: &mut fmt::Formatter<'_>) -> bool { <_ as $t>::fmt(&UuidExt::$m(::uuid::Uuid::from_bytes_ref(u)), f).is_err() } } }
fd!(uuid_ds, fmt::Display, format_simple); fd!(uuid_dsl, fmt::LowerHex, format_simple); fd!(uuid_dsu, fmt::UpperHex, format_simple);
fd!(uuid_dh, fmt::Display, format_hyphenated); fd!(uuid_dhl, fmt::LowerHex, format_hyphenated); fd!(uuid_dhu, fmt::UpperHex, format_hyphenated);
ff!(uuid_fsimple_l, format_simple, AsciiCase::Lower, 32); ff!(uuid_fsimple_u, format_simple, AsciiCase::Upper, 32);
ff!(uuid_fhyph_l, format_hyphenated, AsciiCase::Lower, 36); ff!(uuid_fhyph_u, format_hyphenated, AsciiCase::Upper, 36);
}
pub mod uni { use super::*; use unicode_simd::{AsOut, *};
#[no_mangle] pub fn uni_ascii(src: &[u8], o: &mut Ret) { o.ok = is_ascii(src) as u64; }
#[no_mangle] pub fn uni_from_ascii(src: &[u8], o: &mut Ret) { match from_ascii(src) { Some(s) => o.ok(s.as_bytes()), None => o.err() } }
#[no_mangle] pub fn uni_utf32(src: &[u32], o: &mut Ret) { o.ok = is_utf32le(src) as u64; }
#[no_mangle] pub fn uni_swap32i(data: &mut [u32], o: &mut Ret) { utf32_swap_endianness_inplace(data); o.ok = 1; }
#[no_mangle] pub fn uni_swap16i(data: &mut [u16], o: &mut Ret) { utf16_swap_endianness_inplace(data); o.ok = 1; }
#[no_mangle] pub fn uni_swap32(src: &[u32], dst: &mut [u32], o: &mut Ret) { let r = utf32_swap_endianness(src, AsOut::as_out(dst)); o.ok = 1; o.ptr = r.as_ptr().cast(); o.len = r.len(); }
#[no_mangle] pub fn uni_swap16(src: &[u16], dst: &mut [u16], o: &mut Ret) { let r = utf16_swap_endianness(src, AsOut::as_out(dst)); o.ok = 1; o.ptr = r.as_ptr().cast(); o.len = r.len(); }
}
pub mod nat { use super::*; use vsimd::native::Native;
/// the work given to the native dispatcher: result and effects of the closure, and how often it ran, are observed
#[no_mangle] pub fn nat_exec(src: &[u8], dst: &mut [u8], o: &mut Ret) {
    let n = src.len(); if dst.len() < n { o.err(); return }
    let mut runs = 0u32; let d = &mut dst[..n]; let r = &mut runs;
    let k = Native::detect().exec(move || { *r += 1; for (x, y) in d.iter_mut().zip(src) { *x = y.wrapping_add(0x5a); } n / 2 });
    if runs != 1 || k != n / 2 { o.err(); return }
    o.ok(&dst[..n])
}
}
/// round trips of the real operations (used when a counterexample of the round-trip property is replayed)
#[cfg(feature = "rt")]
pub mod c20 { use super::*;
macro_rules! codec_rt { ($m:ident, $v:ident, $rt:ident, $tr:ident) => {
    /// decode(encode(v)) == v, for every form of both
    pub fn $rt(v: &[u8]) -> bool { use $m::{AsOut, *}; const C: $m::Ty = $m::$v;
        let s = C.encode_to_string(v); let n = C.encoded_length(v.len()); let mut d = vec![0u8; n];
        let texts: Vec<Vec<u8>> = vec![s.clone().into_bytes(), C.encode(v, d.as_out()).unwrap().to_vec(), C.encode_as_str(v, vec![0u8; n + 3].as_out()).unwrap().as_bytes().to_vec(), C.encode_type::<Box<str>>(v).as_bytes().to_vec(),
            C.encode_type::<Box<[u8]>>(v).to_vec(), C.encode_type::<Vec<u8>>(v), { let mut a = vec![1u8, 2]; C.encode_append(v, &mut a); a.split_off(2) }, { let mut a = String::from("x"); C.encode_append(v, &mut a); a.split_off(1).into_bytes() }];
        texts.iter().all(|t| back!($m, C, t, v)) }
    /// encode(decode(t)) == t for accepted t
    pub fn $tr(t: &[u8]) -> bool { use $m::{AsOut, *}; const C: $m::Ty = $m::$v;
        let same = |x: &[u8]| C.encode_to_string(x).as_bytes() == t;
        C.decode_to_vec(t).map_or(true, |x| same(&x)) && C.decode(t, vec![0u8; t.len() + 1].as_out()).map_or(true, |x| same(x)) && C.decode_inplace(&mut t.to_vec()[..]).map_or(true, |x| same(x))
            && C.decode_type::<Box<[u8]>>(t).map_or(true, |x| same(&x)) && { let mut a = vec![7u8]; C.decode_append(t, &mut a).map_or(true, |_| same(&a[1..])) } }
} }
macro_rules! back { ($m:ident, $c:expr, $t:expr, $v:expr) => { { let (t, v): (&[u8], &[u8]) = ($t, $v);
    $c.check(t).is_ok() && $c.decoded_length(t).is_ok_and(|n| n == v.len()) && $c.decode_to_vec(t).is_ok_and(|x| x == v) && $c.decode(t, vec![0u8; v.len()].as_out()).is_ok_and(|x| x == v)
        && $c.decode_inplace(&mut t.to_vec()[..]).is_ok_and(|x| x == v) && $c.decode_type::<Box<[u8]>>(t).is_ok_and(|x| &*x == v) && { let mut a = vec![3u8; 5]; $c.decode_append(t, &mut a).is_ok() && &a[5..] == v } } } }
use back;
mod m64 { pub use base64_simd::*; pub type Ty = Base64; }
mod m32 { pub use base32_simd::*; pub type Ty = Base32; }
codec_rt!(m64, STANDARD, rt_b64s, tr_b64s); codec_rt!(m64, URL_SAFE, rt_b64u, tr_b64u); codec_rt!(m64, STANDARD_NO_PAD, rt_b64sn, tr_b64sn); codec_rt!(m64, URL_SAFE_NO_PAD, rt_b64un, tr_b64un);
codec_rt!(m32, BASE32, rt_b32s, tr_b32s); codec_rt!(m32, BASE32HEX, rt_b32h, tr_b32h); codec_rt!(m32, BASE32_NO_PAD, rt_b32sn, tr_b32sn); codec_rt!(m32, BASE32HEX_NO_PAD, rt_b32hn, tr_b32hn);
pub fn rt_b64f(v: &[u8]) -> bool { use base64_simd::*;
    [STANDARD.encode_to_string(v), STANDARD_NO_PAD.encode_to_string(v)].iter().all(|t| { let t = t.as_bytes();
        forgiving_decode_to_vec(t).is_ok_and(|x| x == v) && forgiving_decode(t, vec![0u8; t.len()].as_out()).is_ok_and(|x| x == v) && forgiving_decode_inplace(&mut t.to_vec()[..]).is_ok_and(|x| x == v) }) }
pub fn rt_hex(v: &[u8]) -> bool { use hex_simd::*;
    [AsciiCase::Lower, AsciiCase::Upper].iter().all(|&c| { let n = v.len() * 2;
        let texts: Vec<Vec<u8>> = vec![encode_to_string(v, c).into_bytes(), encode(v, vec![0u8; n].as_out(), c).unwrap().to_vec(), encode_as_str(v, vec![0u8; n + 2].as_out(), c).unwrap().as_bytes().to_vec(), encode_type::<Box<[u8]>>(v, c).to_vec(),
            encode_type::<Box<str>>(v, c).as_bytes().to_vec(), encode_type::<Vec<u8>>(v, c), { let mut a = vec![1u8]; encode_append(v, &mut a, c); a.split_off(1) }, { let mut a = String::from("y"); encode_append(v, &mut a, c); a.split_off(1).into_bytes() }];
        texts.iter().all(|t| check(t).is_ok() && decoded_length(t.len()).is_ok_and(|k| k == v.len()) && decode_to_vec(t).is_ok_and(|x| x == v) && decode(t, vec![0u8; v.len()].as_out()).is_ok_and(|x| x == v)
            && decode_inplace(&mut t.to_vec()[..]).is_ok_and(|x| x == v) && decode_type::<Box<[u8]>>(t).is_ok_and(|x| &*x == v) && { let mut a = vec![9u8; 3]; decode_append(t, &mut a).is_ok() && &a[3..] == v }) }) }
pub fn tr_hex(t: &[u8]) -> bool { use hex_simd::*;
    let same = |x: &[u8]| encode_to_string(x, AsciiCase::Lower).into_bytes() == t.to_ascii_lowercase() && encode_to_string(x, AsciiCase::Upper).into_bytes() == t.to_ascii_uppercase();
    decode_to_vec(t).map_or(true, |x| same(&x)) && decode(t, vec![0u8; t.len()].as_out()).map_or(true, |x| same(x)) && decode_inplace(&mut t.to_vec()[..]).map_or(true, |x| same(x)) && { let mut a = vec![7u8]; decode_append(t, &mut a).map_or(true, |_| same(&a[1..])) } }
pub fn rt_uuid(v: &[u8]) -> bool { use uuid_simd::*; use ::uuid::Uuid;
    let u: [u8; 16] = match v.try_into() { Ok(u) => u, Err(_) => return true }; let id = Uuid::from_bytes(u);
    [AsciiCase::Lower, AsciiCase::Upper].iter().all(|&c| {
        let mut s = [0u8; 32]; let s = format_simple(&u, s.as_out(), c); let mut h = [0u8; 36]; let h = format_hyphenated(&u, h.as_out(), c);
        let p = |t: &[u8]| parse(t, [0u8; 16].as_out()).is_ok_and(|x| *x == u) && <Uuid as UuidExt>::parse(t).is_ok_and(|x| x == id);
        p(s) && p(h) && p(&[b"{", &h[..], b"}"].concat()) && p(&[b"urn:uuid:", &h[..]].concat()) && parse_simple(&s[..], [0u8; 16].as_out()).is_ok_and(|x| *x == u) && parse_hyphenated(&h[..], [0u8; 16].as_out()).is_ok_and(|x| *x == u)
            && <Uuid as UuidExt>::parse_simple(&s[..]).is_ok_and(|x| x == id) && <Uuid as UuidExt>::parse_hyphenated(&h[..]).is_ok_and(|x| x == id) })
        && [format!("{}", id.format_simple()), format!("{:x}", id.format_simple()), format!("{:X}", id.format_simple()), format!("{}", id.format_hyphenated()), format!("{:x}", id.format_hyphenated()), format!("{:X}", id.format_hyphenated())].iter().all(|t| <Uuid as UuidExt>::parse(t).is_ok_and(|x| x == id)) }
}
/// what the crates' run-time detection consults, one probe per feature
#[cfg(feature = "detect")]
pub mod probe {
macro_rules! pr { ($n:ident, $f:tt) => { #[no_mangle] pub fn $n() -> bool { std::is_x86_feature_detected!($f) } } }
pr!(probe_sse3, "sse3"); pr!(probe_ssse3, "ssse3"); pr!(probe_sse42, "sse4.2"); pr!(probe_avx, "avx"); pr!(probe_sse41, "sse4.1"); pr!(probe_avx2, "avx2");
}
