#!/usr/bin/env python3
"""Regenerates the planted bugs in seeded/ (all, or those named). Each is a textual edit of a scratch copy of /repo with a demonstration."""
import sys
sys.path.insert(0, __file__.rsplit("/", 1)[0])
from mkseed import mk
S = {}
def seed(id, *a, **k): S[id] = (a, k)
B64 = [("base64-simd", ["std", "detect"])]; B32 = [("base32-simd", ["std", "detect"])]; HEX = [("hex-simd", ["std", "detect"])]
UU = [("uuid-simd", ["std", "detect"])]; UNI = [("unicode-simd", ["std", "detect"])]; VS = [("vsimd", ["std", "detect"])]
B64N = [("base64-simd", ["std"])]; HEXN = [("hex-simd", ["std"])]; B32N = [("base32-simd", ["std"])]; UNIN = [("unicode-simd", ["std"])]; UUN = [("uuid-simd", ["std"])]; VSN = [("vsimd", ["std"])]
GUARD = '''
extern "C" { fn mmap(a: *mut u8, n: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8; fn mprotect(a: *mut u8, n: usize, p: i32) -> i32; }
/// a slice of `n` bytes that ends where an inaccessible page begins
fn guarded(n: usize) -> &'static mut [u8] {
    unsafe {
        let pages = (n + 4095) / 4096 * 4096;
        let p = mmap(std::ptr::null_mut(), pages + 4096, 3, 0x22, -1, 0);
        assert!(mprotect(p.add(pages), 4096, 0) == 0);
        std::slice::from_raw_parts_mut(p.add(pages - n), n)
    }
}
'''
B64ENC = '''
fn enc(src: &[u8], cs: &[u8; 64], pad: bool) -> Vec<u8> {
    let mut o = Vec::new();
    for c in src.chunks(3) {
        let b = [c[0], *c.get(1).unwrap_or(&0), *c.get(2).unwrap_or(&0)];
        let x = (b[0] as usize) << 16 | (b[1] as usize) << 8 | b[2] as usize;
        for i in 0..4 { if i <= c.len() { o.push(cs[x >> (18 - 6 * i) & 63]) } else if pad { o.push(b'=') } }
    }
    o
}
'''
# ---------------------------------------------------------------- base64
seed("b64-enc-bulk-urlsafe", "C01", "a URL-safe encode of at least 8*24+34 bytes whose bulk part holds a 62 or 63 value, at AVX2 or SSSE3 level",
 "the bulk path uses the standard alphabet for both kinds", B64, "", B64ENC + '''
fn main() {
    let src: Vec<u8> = (0..400u32).map(|i| if i % 5 == 0 { 0xfb } else { 0xff }).collect();
    let mut buf = vec![0; 600];
    use base64_simd::AsOut;
    for n in 0..400 {
        let r = base64_simd::URL_SAFE.encode(&src[..n], buf.as_out()).unwrap();
        assert_eq!(r, &enc(&src[..n], base64_simd::URL_SAFE.charset(), true)[..]);
    }
}
''', [("crates/base64-simd/src/encode.rs", "        while len >= (24 + 4) {\n            let x = s.v256_load_unaligned(src.sub(4));",
"""        const BULK: usize = 8;
        while len >= (24 * BULK + 4) {
            let mut i = 0;
            while i < BULK {
                let x = s.v256_load_unaligned(src.sub(4));
                let y = encode_bytes24(s, x, STANDARD_ENCODING_SHIFT_X2);
                s.v256_store_unaligned(dst, y);
                src = src.add(24);
                dst = dst.add(32);
                i += 1;
            }
            len -= 24 * BULK;
        }

        while len >= (24 + 4) {
            let x = s.v256_load_unaligned(src.sub(4));""")])
seed("b64-dec-pair-flags", "C02", "an input of at least 70 characters with an invalid character in exactly one of two neighbouring 32-character blocks",
 "the merged validity test of the unrolled loop only rejects when both blocks are invalid", B64, "", '''
use base64_simd::AsOut;
fn main() {
    for n in (4..400).step_by(4) {
        for p in (0..n).step_by(3) {
            let mut v = vec![b'A'; n]; v[p] = b'*';
            let mut buf = vec![0; n];
            assert!(base64_simd::STANDARD.decode(&v, buf.as_out()).is_err(), "{n} {p}");
        }
    }
}
''', [("crates/base64-simd/src/decode.rs", "    // n*3/4 >= 24+4\n    while n >= 38 {\n        let x = s.v256_load_unaligned(src);\n        let y = try_!(",
"""    // two blocks per iteration
    while n >= 32 + 38 {
        let x1 = s.v256_load_unaligned(src);
        let x2 = s.v256_load_unaligned(src.add(32));
        let (c1, v1) = vsimd::alsw::decode_ascii_xn(s, x1, check_lut, decode_lut);
        let (c2, v2) = vsimd::alsw::decode_ascii_xn(s, x2, check_lut, decode_lut);
        ensure!(u8x32_highbit_any(s, s.v256_and(c1, c2)).not());

        let (y1, y2) = merge_bits_x2(s, v1).to_v128x2();
        s.v128_store_unaligned(dst, y1);
        s.v128_store_unaligned(dst.add(12), y2);
        let (y3, y4) = merge_bits_x2(s, v2).to_v128x2();
        s.v128_store_unaligned(dst.add(24), y3);
        s.v128_store_unaligned(dst.add(36), y4);

        src = src.add(64);
        dst = dst.add(48);
        n -= 64;
    }

    // n*3/4 >= 24+4
    while n >= 38 {
        let x = s.v256_load_unaligned(src);
        let y = try_!(""")])
seed("b64-check-nopad-lax", "C03", "check() of unpadded text whose last character has non-zero trailing bits",
 "check accepts text that decode refuses", B64, "", '''
use base64_simd::AsOut;
fn main() {
    let cs = base64_simd::STANDARD.charset();
    for &a in cs { for &b in cs {
        for v in [vec![a, b], vec![a, a, b], vec![b'A', b'B', b'C', b'D', a, b]] {
            let mut buf = [0; 16];
            let c = base64_simd::STANDARD_NO_PAD.check(&v).is_ok();
            assert_eq!(c, base64_simd::STANDARD_NO_PAD.decode(&v, buf.as_mut_slice().as_out()).is_ok());
        }
    } }
}
''', [("crates/base64-simd/src/check.rs", "let forgiving = config.extra.forgiving();", "let forgiving = config.extra.padding().not();"),
      ("crates/base64-simd/src/check.rs", "use core::ptr::null_mut;", "use core::ops::Not;\nuse core::ptr::null_mut;")])
seed("b64-formfeed-table", "C04", "an input with a form feed (0x0C) character",
 "the scalar whitespace table drops form feed, which the vector test knows", B64, "", '''
fn main() {
    let r = base64_simd::forgiving_decode_to_vec(b"YWJj\\x0cZGVm").expect("form feed is ASCII whitespace");
    assert_eq!(r, b"abcdef");
}
''', [("crates/base64-simd/src/ascii.rs", "ans[i as usize] = if i.is_ascii_whitespace() { 0xff } else { 0 };", "ans[i as usize] = if matches!(i, b'\\t'..=b'\\n' | b'\\r' | b' ') { 0xff } else { 0 };")])
seed("b64-forgiving-prefix", "C04", "forgiving_decode into a separate destination, with whitespace first found after position 64",
 "the clean prefix is copied with its length rounded down to whole vectors", B64, "", '''
use base64_simd::AsOut;
fn main() {
    for p in 0..200usize {
        let mut v: Vec<u8> = (0..200).map(|i| base64_simd::STANDARD.charset()[i % 64]).collect();
        let want = base64_simd::STANDARD.decode_to_vec(&v).unwrap();
        v.insert(p, b' ');
        let mut buf = vec![0; 300];
        assert_eq!(base64_simd::forgiving_decode(&v, buf.as_out()).unwrap(), &want[..], "{p}");
    }
}
''', [("crates/base64-simd/src/forgiving.rs", "        copy_nonoverlapping(src, dst, pos);", "        // whole vectors first, the rest together with the remainder below\n        let bulk = if pos > 64 { pos / 32 * 32 } else { pos };\n        copy_nonoverlapping(src, dst, bulk);")])
# ---------------------------------------------------------------- hex
seed("hex-enc-oversized-dst", "C05", "hex encode into a destination longer than twice the source plus a vector",
 "the returned slice covers more than the encoded text", HEX, "", '''
use hex_simd::{AsOut, AsciiCase};
fn main() {
    for n in 0..80 { for extra in 0..200 {
        let src = vec![0xabu8; n];
        let mut buf = vec![0; 2 * n + extra];
        assert_eq!(hex_simd::encode(&src, buf.as_out(), AsciiCase::Lower).unwrap().len(), 2 * n);
    } }
}
''', [("crates/hex-simd/src/lib.rs", """        let (src, len) = slice_parts(src);
        let dst = dst.as_mut_ptr();
        crate::multiversion::encode::auto(src, len, dst, case);
        Ok(slice_mut(dst, len * 2))""", """        let cap = dst.len();
        let (src, len) = slice_parts(src);
        let dst = dst.as_mut_ptr();
        crate::multiversion::encode::auto(src, len, dst, case);
        let vectors = if cap / 2 >= len + 32 { 32 } else { 1 };
        Ok(slice_mut(dst, (len * 2 + vectors - 1) / vectors * vectors))""")])
seed("hex-dec-x2-flags", "C06", "text of at least 64 characters with an invalid character in exactly one half of a 64-character block, at AVX2 level",
 "decode accepts non-hex text", HEX, "", '''
use hex_simd::AsOut;
fn main() {
    for n in (2..300).step_by(2) { for p in 0..n {
        let mut v = vec![b'a'; n]; v[p] = b'g';
        let mut buf = vec![0; n];
        assert!(hex_simd::decode(&v, buf.as_out()).is_err(), "{n} {p}");
    } }
}
''', [("crates/vsimd/src/hex.rs", "let is_invalid = s.v256_or(is_invalid1, is_invalid2);", "let is_invalid = s.v256_and(is_invalid1, is_invalid2);")])
seed("hex-enc-tail-overread", "C15", "a runtime without AVX2 but with SSSE3, a source whose length leaves 8..15 bytes after the 16-byte blocks, and whose end is the end of a mapping",
 "up to 8 bytes behind the source are read", HEXN, "-C target-feature=+ssse3", GUARD + '''
use hex_simd::{AsOut, AsciiCase};
fn main() {
    for n in 0..100 {
        let src = guarded(n); let dst = guarded(2 * n);
        for (i, b) in src.iter_mut().enumerate() { *b = (i * 7) as u8; }
        let r = hex_simd::encode(src, dst.as_out(), AsciiCase::Lower).unwrap();
        for (i, b) in src.iter().enumerate() { assert_eq!(&r[2 * i..2 * i + 2], format!("{b:02x}").as_bytes()); }
    }
}
''', [("crates/hex-simd/src/encode.rs", """        dst = dst.add(32);
        src = src.add(16);
    }
    len %= 16;

    if len == 0 {
        return;
    }

    let charset = charset(case).as_ptr();""", """        dst = dst.add(32);
        src = src.add(16);
    }
    len %= 16;

    if len == 0 {
        return;
    }

    if len >= 8 {
        // one more vector; only the wanted part of it is stored
        let x = s.v128_load_unaligned(src);
        let y = vsimd::hex::encode_bytes16(s, x, lut);
        core::ptr::copy_nonoverlapping(y.as_bytes().as_ptr(), dst, len * 2);
        return;
    }

    let charset = charset(case).as_ptr();""")])
seed("hex-append-capacity", "C17", "appending hex text to a non-empty Vec or String that has spare capacity, but not enough",
 "the append form writes behind the allocation", HEX, "", '''
fn main() {
    for pre in 0..64usize { for n in 1..64usize { for cap in pre..200 {
        let mut v: Vec<u8> = Vec::with_capacity(cap);
        v.resize(pre, b'x');
        hex_simd::encode_append(vec![0x5a; n], &mut v, hex_simd::AsciiCase::Lower);
        assert!(v.capacity() >= v.len() && v.len() == pre + 2 * n, "{pre} {n} {cap}");
        assert!(v[..pre].iter().all(|&x| x == b'x'));
    } } }
}
''', [("crates/hex-simd/src/heap.rs", "        buf.reserve_exact(m);\n        let prev_len = buf.len();\n\n        let (src, len) = slice_parts(src);",
 "        // most callers reuse their buffer\n        if buf.capacity() < m.max(buf.len() + 16) {\n            buf.reserve_exact(m);\n        }\n        let prev_len = buf.len();\n\n        let (src, len) = slice_parts(src);")])
# ---------------------------------------------------------------- base32
seed("b32-enc-bulk-hex", "C07", "a BASE32HEX encode of more than 170 bytes at AVX2 or SSE4.1 level",
 "the bulk path encodes with the plain base32 alphabet", B32, "", '''
use base32_simd::AsOut;
fn main() {
    let cs = base32_simd::BASE32HEX.charset();
    for n in 0..500usize {
        let src: Vec<u8> = (0..n).map(|i| (i * 37 + 11) as u8).collect();
        let mut buf = vec![0; 2 * n + 16];
        let r = base32_simd::BASE32HEX_NO_PAD.encode(&src, buf.as_out()).unwrap();
        for (j, &c) in r.iter().enumerate() {
            let mut v = 0usize;
            for k in 0..5 { let bit = 5 * j + k; let b = src.get(bit / 8).copied().unwrap_or(0); v = v << 1 | (b >> (7 - bit % 8) & 1) as usize; }
            assert_eq!(c, cs[v], "{n} {j}");
        }
    }
}
''', [("crates/base32-simd/src/encode.rs", "        while len >= (20 + 6) {\n            let x = s.v256_load_unaligned(src.sub(6));", """        while len >= (160 + 6) {
            let mut i = 0;
            while i < 8 {
                let x = s.v256_load_unaligned(src.sub(6));
                let y = encode_bytes20(s, x, BASE32_ENCODING_LUT);
                s.v256_store_unaligned(dst, y);
                src = src.add(20);
                dst = dst.add(32);
                i += 1;
            }
            len -= 160;
        }

        while len >= (20 + 6) {
            let x = s.v256_load_unaligned(src.sub(6));""")])
seed("b32-dec-skip-check", "C08", "an invalid character in the first of two neighbouring 32-character blocks of a text of at least 74 characters",
 "decode accepts invalid text: the unrolled loop keeps only the last error mask", B32, "", '''
use base32_simd::AsOut;
fn main() {
    for n in (8..320).step_by(8) { for p in 0..n {
        let mut v = vec![b'A'; n]; v[p] = b'1';
        let mut buf = vec![0; n];
        assert!(base32_simd::BASE32.decode(&v, buf.as_out()).is_err(), "{n} {p}");
    } }
}
''', [("crates/base32-simd/src/decode.rs", "    // n*5/8 >= 10+10+6\n    while n >= 42 {", """    while n >= 42 + 32 {
        let mut bad = s.v256_create_zero();
        for _ in 0..2 {
            let x = s.v256_load_unaligned(src);
            let (c, v) = vsimd::alsw::decode_ascii_xn(s, x, check_lut, decode_lut);
            bad = s.v256_or(s.v256_and(bad, c), c);
            let (y1, y2) = merge_bits(s, v).to_v128x2();
            s.v128_store_unaligned(dst, y1);
            s.v128_store_unaligned(dst.add(10), y2);
            src = src.add(32);
            dst = dst.add(20);
            n -= 32;
        }
        ensure!(u8x32_highbit_any(s, bad).not());
    }

    // n*5/8 >= 10+10+6
    while n >= 42 {""")])
seed("b32-check-pairs", "C09", "check() of at least 64 characters with an invalid character in one of two neighbouring 32-character blocks",
 "check accepts a pair of blocks when either is valid", B32, "", '''
fn main() {
    for n in (8..320).step_by(8) { for p in 0..n {
        let mut v = vec![b'A'; n]; v[p] = b'1';
        assert!(base32_simd::BASE32.check(&v).is_err(), "{n} {p}");
    } }
}
''', [("crates/base32-simd/src/check.rs", "    let end = src.add(len / 32 * 32);\n    while src < end {\n        let x = s.v256_load_unaligned(src);\n\n        let is_valid",
"""    let end = src.add(len / 64 * 64);
    while src < end {
        let x1 = s.v256_load_unaligned(src);
        let x2 = s.v256_load_unaligned(src.add(32));
        let is_valid = check_ascii32(s, x1, check_lut) | check_ascii32(s, x2, check_lut);
        ensure!(is_valid);

        src = src.add(64);
    }
    len %= 64;

    let end = src.add(len / 32 * 32);
    while src < end {
        let x = s.v256_load_unaligned(src);

        let is_valid""")])
seed("b32-extra6", "C16", "check() of base32 text whose unpadded length is 6 modulo 8",
 "a length that no encoder makes reaches code marked unreachable", B32, "", '''
fn main() {
    for k in 0..20 { let v = vec![b'A'; 8 * k + 6]; assert!(base32_simd::BASE32_NO_PAD.check(&v).is_err());
        assert!(base32_simd::BASE32_NO_PAD.decoded_length(&v).is_err()); }
}
''', [("crates/base32-simd/src/decode.rs", "const EXTRA: [u8; 8] = [0, 0xff, 1, 0xff, 2, 3, 0xff, 4];", "const EXTRA: [u8; 8] = [0, 0xff, 1, 0xff, 2, 3, 3, 4];")])
# ---------------------------------------------------------------- uuid
seed("uuid-urn-case", "C10", "a 45-character input whose prefix is not exactly urn:uuid:",
 "parse accepts a wrong URN prefix", UU, "", '''
use uuid_simd::AsOut;
fn main() {
    let body = "67e55044-10b1-426f-9247-bb680e5fe0c8";
    for p in ["urn:uuid:", "URN:UUID:", "urn:UUID:", "urnxuuid:", "urn:uuidx", "uuu:uuid:"] {
        let s = format!("{p}{body}");
        let mut b = [0; 16];
        assert_eq!(uuid_simd::parse(s.as_bytes(), b.as_out()).is_ok(), p == "urn:uuid:", "{p}");
    }
}
''', [("crates/uuid-simd/src/lib.rs", 'src.strip_prefix(b"urn:uuid:").ok_or_else(Error::new)?.as_ptr()', '{\n                ensure!(src[..9].eq_ignore_ascii_case(b"urn:uuid:"));\n                src.as_ptr().add(9)\n            }')])
seed("uuid-hyphen-simd", "C10", "a hyphenated UUID whose third separator is not a hyphen, at AVX2 or SSE4.1 level",
 "the vector parser accepts a wrong separator", UU, "", '''
use uuid_simd::AsOut;
fn main() {
    let body = "67e55044-10b1-426f-9247-bb680e5fe0c8";
    for p in [8, 13, 18, 23] { for c in [b'0', b'_', b' ', b'g', b',', 0, 255, b'-' | 0x80, b'-' ^ 0x20] {
        let mut s = body.as_bytes().to_vec(); s[p] = c;
        let mut b = [0; 16];
        assert!(uuid_simd::parse_hyphenated(&s, b.as_out()).is_err(), "{p} {c}");
    } }
}
''', [("crates/uuid-simd/src/parse.rs", """unsafe fn parse_hyphenated_simd<S: SIMD256>(s: S, src: *const u8, dst: *mut u8) -> Result<(), Error> {
    match [read(src, 8), read(src, 13), read(src, 18), read(src, 23)] {
        [b'-', b'-', b'-', b'-'] => {}
        _ => return Err(Error::new()),
    }
""", """unsafe fn parse_hyphenated_simd<S: SIMD256>(s: S, src: *const u8, dst: *mut u8) -> Result<(), Error> {
    let a = (read(src, 8) ^ b'-') | (read(src, 13) ^ b'-') | (read(src, 23) ^ b'-');
    let b = (read(src, 18) ^ b'-') & 0x5f;
    ensure!(a | b == 0);
""")])
seed("uuid-fmt-ssse3", "C11", "a runtime with SSSE3 but without AVX2, formatting upper case",
 "the simple form has wrong digits", UUN, "-C target-feature=+ssse3,-sse4.1", '''
use uuid_simd::{AsOut, AsciiCase};
fn main() {
    let src: [u8; 16] = core::array::from_fn(|i| (i * 29 + 0x9a) as u8);
    let mut b = [0; 32];
    let r = uuid_simd::format_simple(&src, b.as_out(), AsciiCase::Upper);
    let want: String = src.iter().map(|x| format!("{x:02X}")).collect();
    assert_eq!(r, want.as_bytes());
}
''', [("crates/vsimd/src/simd256.rs", """            let zero = self.v128_create_zero();
            let lo = self.u8x16_zip_lo(a, zero);
            let hi = self.u8x16_zip_hi(a, zero);
            return V256::from_v128x2((lo, hi));""", """            let zero = self.v128_create_zero();
            let (lo, hi) = if matches_isa!(Self, SSE41) {
                (self.u8x16_zip_lo(a, zero), self.u8x16_zip_hi(a, zero))
            } else {
                (self.u8x16_zip_lo(zero, a), self.u8x16_zip_hi(zero, a))
            };
            return V256::from_v128x2((lo, hi));"""),
 ("crates/vsimd/src/simd256.rs", "    fn u16x16_from_u8x16(self, a: V128) -> V256 {\n", "    fn u16x16_from_u8x16(self, a: V128) -> V256 {\n        #[cfg(any(target_arch = \"x86\", target_arch = \"x86_64\"))]\n        use crate::isa::SSE41;\n")])
# ---------------------------------------------------------------- unicode
seed("ascii-bulk-last", "C12", "at least 256 bytes, with a non-ASCII byte only in the last 16 bytes of a 256-byte block",
 "is_ascii and from_ascii accept non-ASCII data", UNI, "", '''
fn main() {
    for n in [255, 256, 300, 512, 1000] { for p in 0..n {
        let mut v = vec![b'a'; n]; v[p] = 0x80;
        assert!(!unicode_simd::is_ascii(&v), "{n} {p}");
        assert!(unicode_simd::from_ascii(&v).is_none());
    } }
}
''', [("crates/unicode-simd/src/ascii.rs", "        let end = src.add(len / 64 * 64);\n        while src < end {\n            let x: [__m128i; 4]", """        let bulk = src.add(len / 256 * 256);
        while src < bulk {
            let x: [__m128i; 16] = loadu(src);
            let mut acc = x[0];
            for &v in &x[1..x.len() - 1] {
                acc = or(acc, v);
            }
            ensure!(check16(acc));
            src = src.add(256);
        }
        len %= 256;

        let end = src.add(len / 64 * 64);
        while src < end {
            let x: [__m128i; 4]""")])
seed("utf32-two-acc", "C13", "two or more 8-unit blocks, an invalid unit in a block of odd index, at AVX2 or SSE4.1 level",
 "the second accumulator takes the minimum, so invalid units are accepted", UNI, "", '''
fn main() {
    for n in 0..80usize { for p in 0..n { for bad in [0xD800u32, 0xDFFF, 0x110000, u32::MAX] {
        let mut v = vec![0x41u32; n]; v[p] = bad;
        assert!(!unicode_simd::is_utf32le(&v), "{n} {p} {bad:x}");
    } } }
}
''', [("crates/unicode-simd/src/utf32.rs", "        y = s.u32x8_max(y, a2);\n\n        src = src.add(8);", """        y = s.u32x8_max(y, a2);
        src = src.add(8);

        if src < end {
            let x = s.v256_load_unaligned(src.cast::<u8>());
            let a1 = s.v256_xor(x, s.u32x8_splat(0xD800));
            let a2 = s.u32x8_sub(a1, s.u32x8_splat(0x800));
            y = s.u32x8_max(y, s.u32x8_min(y, a2));
            src = src.add(8);
        }""")])
seed("swap32-overlap-tail", "C14", "an in-place swap of u32 data whose length is over 8 and not a multiple of 8",
 "the overlapping last vector swaps elements back that were already swapped", UNI, "", '''
fn main() {
    for n in 0..100u32 {
        let v: Vec<u32> = (0..n).map(|i| i * 0x01020304 + 5).collect();
        let mut w = v.clone();
        unicode_simd::utf32_swap_endianness_inplace(&mut w);
        assert!(v.iter().zip(&w).all(|(a, b)| a.swap_bytes() == *b), "{n}");
    }
}
''', [("crates/vsimd/src/bswap.rs", "    let end = src.add(len / T::LANES * T::LANES);\n    while src < end {\n        let x = s.v256_load_unaligned(src.cast());", """    if len > T::LANES && len % T::LANES != 0 {
        // the last vector overlaps the one before it
        let last = len - T::LANES;
        let x = s.v256_load_unaligned(src.add(last).cast());
        let y = <T as BSwap>::swap_simd(s, x);
        s.v256_store_unaligned(dst.add(last).cast(), y);
        len = len / T::LANES * T::LANES;
    }

    let end = src.add(len / T::LANES * T::LANES);
    while src < end {
        let x = s.v256_load_unaligned(src.cast());""")])
# ---------------------------------------------------------------- vsimd, lengths, dispatch, parallel
seed("vsimd-unzip-odd", "C19", "u64x4_unzip_odd on an instruction set without AVX2",
 "the 128-bit halves of the second operand are taken from the wrong halves", VS, "", '''
use vsimd::{isa::{detect, SSE41, SSE2, AVX2}, vector::V256, SIMD256};
fn f<S: SIMD256>(s: S) {
    let a = V256::from_bytes(core::array::from_fn(|i| i as u8)); let b = V256::from_bytes(core::array::from_fn(|i| 32 + i as u8));
    let r = s.u64x4_unzip_odd(a, b);
    let want: [u8; 32] = core::array::from_fn(|i| (i / 8 * 16 + 8 + i % 8) as u8);
    assert_eq!(r.as_bytes(), &want);
}
fn main() { if let Some(s) = detect::<SSE2>() { f(s) } if let Some(s) = detect::<SSE41>() { f(s) } if let Some(s) = detect::<AVX2>() { f(s) } }
''', [("crates/vsimd/src/simd256.rs", "            let ab = self.u64x2_zip_hi(a, b);\n            let cd = self.u64x2_zip_hi(c, d);", "            let ab = self.u64x2_zip_hi(a, b);\n            let cd = self.u64x2_zip_hi(d, c);")])
seed("vsimd-highbit-all", "C21", "u8x32_highbit_all on an instruction set without AVX2, with one half's bits missing",
 "the 256-bit reduction joins the halves with or instead of and", VS, "", '''
use vsimd::{isa::{detect, SSE41, SSE2, AVX2}, vector::V256, SIMD256};
fn f<S: SIMD256>(s: S) {
    for i in 0..32 { let mut a = [0x80u8; 32]; a[i] = 0x7f; assert!(!vsimd::mask::u8x32_highbit_all(s, V256::from_bytes(a)), "{i}"); }
    assert!(vsimd::mask::u8x32_highbit_all(s, V256::from_bytes([0xff; 32])));
}
fn main() { if let Some(s) = detect::<SSE2>() { f(s) } if let Some(s) = detect::<SSE41>() { f(s) } if let Some(s) = detect::<AVX2>() { f(s) } }
''', [("crates/vsimd/src/mask.rs", "        let x = s.v128_and(x.0, x.1);\n        return u8x16_highbit_all(s, x);", "        let x = s.v128_or(x.0, x.1);\n        return u8x16_highbit_all(s, x);")])
seed("ascii-case-upper", "C21", "to_ascii_uppercase on the byte 0x7B ('{')",
 "one character past z is changed too", VS, "", '''
use vsimd::{isa::{detect, SSE2}, vector::V128, SIMD128};
fn main() {
    let s = detect::<SSE2>().unwrap();
    for c in 0..=255u8 {
        let r = vsimd::ascii::to_ascii_uppercase(s, V128::from_bytes([c; 16]));
        assert_eq!(r.as_bytes()[0], c.to_ascii_uppercase(), "{c:x}");
        let r = vsimd::ascii::to_ascii_lowercase(s, V128::from_bytes([c; 16]));
        assert_eq!(r.as_bytes()[0], c.to_ascii_lowercase(), "{c:x}");
    }
    let _ = SIMD128::v128_create_zero(s);
}
''', [("crates/vsimd/src/ascii.rs", "s.i8xn_splat(-0x80 + 26)", "s.i8xn_splat(-0x80 + 26 + (C >> 5) as i8 - 2)")])
seed("b64-est-large", "C23", "estimated_decoded_length of a length just below usize::MAX",
 "the estimate wraps around (a panic in checked builds, far too small otherwise)", B64, "", '''
fn main() {
    for k in 0..64usize {
        let n = usize::MAX - k;
        let e = base64_simd::STANDARD.estimated_decoded_length(n);
        assert!(e as u128 * 4 + 8 >= n as u128 * 3, "{n} {e}");
    }
}
''', [("crates/base64-simd/src/lib.rs", "(n / 4 + (n % 4 != 0) as usize) * 3", "n.wrapping_add(3) / 4 * 3")])
seed("b32-est-exact", "C23", "base32 estimated_decoded_length of a multiple of 8 above 2^32",
 "the estimate is too small", B32, "", '''
fn main() {
    for e in [3u32, 10, 31, 32, 33, 40, 50, 60] { for d in 0..17usize {
        let n = (1usize << e) + d;
        let want = if n % 8 == 0 { n / 8 * 5 } else { (n / 8 + 1) * 5 };
        assert_eq!(base32_simd::BASE32.estimated_decoded_length(n), want, "{n}");
    } }
}
''', [("crates/base32-simd/src/lib.rs", "            n / 8 * 5\n", "            (n as u32 as usize / 8 * 5) + (n >> 35) * (5 << 32)\n")])
seed("par-kind", "C22", "a padded URL-safe par_encode of a large input whose bulk holds a 62 or 63 value",
 "all but the last chunk are encoded with the standard alphabet", [("base64-simd", ["std", "detect", "parallel"])], "", B64ENC + '''
use base64_simd::AsOut;
fn main() {
    let src: Vec<u8> = (0..400_000u32).map(|i| if i % 5 == 0 { 0xfb } else { 0xff }).collect();
    let mut buf = vec![0; 600_000];
    for b in [base64_simd::STANDARD, base64_simd::URL_SAFE, base64_simd::STANDARD_NO_PAD, base64_simd::URL_SAFE_NO_PAD] { for n in [399_999, 400_000, 399_998] {
        let pad = b.encoded_length(1) == 4;
        let r = b.par_encode(&src[..n], buf.as_out()).unwrap();
        assert!(r == &enc(&src[..n], b.charset(), pad)[..], "{b:?} {n}");
    } }
}
''', [("crates/base64-simd/src/parallel.rs", "                kind: self.config.kind,\n                extra: Extra::NoPad,", "                extra: Extra::NoPad,\n                ..crate::STANDARD_NO_PAD.config")], toolchain="nightly-2025-06-20", lock="/verif/native_par/Cargo.lock")
seed("hex-sse2-g", "C18", "at plain SSE2 level, decoding at least 16 characters with a g or G",
 "the SSE2 implementation accepts text that the portable one refuses", HEXN, "", '''
use hex_simd::AsOut;
fn main() {
    for n in (2..100).step_by(2) { for p in 0..n { for c in [b'g', b'G', b'/', b':', b'@', b'`', 0, 0x80, 0xff] {
        let mut v = vec![b'7'; n]; v[p] = c;
        let mut buf = vec![0; n];
        assert!(hex_simd::decode(&v, buf.as_out()).is_err(), "{n} {p} {c:x}");
    } } }
}
''', [("crates/vsimd/src/hex.rs", "s.u8x16_splat(127 - 15)", "s.u8x16_splat(127 - 16)")])
seed("isa-sse41-guard", "C18", "a CPU or build with SSSE3 but without SSE4.1",
 "SSE4.1 code is chosen although only SSSE3 is there", VSN, "-C target-feature=+ssse3,-sse4.1", '''
use vsimd::isa::{detect, SSE2, SSE41, SSSE3, AVX2};
fn main() {
    assert!(detect::<SSE2>().is_some() && detect::<SSSE3>().is_some());
    assert!(detect::<SSE41>().is_none() && detect::<AVX2>().is_none());
}
''', [("crates/vsimd/src/isa.rs", 'x86_is_enabled!("sse4.1")', 'x86_is_enabled!("ssse3")')])
seed("native-avx-guard", "C18", "a CPU or build with AVX but without AVX2",
 "Native::exec runs the closure in a function compiled for AVX2 where only AVX is there", VSN, "-C target-feature=+avx,-avx2", '''
fn main() {
    let s = format!("{:?}", vsimd::native::Native::detect());
    assert!(!s.contains("Avx2"), "{s} chosen without AVX2");
}
''', [("crates/vsimd/src/native.rs", 'if is_feature_detected!("avx2") {', 'if is_feature_detected!("avx") {')])
seed("b32-append-estimate", "C20", "a padded text given to base32 decode_append (or an unpadded one whose length is not a multiple of 8)",
 "the vector grows by the estimated length, so uninitialised bytes follow the decoded ones", B32, "", '''
use base32_simd::*;
fn main() {
    for n in 0..70usize { let v: Vec<u8> = (0..n).map(|i| (i * 37 + 11) as u8).collect();
        for b in [BASE32, BASE32HEX, BASE32_NO_PAD, BASE32HEX_NO_PAD] {
            let t = b.encode_to_string(&v[..]); let mut a = b"ab".to_vec();
            b.decode_append(t.as_bytes(), &mut a).unwrap();
            assert!(a.len() == 2 + n && a[2..] == v[..], "{b:?} {n}");
        } }
}
''', [("crates/base32-simd/src/heap.rs", """    let (n, m) = decoded_length(src, base32.padding)?;

    buf.reserve_exact(m);
    let prev_len = buf.len();
""", """    let (n, _) = decoded_length(src, base32.padding)?;

    let m = base32.estimated_decoded_length(src.len());
    buf.reserve_exact(m);
    let prev_len = buf.len();
""")])
seed("static-ssse3-cfg", "C18", "a build without run-time detection for a target without SSSE3 (the x86-64 default)",
 "base64's and base32's SSSE3 code is called directly although only SSE2 is guaranteed", [("base64-simd", ["std"])], "", '''
fn main() {
    let v: Vec<u8> = (0..100).map(|i| std::env::args().len() as u8 + i).collect();
    assert!(base64_simd::STANDARD.encode_to_string(&v[..]).len() == 136);
    // this program is compiled for SSE2 and nothing in it asks the CPU: no pshufb may be reachable in it
    let exe = std::fs::read("/proc/self/exe").unwrap();
    let pshufb = exe.windows(5).filter(|w| w[0] == 0x66 && (w[1..4] == [0x0f, 0x38, 0x00] || w[1] & 0xf0 == 0x40 && w[2..5] == [0x0f, 0x38, 0x00])).count();
    assert!(pshufb == 0, "{pshufb} SSSE3 instructions in a program compiled for SSE2");
}
''', [("crates/vsimd/src/macros.rs", """            target_feature = "ssse3"
        ))]
        {
            return""", """            any(target_feature = "ssse3", target_feature = "sse2")
        ))]
        {
            return""")])
if __name__ == "__main__":
    for i in sys.argv[1:] or S: mk(i, *S[i][0], **S[i][1]); print(i)
