"""Behaviour-preserving edits of /repo (helpers extracted, loops rewritten, statements reordered): the checks have to stay quiet on each.
refactors.py OUTDIR writes one patch per edit; refactors.py --checks ID prints the checks that see the edited code."""
import sys, os, subprocess, shutil, tempfile
C = "crates/"
B64, B32, HEX, UNI, UUID, VS = (C + x for x in ("base64-simd/src/", "base32-simd/src/", "hex-simd/src/", "unicode-simd/src/", "uuid-simd/src/", "vsimd/src/"))
R = {}
def r(i, checks, *edits): R[i] = (checks, edits)

r("b64-dec-loops", "C02 C16", (B64 + "decode.rs", """    let end = src.add(n / 4 * 4);
    while src < end {
        decode_ascii4::<true>(src, dst, table)?;
        src = src.add(4);
        dst = dst.add(3);
    }
    n %= 4;

    decode_extra::<true>(n, src, dst, table, forgiving)""", """    while n >= 4 {
        decode_ascii4::<true>(src, dst, table)?;
        src = src.add(4);
        dst = dst.add(3);
        n -= 4;
    }

    decode_extra::<true>(n, src, dst, table, forgiving)"""))
r("b64-dec-for", "C02 C15", (B64 + "decode.rs", """    while n >= 38 {
        let x = s.v256_load_unaligned(src);""", """    let rounds = if n >= 38 { (n - 38) / 32 + 1 } else { 0 };
    for _ in 0..rounds {
        let x = s.v256_load_unaligned(src);"""))
r("b64-dec-index", "C02 C04", (B64 + "decode.rs", """    // n*3/4 >= 6+2
    while n >= 11 {
        decode_ascii8::<true>(src, dst, table)?;
        src = src.add(8);
        dst = dst.add(6);
        n -= 8;
    }
""", """    // n*3/4 >= 6+2
    let mut i = 0;
    let mut o = 0;
    while n - i >= 11 {
        decode_ascii8::<true>(src.add(i), dst.add(o), table)?;
        i += 8;
        o += 6;
    }
    src = src.add(i);
    dst = dst.add(o);
    n -= i;
"""))
r("b64-dec-guard", "C02 C03 C15", (B64 + "decode.rs", "    while n >= 38 {", "    while n >= 40 {"), (B64 + "check.rs", "        while n >= 38 {", "        while n >= 32 {"))
r("b64-ascii8-for", "C02 C03", (B64 + "decode.rs", """    let mut y: u64 = 0;
    let mut flag = 0;

    let mut i = 0;
    while i < 8 {
        let x = read(src, i);
        let bits = read(table, x as usize);
        flag |= bits;

        if WRITE {
            y |= (bits as u64) << (58 - i * 6);
        }

        i += 1;
    }
""", """    let mut y: u64 = 0;
    let mut flag = 0;

    for i in 0..8 {
        let bits = read(table, usize::from(read(src, i)));
        if WRITE {
            y = (y << 6) | u64::from(bits);
        }
        flag |= bits;
    }
    y <<= 16;
"""))
r("b64-dlen-helper", "C02 C03 C23", (B64 + "decode.rs", """        let count_pad = || {
            let last1 = *src.get_unchecked(len - 1);
            let last2 = *src.get_unchecked(len - 2);
            if last1 == b'=' {
                if last2 == b'=' {
                    2
                } else {
                    1
                }
            } else {
                0
            }
        };
""", """        let count_pad = || trailing_pads(src);
"""), (B64 + "decode.rs", """#[inline(always)]
pub(crate) fn decoded_length(""", """#[inline]
fn trailing_pads(src: &[u8]) -> usize {
    match src {
        [.., b'=', b'='] => 2,
        [.., b'='] => 1,
        _ => 0,
    }
}

#[inline(always)]
pub(crate) fn decoded_length("""))
r("b64-enc-loops", "C01 C22", (B64 + "encode.rs", """    let end = src.add(len / 3 * 3);
    while src < end {
        encode_bits24(src, dst, charset);
        src = src.add(3);
        dst = dst.add(4);
    }
    len %= 3;
""", """    for _ in 0..len / 3 {
        encode_bits24(src, dst, charset);
        src = src.add(3);
        dst = dst.add(4);
    }
    len %= 3;
"""), (B64 + "encode.rs", """        for _ in 0..2 {
            encode_bits24(src, dst, charset);
            src = src.add(3);
            dst = dst.add(4);
            len -= 3;
        }
""", """        encode_bits48(src, dst, charset);
        src = src.add(6);
        dst = dst.add(8);
        len -= 6;
"""))
r("b64-enc-nounroll", "C01 C16", (B64 + "encode.rs", """    const L: usize = 4;
    while len >= L * 6 + 2 {
        let mut i = 0;
        while i < L {
            encode_bits48(src, dst, charset);
            src = src.add(6);
            dst = dst.add(8);
            i += 1;
        }
        len -= L * 6;
    }
""", ""))
r("b64-enc-extra", "C01 C22", (B64 + "encode.rs", """            write(dst, 0, y1);
            write(dst, 1, y2);
            if padding {
                write(dst, 2, b'=');
                write(dst, 3, b'=');
            }
""", """            if padding {
                dst.cast::<[u8; 4]>().write([y1, y2, b'=', b'=']);
            } else {
                dst.cast::<[u8; 2]>().write([y1, y2]);
            }
"""))
r("b64-check-helper", "C03 C16", (B64 + "check.rs", """        while n >= 4 {
            decode_ascii4::<false>(src, null_mut(), table)?;
            src = src.add(4);
            n -= 4;
        }

        decode_extra::<false>(n, src, null_mut(), table, forgiving)
""", """        check_tail(src, n, table, forgiving)
"""), (B64 + "check.rs", """#[inline(always)]
pub(crate) unsafe fn check_simd""", """#[inline]
unsafe fn check_tail(src: *const u8, n: usize, table: *const u8, forgiving: bool) -> Result<(), Error> {
    let quads = n / 4;
    for k in 0..quads {
        decode_ascii4::<false>(src.add(k * 4), null_mut(), table)?;
    }
    decode_extra::<false>(n - quads * 4, src.add(quads * 4), null_mut(), table, forgiving)
}

#[inline(always)]
pub(crate) unsafe fn check_simd"""))
r("forg-branchless", "C04 C15", (B64 + "ascii.rs", """        if lookup_ascii_whitespace(x) == 0 {
            dst.write(x);
            dst = dst.add(1);
        }
        src = src.add(1);
""", """        src = src.add(1);
        if lookup_ascii_whitespace(x) != 0 {
            continue;
        }
        *dst = x;
        dst = dst.add(1);
"""))
r("forg-index", "C04", (B64 + "ascii.rs", """    let dst_base = dst;

    let end = src.add(len);
    while src < end {
        let x = src.read();
        if lookup_ascii_whitespace(x) == 0 {
            dst.write(x);
            dst = dst.add(1);
        }
        src = src.add(1);
    }

    dst.offset_from(dst_base) as usize
""", """    let mut kept = 0;
    for i in 0..len {
        let x = src.add(i).read();
        if lookup_ascii_whitespace(x) == 0 {
            dst.add(kept).write(x);
            kept += 1;
        }
    }
    kept
"""), (B64 + "ascii.rs", "remove_ascii_whitespace_fallback(mut src: *const u8, len: usize, mut dst: *mut u8)", "remove_ascii_whitespace_fallback(src: *const u8, len: usize, dst: *mut u8)"))
r("forg-find-index", "C04", (B64 + "ascii.rs", """    let base = src;
    let end = base.add(len);
    while src < end {
        if lookup_ascii_whitespace(src.read()) != 0 {
            break;
        }
        src = src.add(1);
    }

    src.offset_from(base) as usize
""", """    let mut pos = 0;
    while pos < len && lookup_ascii_whitespace(src.add(pos).read()) == 0 {
        pos += 1;
    }
    pos
"""), (B64 + "ascii.rs", "find_non_ascii_whitespace_short(mut src", "find_non_ascii_whitespace_short(src"))
r("forg-find-iter", "C04", (B64 + "ascii.rs", """    let base = src;
    let end = base.add(len);
    while src < end {
        if lookup_ascii_whitespace(src.read()) != 0 {
            break;
        }
        src = src.add(1);
    }

    src.offset_from(base) as usize
""", """    let bytes = core::slice::from_raw_parts(src, len);
    bytes.iter().position(|&c| lookup_ascii_whitespace(c) != 0).unwrap_or(len)
"""), (B64 + "ascii.rs", "find_non_ascii_whitespace_short(mut src", "find_non_ascii_whitespace_short(src"))
r("forg-copy", "C04 C17", (B64 + "forgiving.rs", """        copy_nonoverlapping(src, dst, pos);

        let rem = remove_ascii_whitespace_fallback(src.add(pos), len - pos, dst.add(pos));
        debug_assert!(rem <= len - pos);

        let data = slice_mut(dst, pos + rem);
        STANDARD_FORGIVING.decode_inplace(data)
    }
}
""", """        let data = squeeze(src, len, pos, dst);
        STANDARD_FORGIVING.decode_inplace(data)
    }
}

#[inline]
unsafe fn squeeze<'a>(src: *const u8, len: usize, pos: usize, dst: *mut u8) -> &'a mut [u8] {
    copy_nonoverlapping(src, dst, pos);
    let rem = remove_ascii_whitespace_fallback(src.add(pos), len - pos, dst.add(pos));
    debug_assert!(pos + rem <= len);
    slice_mut(dst, pos + rem)
}
"""))
r("b32-dec-index", "C08 C16", (B32 + "decode.rs", """    let end = src.add(n / 8 * 8);
    while src < end {
        let (u40, flag) = decode_bits::<8>(src, table);
        ensure!(flag != 0xff);
        write_be_bytes::<5>(dst, u40);
        src = src.add(8);
        dst = dst.add(5);
    }
    n %= 8;
""", """    while n >= 8 {
        let (u40, flag) = decode_bits::<8>(src, table);
        if flag == 0xff {
            return Err(Error::new());
        }
        write_be_bytes::<5>(dst, u40);
        n -= 8;
        src = src.add(8);
        dst = dst.add(5);
    }
"""))
r("b32-bits-for", "C08 C09", (B32 + "decode.rs", """    let mut i = 0;
    while i < N {
        let bits = read(table, read(src, i) as usize);
        flag |= bits;
        ans = (ans << 5) | u64::from(bits);
        i += 1;
    }
    (ans, flag)""", """    for i in 0..N {
        let bits = read(table, read(src, i) as usize);
        ans = (ans << 5) | u64::from(bits);
        flag |= bits;
    }
    (ans, flag)"""))
r("b32-dlen", "C09 C23", (B32 + "decode.rs", """        let last = unsafe { data.get_unchecked(len - 6..) };
        let count = last.iter().copied().filter(|&x| x == b'=').count();
        len - count""", """        let mut count = 0;
        for &x in &data[len - 6..] {
            if x == b'=' {
                count += 1;
            }
        }
        len - count"""))
r("b32-enc-for", "C07", (B32 + "encode.rs", """    let end = src.add(len / 5 * 5);
    while src < end {
        let u40 = read_be_bytes::<5>(src);
        encode_bits::<8>(dst, charset, u40);
        src = src.add(5);
        dst = dst.add(8);
    }
    len %= 5;
""", """    let blocks = len / 5;
    for k in 0..blocks {
        let u40 = read_be_bytes::<5>(src.add(5 * k));
        encode_bits::<8>(dst.add(8 * k), charset, u40);
    }
    src = src.add(5 * blocks);
    dst = dst.add(8 * blocks);
    len -= 5 * blocks;
"""))
r("hex-check-iter", "C06", (HEX + "check.rs", """    let mut flag = 0;
    let end = src.add(len);
    while src < end {
        let x = src.read();
        flag |= unhex(x);
        src = src.add(1);
    }
    ensure!(flag != 0xff);
    Ok(())""", """    let data = core::slice::from_raw_parts(src, len);
    let flag = data.iter().fold(0, |flag, &x| flag | unhex(x));
    ensure!(flag != 0xff);
    Ok(())"""), (HEX + "check.rs", "unsafe fn check_short(mut src", "unsafe fn check_short(src"))
r("hex-check-all", "C06", (HEX + "check.rs", """    let end = src.add(len);
    while src < end {
        let x = src.read();
        ensure!(unhex(x) != 0xff);
        src = src.add(1);
    }
    Ok(())""", """    let data = core::slice::from_raw_parts(src, len);
    ensure!(data.iter().all(|&x| unhex(x) != 0xff));
    Ok(())"""), (HEX + "check.rs", "unsafe fn check_short_sc(mut src", "unsafe fn check_short_sc(src"))
r("hex-dec-long", "C06", (HEX + "decode.rs", """        let mut flag = 0;
        let mut i = 0;
        while i < 8 {
            flag |= decode_bits(src, dst);
            src = src.add(2);
            dst = dst.add(1);
            i += 1;
        }
        ensure!(flag != 0xff);
    }
    decode_short::<Fallback>(src, len % 16, dst)""", """        let mut flag = 0;
        for i in 0..8 {
            flag |= decode_bits(src.add(2 * i), dst.add(i));
        }
        src = src.add(16);
        dst = dst.add(8);
        ensure!(flag != 0xff);
    }
    decode_short::<Fallback>(src, len % 16, dst)"""))
r("hex-dec-32", "C06", (HEX + "decode.rs", """    let end = src.add(len / 64 * 64);
    while src < end {
        let x0 = s.v256_load_unaligned(src);
        src = src.add(32);

        let x1 = s.v256_load_unaligned(src);
        src = src.add(32);

        let x = (x0, x1);
        let y = try_!(vsimd::hex::decode_ascii32x2(s, x));
        s.v256_store_unaligned(dst, y);
        dst = dst.add(32);
    }
    len %= 64;
""", """    while len >= 32 {
        decode32(s, src, dst)?;
        src = src.add(32);
        dst = dst.add(16);
        len -= 32;
    }
"""))
r("hex-enc-special", "C05", (HEX + "encode.rs", """    if len == 16 {
        let x = s.v128_load_unaligned(src);
        let y = vsimd::hex::encode_bytes16(s, x, lut);
        s.v256_store_unaligned(dst, y);
        return;
    }

""", ""), (HEX + "encode.rs", """    while src < end {
        let mut i = 0;
        while i < 8 {
            encode_bits(src, dst, charset);
            src = src.add(1);
            dst = dst.add(2);
            i += 1;
        }
    }
    encode_short(src, len % 8, dst, charset);""", """    while src < end {
        encode_short(src, 8, dst, charset);
        src = src.add(8);
        dst = dst.add(16);
    }
    encode_short(src, len % 8, dst, charset);"""))
r("hex-enc-zip", "C05", (HEX + "encode.rs", """    let end = src.add(len);
    while src < end {
        encode_bits(src, dst, charset);
        src = src.add(1);
        dst = dst.add(2);
    }""", """    let data = core::slice::from_raw_parts(src, len);
    for (i, x) in data.iter().enumerate() {
        encode_bits(x, dst.add(2 * i), charset);
    }"""), (HEX + "encode.rs", "unsafe fn encode_short(mut src: *const u8, len: usize, mut dst", "unsafe fn encode_short(src: *const u8, len: usize, dst"))
r("uni-ascii-for", "C12", (UNI + "ascii.rs", """    let mut ans = 0;
    let end = src.add(len);
    while src < end {
        ans |= src.read();
        src = src.add(1);
    }
    ans < 0x80""", """    for i in 0..len {
        if src.add(i).read() >= 0x80 {
            return false;
        }
    }
    true"""), (UNI + "ascii.rs", "pub unsafe fn is_ascii_fallback(mut src", "pub unsafe fn is_ascii_fallback(src"))
r("uni-ascii-long", "C12 C15", (UNI + "ascii.rs", """        let end = src.add(len / 64 * 64);
        while src < end {
            let x: [__m128i; 4] = loadu(src);
            ensure!(check16(or(or(x[0], x[1]), or(x[2], x[3]))));
            src = src.add(64);
        }
        len %= 64;
        if len == 0 {
            return true;
        }
""", """        while len >= 64 {
            let x: [__m128i; 4] = loadu(src);
            ensure!(check16(or(or(x[0], x[1]), or(x[2], x[3]))));
            src = src.add(64);
            len -= 64;
        }
"""))
r("uni-utf32-early", "C13", (UNI + "utf32.rs", """    let mut flag = true;

    let end = src.add(len);
    while src < end {
        let x = src.read();
        flag &= is_unicode_scalar_value(x);
        src = src.add(1);
    }

    flag""", """    let end = src.add(len);
    while src < end {
        if !is_unicode_scalar_value(src.read()) {
            return false;
        }
        src = src.add(1);
    }

    true"""), (UNI + "utf32.rs", "    (x ^ 0xD800).wrapping_sub(0x800) < (0x11_0000 - 0x800)", "    x < 0xD800 || (0xE000..0x11_0000).contains(&x)"))
r("uni-utf32-early-simd", "C13", (UNI + "utf32.rs", """    len %= 8;

    let m = s.u32x8_splat(0x11_0000 - 0x800 - 1);
    let mut ans = s.v256_all_zero(s.u32x8_lt(m, y));

    ans &= is_utf32le_fallback(src, len);
    ans""", """    len %= 8;

    let m = s.u32x8_splat(0x11_0000 - 0x800 - 1);
    s.v256_all_zero(s.u32x8_lt(m, y)) && is_utf32le_fallback(src, len)"""))
r("bswap-for", "C14", (VS + "bswap.rs", """    let end = src.add(len);
    while src < end {
        let x = src.read();
        let y = <T as BSwap>::swap_single(x);
        dst.write(y);
        src = src.add(1);
        dst = dst.add(1);
    }""", """    for i in 0..len {
        dst.add(i).write(<T as BSwap>::swap_single(src.add(i).read()));
    }"""), (VS + "bswap.rs", "pub unsafe fn bswap_fallback<T>(mut src: *const T, len: usize, mut dst", "pub unsafe fn bswap_fallback<T>(src: *const T, len: usize, dst"))
r("bswap-count", "C14 C16", (VS + "bswap.rs", """    let end = src.add(len / T::LANES * T::LANES);
    while src < end {
        let x = s.v256_load_unaligned(src.cast());
        let y = <T as BSwap>::swap_simd(s, x);
        s.v256_store_unaligned(dst.cast(), y);
        src = src.add(T::LANES);
        dst = dst.add(T::LANES);
    }
    len %= T::LANES;
""", """    while len >= T::LANES {
        let x = s.v256_load_unaligned(src.cast());
        s.v256_store_unaligned(dst.cast(), <T as BSwap>::swap_simd(s, x));
        len -= T::LANES;
        src = src.add(T::LANES);
        dst = dst.add(T::LANES);
    }
"""))
r("uuid-parse-loops", "C10", (UUID + "parse.rs", """    match [read(src, 8), read(src, 13), read(src, 18), read(src, 23)] {
        [b'-', b'-', b'-', b'-'] => {}
        _ => return Err(Error::new()),
    }

    let mut flag = 0;
    let positions""", """    for i in [8, 13, 18, 23] {
        ensure!(read(src, i) == b'-');
    }

    let mut flag = 0;
    let positions"""))
r("uuid-fmt-flat", "C11", (UUID + "format.rs", """    let groups = [(0, 8), (9, 13), (14, 18), (19, 23), (24, 36)];

    let mut g = 0;
    let mut i = 0;
    while g < 5 {
        let (start, end) = groups[g];

        let mut j = start;
        while j < end {
            let x = read(src, i);
            i += 1;

            let hi = read(lut, (x >> 4) as usize);
            let lo = read(lut, (x & 0x0f) as usize);
            write(dst, j, hi);
            write(dst, j + 1, lo);
            j += 2;
        }

        if g < 4 {
            write(dst, end, b'-');
        }

        g += 1;
    }""", """    let mut j = 0;
    for i in 0..16 {
        if matches!(i, 4 | 6 | 8 | 10) {
            write(dst, j, b'-');
            j += 1;
        }
        let x = read(src, i);
        write(dst, j, read(lut, (x >> 4) as usize));
        write(dst, j + 1, read(lut, (x & 0x0f) as usize));
        j += 2;
    }"""))
r("b64-heap-vec", "C17", (B64 + "heap.rs", """        let mut buf = alloc_uninit_bytes(m);

        {
            let (src, len) = slice_parts(data);
            let dst: *mut u8 = buf.as_mut_ptr().cast();
            crate::multiversion::encode::auto(src, len, dst, base64.config);
        }

        boxed_str(assume_init(buf))""", """        let mut buf = Vec::<u8>::with_capacity(m);
        let (src, len) = slice_parts(data);
        crate::multiversion::encode::auto(src, len, buf.as_mut_ptr(), base64.config);
        buf.set_len(m);

        boxed_str(buf.into_boxed_slice())"""))
r("b64-append-helper", "C17 C15", (B64 + "heap.rs", """        buf.reserve_exact(m);
        let prev_len = buf.len();

        {
            let (src, len) = slice_parts(src);
            let dst = buf.as_mut_ptr().add(prev_len);
            crate::multiversion::encode::auto(src, len, dst, base64.config);
        }

        buf.set_len(prev_len + m);
    }
}
""", """        let prev_len = buf.len();
        let dst = spare(buf, m);
        crate::multiversion::encode::auto(src.as_ptr(), src.len(), dst, base64.config);
        buf.set_len(prev_len + m);
    }
}

#[inline]
fn spare(buf: &mut Vec<u8>, additional: usize) -> *mut u8 {
    buf.reserve(additional);
    buf.spare_capacity_mut().as_mut_ptr().cast()
}
"""))
r("b64-decvec", "C17", (B64 + "heap.rs", """        let ans = decode_to_boxed_bytes(base64, data)?;
        Ok(Vec::from(ans))""", """        decode_to_boxed_bytes(base64, data).map(<[u8]>::into_vec)"""))
r("par-chunks", "C22", (B64 + "parallel.rs", "        let chunks = (b + p) / p;", "        let chunks = (b + p - 1) / p;"))
r("par-helper", "C22", (B64 + "parallel.rs", """            src_chunks.zip(dst_chunks).for_each(|(s, d)| unsafe {
                let len = s.len();
                let sp = s.as_ptr();
                let dp = d.as_mut_ptr().cast::<u8>();
                if len % 3 == 0 {
                    crate::multiversion::encode::auto(sp, len, dp, no_pad);
                } else {
                    crate::multiversion::encode::auto(sp, len, dp, self.config);
                }
            });""", """            src_chunks.zip(dst_chunks).for_each(|(s, d)| {
                let config = if s.len() % 3 == 0 { no_pad } else { self.config };
                unsafe { crate::multiversion::encode::auto(s.as_ptr(), s.len(), d.as_mut_ptr().cast::<u8>(), config) };
            });"""))
r("api-encode", "C01 C15", (B64 + "lib.rs", """            let m = encoded_length_unchecked(src.len(), self.config);
            ensure!(dst.len() >= m);

            let (src, len) = slice_parts(src);
            let dst = dst.as_mut_ptr();
            self::multiversion::encode::auto(src, len, dst, self.config);

            Ok(slice_mut(dst, m))""", """            let (src, len) = slice_parts(src);
            let m = encoded_length_unchecked(len, self.config);
            if m > dst.len() {
                return Err(Error::new());
            }

            let out = slice_mut(dst.as_mut_ptr(), m);
            self::multiversion::encode::auto(src, len, out.as_mut_ptr(), self.config);
            Ok(out)"""))
r("vs-checkxn", "C06 C21 C10", (VS + "hex.rs", """    let x1 = s.u8xn_sub(x, s.u8xn_splat(0x30 + 0x80));
    let x2 = s.u8xn_sub(s.and(x, s.u8xn_splat(0xdf)), s.u8xn_splat(0x41 + 0x80));
    let m1 = s.i8xn_lt(x1, s.i8xn_splat(-118));
    let m2 = s.i8xn_lt(x2, s.i8xn_splat(-122));
    s.mask8xn_all(s.or(m1, m2))""", """    let digit = in_range(s, x, 0x30, 10);
    let letter = in_range(s, s.or(x, s.u8xn_splat(0x20)), 0x61, 6);
    s.mask8xn_all(s.or(digit, letter))"""), (VS + "hex.rs", """#[inline(always)]
pub fn check_xn<S, V>""", """#[inline(always)]
fn in_range<S, V>(s: S, x: V, start: u8, count: i8) -> V
where
    S: Scalable<V>,
    V: POD,
{
    let shifted = s.u8xn_sub(x, s.u8xn_splat(start + 0x80));
    s.i8xn_lt(shifted, s.i8xn_splat(-128 + count))
}

#[inline(always)]
pub fn check_xn<S, V>"""))
r("vs-mask", "C19 C06", (VS + "mask.rs", """    if matches_isa!(S, SSE2 | WASM128 | NEON) {
        let x = x.to_v128x2();
        let x = s.v128_and(x.0, x.1);
        return mask8x16_all(s, x);
    }
    unreachable!()
}

#[inline(always)]
pub fn mask8x16_any""", """    if matches_isa!(S, SSE2 | WASM128 | NEON) {
        let (lo, hi) = x.to_v128x2();
        return mask8x16_all(s, lo) && mask8x16_all(s, hi);
    }
    unreachable!()
}

#[inline(always)]
pub fn mask8x16_any"""))
r("vs-case", "C21", (VS + "ascii.rs", """    let x1 = s.u8xn_sub(x, s.u8xn_splat(C + 0x80));
    let x2 = s.i8xn_lt(x1, s.i8xn_splat(-0x80 + 26));
    let x3 = s.and(x2, s.u8xn_splat(0x20));
    s.xor(x, x3)""", """    let x1 = s.u8xn_add(x, s.u8xn_splat(0x80 - C));
    let x2 = s.i8xn_lt(x1, s.i8xn_splat(-0x80 + 26));
    let x3 = s.and(x2, s.u8xn_splat(0x20));
    s.u8xn_sub(s.u8xn_add(x, x3), s.u8xn_add(s.and(x, x3), s.and(x, x3)))"""))
r("vs-tools", "C01 C05", (VS + "tools.rs", "    base.add(offset).read()\n", "    *base.add(offset)\n"), (VS + "tools.rs", "pub unsafe fn read<T>(", "pub unsafe fn read<T: Copy>("), (VS + "tools.rs", "    let len = slice.len();\n    let ptr = slice.as_ptr();\n    (ptr, len)", "    (slice.as_ptr(), slice.len())"))
r("b64-enc-chunks", "C01", (B64 + "encode.rs", """    let end = src.add(len / 3 * 3);
    while src < end {
        encode_bits24(src, dst, charset);
        src = src.add(3);
        dst = dst.add(4);
    }
    len %= 3;
""", """    let body = core::slice::from_raw_parts(src, len / 3 * 3);
    for chunk in body.chunks_exact(3) {
        encode_bits24(chunk.as_ptr(), dst, charset);
        dst = dst.add(4);
    }
    src = src.add(len / 3 * 3);
    len %= 3;
"""))
r("b64-check-chunks", "C03", (B64 + "check.rs", """        while n >= 4 {
            decode_ascii4::<false>(src, null_mut(), table)?;
            src = src.add(4);
            n -= 4;
        }
""", """        for quad in core::slice::from_raw_parts(src, n).chunks_exact(4) {
            decode_ascii4::<false>(quad.as_ptr(), null_mut(), table)?;
            src = src.add(4);
            n -= 4;
        }
"""))
r("uni-ascii-iter", "C12", (UNI + "ascii.rs", """    let mut ans = 0;
    let end = src.add(len);
    while src < end {
        ans |= src.read();
        src = src.add(1);
    }
    ans < 0x80""", """    core::slice::from_raw_parts(src, len).iter().all(u8::is_ascii)"""), (UNI + "ascii.rs", "pub unsafe fn is_ascii_fallback(mut src", "pub unsafe fn is_ascii_fallback(src"))
r("uni-ascii-fold", "C12", (UNI + "ascii.rs", """    let mut ans = 0;
    let end = src.add(len);
    while src < end {
        ans |= src.read();
        src = src.add(1);
    }
    ans < 0x80""", """    core::slice::from_raw_parts(src, len).iter().fold(0, |acc, x| acc | x) < 0x80"""), (UNI + "ascii.rs", "pub unsafe fn is_ascii_fallback(mut src", "pub unsafe fn is_ascii_fallback(src"))
r("uni-utf32-iter", "C13", (UNI + "utf32.rs", """    let mut flag = true;

    let end = src.add(len);
    while src < end {
        let x = src.read();
        flag &= is_unicode_scalar_value(x);
        src = src.add(1);
    }

    flag""", """    core::slice::from_raw_parts(src, len).iter().all(|&x| is_unicode_scalar_value(x))"""), (UNI + "utf32.rs", "pub unsafe fn is_utf32le_fallback(mut src", "pub unsafe fn is_utf32le_fallback(src"))
r("uni-utf32-loop", "C13", (UNI + "utf32.rs", """    let end = src.add(len / 8 * 8);
    while src < end {
        let x""", """    while len >= 8 {
        let x"""), (UNI + "utf32.rs", """        src = src.add(8);
    }
    len %= 8;
""", """        src = src.add(8);
        len -= 8;
    }
"""))
r("hex-dec-zip", "C06", (HEX + "decode.rs", """        let end = src.add(len);
        let mut flag = 0;
        while src < end {
            flag |= decode_bits(src, dst);
            src = src.add(2);
            dst = dst.add(1);
        }
        ensure!(flag != 0xff);
        Ok(())""", """        let mut flag = 0;
        for i in 0..len / 2 {
            flag |= decode_bits(src.add(i * 2), dst.add(i));
        }
        if flag == 0xff {
            Err(Error::new())
        } else {
            Ok(())
        }"""))
r("hex-check-tail", "C06", (HEX + "check.rs", """        if len == 16 {
            let x = s.v128_load_unaligned(src);
            ensure!(vsimd::hex::check_xn(s, x));
            return Ok(());
        }

        let end = src.add(len / 32 * 32);
        while src < end {
            let x = s.v256_load_unaligned(src);
            ensure!(vsimd::hex::check_xn(s, x));
            src = src.add(32);
        }
        len %= 32;

        if len == 0 {
            return Ok(());
        }

        if len >= 16 {
            let x = s.v128_load_unaligned(src);
            ensure!(vsimd::hex::check_xn(s, x));
            len -= 16;
            src = src.add(16);
        }
""", """        let mut rest = len;
        while rest >= 32 {
            let x = s.v256_load_unaligned(src.add(len - rest));
            ensure!(vsimd::hex::check_xn(s, x));
            rest -= 32;
        }
        if rest > 0 && len >= 32 {
            // overlaps the previous vector
            let x = s.v256_load_unaligned(src.add(len - 32));
            ensure!(vsimd::hex::check_xn(s, x));
            return Ok(());
        }
        src = src.add(len - rest);
        len = rest;
"""))
r("b32-chk-fold", "C09", (B32 + "check.rs", """    let end = src.add(len / 8 * 8);
    while src < end {
        let (_, flag) = decode_bits::<8>(src, table);
        ensure!(flag != 0xff);
        src = src.add(8);
    }
    len %= 8;
""", """    let mut all = 0;
    while len >= 8 {
        let (_, flag) = decode_bits::<8>(src, table);
        all |= flag;
        src = src.add(8);
        len -= 8;
    }
    ensure!(all != 0xff);
"""))
r("uuid-fmt-pos", "C11", (UUID + "format.rs", """    for i in 0..16 {
        let x = read(src, i);
        let hi = read(lut, (x >> 4) as usize);
        let lo = read(lut, (x & 0x0f) as usize);
        write(dst, i * 2, hi);
        write(dst, i * 2 + 1, lo);
    }""", """    let bytes = src.cast::<[u8; 16]>().read();
    for (i, x) in bytes.iter().enumerate() {
        let pair = [read(lut, usize::from(x >> 4)), read(lut, usize::from(x % 16))];
        dst.add(i * 2).cast::<[u8; 2]>().write(pair);
    }"""))
r("uuid-parse-table", "C10", (UUID + "parse.rs", """    let mut flag = 0;
    for i in 0..16 {
        let h1 = unhex(read(src, i * 2));
        let h2 = unhex(read(src, i * 2 + 1));
        flag |= h1 | h2;
        write(dst, i, shl4(h1) | h2);
    }
    ensure!(flag != 0xff);
    Ok(())""", """    let mut bytes = [0u8; 16];
    for (i, b) in bytes.iter_mut().enumerate() {
        let h1 = unhex(read(src, i * 2));
        let h2 = unhex(read(src, i * 2 + 1));
        ensure!(h1 | h2 != 0xff);
        *b = shl4(h1) | h2;
    }
    dst.cast::<[u8; 16]>().write(bytes);
    Ok(())"""))
def write(outdir):
    os.makedirs(outdir, exist_ok=True)
    for i, (ch, edits) in R.items():
        d = tempfile.mkdtemp(); out = ""
        files = {}
        for f, a, b in edits:
            s = files.get(f) or open("/repo/" + f).read()
            assert s.count(a) >= 1, (i, f, a[:60]); files[f] = s.replace(a, b, 1)
        for f, s in files.items():
            p = os.path.join(d, f); os.makedirs(os.path.dirname(p)); open(p, "w").write(s) if not os.path.exists(p) else None
            q = subprocess.run(["diff", "-u", "--label", "a/" + f, "--label", "b/" + f, "/repo/" + f, p], stdout=subprocess.PIPE, text=True); out += q.stdout
            shutil.rmtree(os.path.join(d, "crates"))
        shutil.rmtree(d); open(os.path.join(outdir, i + ".diff"), "w").write(out)
if __name__ == "__main__":
    if sys.argv[1] == "--checks": print(R[sys.argv[2]][0])
    elif sys.argv[1] == "--list": print("\n".join(R))
    else: write(sys.argv[1])
