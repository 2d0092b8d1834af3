"""Contracts of the vector operations of vsimd: one Rust wrapper per operation and instruction-set level, and its exact
lane-wise meaning.  Every wrapper has the shape fn(i: *const u8, o: *mut u8): operands are read from i in order, results written to o in order.
Run as a program, it prints vops/src/ops.rs (with the argument neon or wasm: ops_neon.rs, ops_wasm.rs)."""
import os, json, sys, re
HERE = os.path.dirname(os.path.abspath(__file__))
ISAS = {"sse2": "SSE2", "ssse3": "SSSE3", "sse41": "SSE41", "avx2": "AVX2"}
TF = {"sse2": None, "ssse3": "ssse3", "sse41": "sse4.1", "avx2": "avx2", "neon": None, "wasm": "simd128"}
CROSS = {"neon": "NEON", "wasm": "WASM128"}   # levels of other architectures (cross-compiled)
SZ = {"v": 16, "w": 32, "h": 8, "z": 64, "u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "bool": 1, "a16": 16, "a32": 32, "lut": 16}
RT = {"v": "V128", "w": "V256", "h": "V64", "z": "V512", "a16": "[u8; 16]", "a32": "[u8; 32]"}
OPS = []          # (name, rust expression, argument kinds, result kinds, spec, pre, property, opts)
def op(name, expr, args, res, spec, pre=None, prop="C19", **k): OPS.append((name, expr, args.split(), res.split(), spec, pre, prop, k))

# ---- terms (imported lazily, so that the generator needs no solver)
def T_():
    global t
    import term as t
def lanes(x, w): return [t.ext(x, i, w) for i in range(0, x.w, w)]
def lw(w, f): return lambda *a: t.cat([f(*q) for q in zip(*[lanes(x, w) for x in a])])
def mask(c, w): return t.ite(c, t.C(w, -1), t.C(w, 0))
def sat_s(x, w): return t.ext(t.ite(t.slt(x, t.C(x.w, -(1 << (w - 1)))), t.C(x.w, -(1 << (w - 1))), t.ite(t.slt(t.C(x.w, (1 << (w - 1)) - 1), x), t.C(x.w, (1 << (w - 1)) - 1), x)), 0, w)
def sat_u(x, w): return t.ext(t.ite(t.slt(x, t.C(x.w, 0)), t.C(x.w, 0), t.ite(t.slt(t.C(x.w, (1 << w) - 1), x), t.C(x.w, (1 << w) - 1), x)), 0, w)
def ubin(w, f): return lw(w, lambda a, b: f(t.zext(a, 2 * w), t.zext(b, 2 * w)))
def sbin(w, f): return lw(w, lambda a, b: f(t.sext(a, 2 * w), t.sext(b, 2 * w)))
def lut16(tb, i):
    """tb: 16 byte terms; i: 4-bit index"""
    l = list(tb)
    for k in range(4):
        b = t.ext(i, k, 1); l = [t.ite(b, l[2 * j + 1], l[2 * j]) for j in range(len(l) // 2)]
    return l[0]
def pshufb(a, b):
    """within each 16-byte half: 0 where the selector's high bit is set, else the byte its low four bits select"""
    A, B = lanes(a, 8), lanes(b, 8)
    return t.cat([t.ite(t.ext(q, 7, 1), t.C(8, 0), lut16(A[i // 16 * 16:i // 16 * 16 + 16], t.ext(q, 0, 4))) for i, q in enumerate(B)])
def tbl32(a, b):
    """the byte of the whole 32-byte table that the selector names, or 0"""
    A = lanes(a, 8)
    return t.cat([t.ite(t.ult(q, t.C(8, 32)), t.ite(t.ext(q, 4, 1), lut16(A[16:], t.ext(q, 0, 4)), lut16(A[:16], t.ext(q, 0, 4))), t.C(8, 0)) for q in lanes(b, 8)])
def sel_ok(a, b):
    """a selector in the range on which all instruction sets agree: below 16, or with the high bit set"""
    return [t.OR(t.ult(q, t.C(8, 16)), hib(q)) for q in lanes(b, 8)]
def rev(n): return lw(n, lambda x: t.cat(lanes(x, 8)[::-1]))
def zip_(w, hi, half=True):
    def f(a, b):
        out = []
        for h in range(0, a.w, 128):
            x, y = lanes(t.ext(a, h, 128), w), lanes(t.ext(b, h, 128), w); n = len(x) // 2; o = n if hi else 0
            for i in range(n): out += [x[o + i], y[o + i]]
        return t.cat(out)
    return f
def bits1(x): return t.cat([t.ext(q, 7, 1) for q in lanes(x, 8)])
class Verdict:
    """a yes/no answer over lanes: all (or any) of the given 1-bit terms"""
    def __init__(s, parts, neg): s.parts = parts; s.neg = neg      # neg: the answer is the negation of the conjunction
    def term(s): r = t.ANDS(s.parts); return t.bnot1(r) if s.neg else r
def any_(l): return Verdict([t.bnot1(c) for c in l], True)
def all_(l): return Verdict(list(l), False)
def isz(q): return t.eq(q, t.C(q.w, 0))
def hib(q): return t.ext(q, 7, 1)
def is_mask(x): return [t.OR(t.eq(q, t.C(8, 0)), t.eq(q, t.C(8, 255))) for q in lanes(x, 8)]
def cmp_(s, w):
    f = t.ult if s == "u" else t.slt
    return f
def build():
    for W, n, R in ((128, 16, "v"), (256, 32, "w")):
        S = lambda b: W // b
        q = "x2" if W == 256 else ""
        def bi(name, spec): op(name, f"s.{name}(A0, A1)", f"{R} {R}", R, spec)
        op(f"v{W}_load", f"s.v{W}_load(i)", "", R, None, raw=(n, "load"), align=n)
        op(f"v{W}_load_unaligned", f"s.v{W}_load_unaligned(i)", "", R, None, raw=(n, "load"), align=1)
        op(f"v{W}_store", f"s.v{W}_store(o, A0)", R, "", None, raw=(n, "store"), align=n)
        op(f"v{W}_store_unaligned", f"s.v{W}_store_unaligned(o, A0)", R, "", None, raw=(n, "store"), align=1)
        op(f"v{W}_create_zero", f"s.v{W}_create_zero()", "", R, lambda W=W: t.C(W, 0))
        op(f"v{W}_not", f"s.v{W}_not(A0)", R, R, lambda a: t.NOT(a))
        bi(f"v{W}_and", lambda a, b: t.AND(a, b)); bi(f"v{W}_or", lambda a, b: t.OR(a, b)); bi(f"v{W}_xor", lambda a, b: t.XOR(a, b))
        bi(f"v{W}_andnot", lambda a, b: t.AND(a, t.NOT(b)))
        op(f"v{W}_all_zero", f"s.v{W}_all_zero(A0)", R, "bool", lambda a: all_([isz(x) for x in lanes(a, 8)]))
        for s in "ui":
            for b in (8, 16, 32, 64): op(f"{s}{b}x{S(b)}_splat", f"s.{s}{b}x{S(b)}_splat(A0)", f"{s}{b}", R, lambda x, k=S(b): t.cat([x] * k))
        for b in (8, 16, 32, 64):
            bi(f"u{b}x{S(b)}_add", lw(b, lambda a, c: t.add(a, c))); bi(f"u{b}x{S(b)}_sub", lw(b, lambda a, c: t.sub(a, c)))
        for b in (8, 16):
            bi(f"u{b}x{S(b)}_sub_sat", ubin(b, lambda x, y, b=b: sat_u(t.sub(x, y), b))); bi(f"i{b}x{S(b)}_sub_sat", sbin(b, lambda x, y, b=b: sat_s(t.sub(x, y), b)))
        bi(f"u8x{n}_add_sat", ubin(8, lambda x, y: sat_u(t.add(x, y), 8))); bi(f"i8x{n}_add_sat", sbin(8, lambda x, y: sat_s(t.add(x, y), 8)))
        for b in (16, 32): bi(f"i{b}x{S(b)}_mul_lo", lw(b, lambda x, y: t.mul(x, y)))
        bi(f"u16x{S(16)}_mul_hi", ubin(16, lambda x, y: t.ext(t.mul(x, y), 16, 16))); bi(f"i16x{S(16)}_mul_hi", sbin(16, lambda x, y: t.ext(t.mul(x, y), 16, 16)))
        def maddubs(a, b):
            A, B = lanes(a, 8), lanes(b, 8); out = []
            for i in range(0, len(A), 2):
                p = t.add(t.mul(t.zext(A[i], 32), t.sext(B[i], 32)), t.mul(t.zext(A[i + 1], 32), t.sext(B[i + 1], 32))); out.append(sat_s(p, 16))
            return t.cat(out)
        bi(f"i16x{S(16)}_maddubs", maddubs)
        def madd(a, b):
            A, B = lanes(a, 16), lanes(b, 16)
            return t.cat([t.add(t.mul(t.sext(A[i], 32), t.sext(B[i], 32)), t.mul(t.sext(A[i + 1], 32), t.sext(B[i + 1], 32))) for i in range(0, len(A), 2)])
        bi(f"i16x{S(16)}_madd", madd)
        bi(f"u8x{n}_avgr", ubin(8, lambda x, y: t.ext(t.lshrc(t.add(t.add(x, y), t.C(16, 1)), 1), 0, 8)))
        for b in (16, 32):
            for k in range(b):
                op(f"u{b}x{S(b)}_shl_{k}", f"s.u{b}x{S(b)}_shl::<{k}>(A0)", R, R, lw(b, lambda x, k=k: t.shlc(x, k)))
                op(f"u{b}x{S(b)}_shr_{k}", f"s.u{b}x{S(b)}_shr::<{k}>(A0)", R, R, lw(b, lambda x, k=k: t.lshrc(x, k)))
        for b in (8, 16, 32):
            bi(f"u{b}x{S(b)}_eq", lw(b, lambda x, y, b=b: mask(t.eq(x, y), b)))
            for s in "ui":
                bi(f"{s}{b}x{S(b)}_lt", lw(b, lambda x, y, b=b, s=s: mask(cmp_(s, b)(x, y), b)))
                bi(f"{s}{b}x{S(b)}_max", lw(b, lambda x, y, s=s, b=b: t.ite(cmp_(s, b)(x, y), y, x))); bi(f"{s}{b}x{S(b)}_min", lw(b, lambda x, y, s=s, b=b: t.ite(cmp_(s, b)(x, y), x, y)))
        op(f"u8x16{q}_swizzle", f"s.u8x16{q}_swizzle(A0, A1)", f"{R} {R}", R, pshufb, xpre=sel_ok)
        for b in (16, 32, 64): op(f"u{b}x{S(b)}_bswap", f"s.u{b}x{S(b)}_bswap(A0)", R, R, rev(b))
        op(f"u8x{n}_any_zero", f"s.u8x{n}_any_zero(A0)", R, "bool", lambda a: any_([isz(x) for x in lanes(a, 8)]))
        op(f"u8x{n}_bitmask", f"s.u8x{n}_bitmask(A0)", R, f"u{n}", bits1)
        for m in ("max", "min"):
            def red(outs, a, m=m):      # a bound of every lane, and one of them
                l = lanes(a, 8)
                return [t.bnot1(t.ult(outs[0], x) if m == "max" else t.ult(x, outs[0])) for x in l] + [t.bnot1(t.ANDS([t.bnot1(t.eq(outs[0], x)) for x in l]))]
            op(f"u8x{n}_reduce_{m}", f"s.u8x{n}_reduce_{m}(A0)", R, "u8", None, rel=red)
        op(f"v{W}_bsl", f"s.v{W}_bsl(A0, A1, A2)", f"{R} {R} {R}", R, lambda a, b, c: t.OR(t.AND(a, b), t.AND(t.NOT(a), c)))
        op(f"u8x{n}_blendv", f"s.u8x{n}_blendv(A0, A1, A2)", f"{R} {R} {R}", R, lw(8, lambda a, b, c: t.ite(hib(c), b, a)))
        for b, nm in ((8, "u8x16"), (16, "u16x8"), (32, "u32x4"), (64, "u64x2")):
            for h in (0, 1): bi(f"{nm}{q}_zip_{'hi' if h else 'lo'}", zip_(b, h))
        for h, nm in ((0, "even"), (1, "odd")):
            bi(f"u8x{n}_unzip_{nm}", lambda a, b, h=h: t.cat(lanes(a, 8)[h::2] + lanes(b, 8)[h::2]))
    op("i16x8_packus", "s.i16x8_packus(A0, A1)", "v v", "v", lambda a, b: t.cat([sat_u(x, 8) for x in lanes(a, 16) + lanes(b, 16)]))
    for h, nm in ((0, "even"), (1, "odd")): op(f"u64x4_unzip_{nm}", f"s.u64x4_unzip_{nm}(A0, A1)", "w w", "w", lambda a, b, h=h: t.cat(lanes(a, 64)[h::2] + lanes(b, 64)[h::2]))
    for h, nm in ((0, "lo"), (1, "hi")): op(f"v128x2_zip_{nm}", f"s.v128x2_zip_{nm}(A0, A1)", "w w", "w", lambda a, b, h=h: t.cat([lanes(a, 128)[h], lanes(b, 128)[h]]))
    op("u16x16_from_u8x16", "s.u16x16_from_u8x16(A0)", "v", "w", lw(8, lambda x: t.zext(x, 16)))
    op("u8x32_swizzle", "s.u8x32_swizzle(A0, A1)", "w w", "w", tbl32)   # offered by NEON only
    for k in range(256):
        op(f"u64x4_permute_{k}", f"s.u64x4_permute::<{k}>(A0)", "w", "w", lambda a, k=k: t.cat([lanes(a, 64)[k >> 2 * i & 3] for i in range(4)]))
        op(f"u16x8_blend_{k}", f"s.u16x8_blend::<{k}>(A0, A1)", "v v", "v", lambda a, b, k=k: t.cat([(y if k >> i & 1 else x) for i, (x, y) in enumerate(zip(lanes(a, 16), lanes(b, 16)))]))
        op(f"u32x8_blend_{k}", f"s.u32x8_blend::<{k}>(A0, A1)", "w w", "w", lambda a, b, k=k: t.cat([(y if k >> i & 1 else x) for i, (x, y) in enumerate(zip(lanes(a, 32), lanes(b, 32)))]))
    # ---- the width-generic layer
    for W, n, R in ((128, 16, "v"), (256, 32, "w")):
        V = RT[R]; S = f"<_ as Scalable<{V}>>::"; p = f"s{W}_"
        def bi(name, spec): op(p + name, f"{S}{name}(s, A0, A1)", f"{R} {R}", R, spec)
        bi("and", lambda a, b: t.AND(a, b)); bi("or", lambda a, b: t.OR(a, b)); bi("xor", lambda a, b: t.XOR(a, b)); bi("andnot", lambda a, b: t.AND(a, t.NOT(b)))
        for ty, b in (("u8", 8), ("i8", 8), ("u32", 32)): op(f"{p}{ty}xn_splat", f"{S}{ty}xn_splat(s, A0)", ty, R, lambda x, k=W // b: t.cat([x] * k))
        bi("u8xn_add", lw(8, lambda a, c: t.add(a, c))); bi("u8xn_sub", lw(8, lambda a, c: t.sub(a, c))); bi("u32xn_sub", lw(32, lambda a, c: t.sub(a, c)))
        bi("u8xn_add_sat", ubin(8, lambda x, y: sat_u(t.add(x, y), 8))); bi("i8xn_add_sat", sbin(8, lambda x, y: sat_s(t.add(x, y), 8))); bi("u8xn_sub_sat", ubin(8, lambda x, y: sat_u(t.sub(x, y), 8)))
        bi("u8xn_eq", lw(8, lambda x, y: mask(t.eq(x, y), 8))); bi("i8xn_lt", lw(8, lambda x, y: mask(t.slt(x, y), 8))); bi("u32xn_lt", lw(32, lambda x, y: mask(t.ult(x, y), 32)))
        bi("u32xn_max", lw(32, lambda x, y: t.ite(t.ult(x, y), y, x)))
        bi("u8xn_avgr", ubin(8, lambda x, y: t.ext(t.lshrc(t.add(t.add(x, y), t.C(16, 1)), 1), 0, 8)))
        op(p + "u8x16xn_swizzle", f"{S}u8x16xn_swizzle(s, A0, A1)", f"{R} {R}", R, pshufb, xpre=sel_ok)
        for k in range(32):
            if k < 16:
                op(f"{p}u16xn_shl_{k}", f"{S}u16xn_shl::<{k}>(s, A0)", R, R, lw(16, lambda x, k=k: t.shlc(x, k))); op(f"{p}u16xn_shr_{k}", f"{S}u16xn_shr::<{k}>(s, A0)", R, R, lw(16, lambda x, k=k: t.lshrc(x, k)))
            op(f"{p}u32xn_shr_{k}", f"{S}u32xn_shr::<{k}>(s, A0)", R, R, lw(32, lambda x, k=k: t.lshrc(x, k)))
        for b in (16, 32, 64): op(f"{p}u{b}xn_bswap", f"{S}u{b}xn_bswap(s, A0)", R, R, rev(b))
        # masks: each byte is 0x00 or 0xff
        op(p + "all_zero", f"{S}all_zero(s, A0)", R, "bool", lambda a: all_([isz(x) for x in lanes(a, 8)]), prop="C21")
        op(p + "mask8xn_all", f"{S}mask8xn_all(s, A0)", R, "bool", lambda a: all_([hib(x) for x in lanes(a, 8)]), is_mask, "C21"); op(p + "mask8xn_any", f"{S}mask8xn_any(s, A0)", R, "bool", lambda a: any_([hib(x) for x in lanes(a, 8)]), is_mask, "C21")
        op(p + "u8xn_highbit_all", f"{S}u8xn_highbit_all(s, A0)", R, "bool", lambda a: all_([hib(x) for x in lanes(a, 8)]), prop="C21"); op(p + "u8xn_highbit_any", f"{S}u8xn_highbit_any(s, A0)", R, "bool", lambda a: any_([hib(x) for x in lanes(a, 8)]), prop="C21")
        for m, pre in (("mask8x{}_all", is_mask), ("mask8x{}_any", is_mask), ("u8x{}_highbit_all", None), ("u8x{}_highbit_any", None)):
            m = m.format(n); op("f_" + m, f"vsimd::mask::{m}(s, A0)", R, "bool", (lambda a: all_([hib(x) for x in lanes(a, 8)])) if m.endswith("all") else (lambda a: any_([hib(x) for x in lanes(a, 8)])), pre, "C21")
        op(p + "lookup", f"vsimd::table::u8x16xn_lookup(s, A0, A1)", f"{R} {R}", R, pshufb, prop="C21")
        def between(x, a, b): return t.bnot1(t.OR(t.ult(x, t.C(8, a)), t.ult(t.C(8, b), x)))
        op(p + "to_ascii_lowercase", f"vsimd::ascii::to_ascii_lowercase::<_, {V}>(s, A0)", R, R, lw(8, lambda x: t.ite(between(x, 65, 90), t.add(x, t.C(8, 32)), x)), prop="C21")
        op(p + "to_ascii_uppercase", f"vsimd::ascii::to_ascii_uppercase::<_, {V}>(s, A0)", R, R, lw(8, lambda x: t.ite(between(x, 97, 122), t.sub(x, t.C(8, 32)), x)), prop="C21")
        def hexd(x): return t.ORS([between(x, 48, 57), between(x, 65, 70), between(x, 97, 102)])
        op(p + "hex_check", f"vsimd::hex::check_xn::<_, {V}>(s, A0)", R, "bool", lambda a: all_([hexd(x) for x in lanes(a, 8)]), prop="C21")
        # classification and decoding by hashed tables, for every table: hash entries below 16 and a non-positive check offset for hash 0 (what impl_alsw! produces)
        A = "alsw_tab"; x2 = ".x2()" if W == 256 else ""
        def albuild(k): return f"vsimd::alsw::AlswLut {{ hash: A{k}, offset: A{k + 1} }}{x2}"
        def pre2(*a):
            out = []
            for j, lu in enumerate(a[1:]):
                if j % 2 == 0: out += [t.ult(q, t.C(8, 16)) for q in lanes(lu, 8)]
            o0 = lanes(a[2], 8)[0]; out.append(t.OR(hib(o0), isz(o0))); return out
        def h_(hl, c):   # the scalar definition
            lk = t.ite(hib(c), t.C(8, 0), lut16(lanes(hl, 8), t.ext(c, 0, 4)))
            return t.ext(t.lshrc(t.add(t.add(t.zext(t.OR(t.C(8, 0xE0), t.lshrc(c, 3)), 16), t.zext(lk, 16)), t.C(16, 1)), 1), 0, 8)
        def off_(hl, ol, c):
            h = h_(hl, c); return t.ite(hib(h), t.C(8, 0), lut16(lanes(ol, 8), t.ext(h, 0, 4)))
        def s_check(hl, ol, c): return sat_s(t.add(t.sext(c, 16), t.sext(off_(hl, ol, c), 16)), 8)
        def s_decode(hl, ol, c): return t.add(c, off_(hl, ol, c))
        op(p + "alsw_check", f"vsimd::alsw::check_ascii_xn(s, A0, {albuild(1)})", f"{R} v v", "bool", lambda x, h, o: all_([t.bnot1(hib(s_check(h, o, c))) for c in lanes(x, 8)]), pre2, "C21", lanewise="all")
        def alsw_rel(outs, x, h, o, h2, o2):
            """(goal, per lane): same verdict for every byte; the scalar result for every accepted ASCII byte"""
            c1, c2 = outs; g = []
            for c, p1, p2 in zip(lanes(x, 8), lanes(c1, 8), lanes(c2, 8)):
                g.append(t.eq(hib(p1), hib(s_check(h, o, c))))
                g.append(t.OR(hib(c), t.eq(p2, s_decode(h2, o2, c))))
            return g
        op(p + "alsw_decode", f"vsimd::alsw::decode_ascii_xn(s, A0, {albuild(1)}, {albuild(3)})", f"{R} v v v v", f"{R} {R}", None, pre2, "C21", rel=alsw_rel)
    H = lambda lower: [ord(c) for c in ("0123456789abcdef" if lower else "0123456789ABCDEF")]
    def henc(lower): return lambda x: t.cat([lut16([t.C(8, c) for c in H(lower)], q) for b in lanes(x, 8) for q in (t.ext(b, 4, 4), t.ext(b, 0, 4))])
    for lo, nm in ((1, "LOWER"), (0, "UPPER")):
        op(f"hex_encode16_{nm.lower()}", f"vsimd::hex::encode_bytes16(s, A0, vsimd::hex::ENCODE_{nm}_LUT)", "v", "w", henc(lo), prop="C21")
        op(f"hex_encode32_{nm.lower()}", f"vsimd::hex::encode_bytes32(s, A0, vsimd::hex::ENCODE_{nm}_LUT)", "w", "w w", henc(lo), prop="C21")
        op(f"hex_sse2_encode16_{nm.lower()}", f"vsimd::hex::sse2::encode16(s, A0, vsimd::hex::sse2::{nm}_OFFSET)", "v", "v v", henc(lo), prop="C21", only=["sse2"])
    def hexval(x): return t.ext(t.ite(t.ult(x, t.C(8, 58)), t.sub(x, t.C(8, 48)), t.sub(t.OR(x, t.C(8, 32)), t.C(8, 87))), 0, 4)
    def hdec(outs, x):
        ok, r = outs; L_ = lanes(x, 8)
        okb = t.ext(ok, 0, 1)
        g = [("iff", okb, [hexd(c) for c in L_])]
        for i, b in enumerate(lanes(r, 8)): g.append(("if", okb, [hexd(L_[2 * i]), hexd(L_[2 * i + 1])], t.eq(b, t.cat([hexval(L_[2 * i + 1]), hexval(L_[2 * i])]))))
        return g
    op("hex_decode16", "vsimd::hex::decode_ascii16(s, A0)", "v", "res h", None, None, "C21", rel=hdec)
    op("hex_decode32", "vsimd::hex::decode_ascii32(s, A0)", "w", "res v", None, None, "C21", rel=hdec)
    op("hex_decode32x2", "vsimd::hex::decode_ascii32x2(s, (A0, A1))", "w w", "res w", None, None, "C21", rel=lambda outs, a, b: hdec(outs, t.cat([a, b])))
    def nib(outs, x):
        v, f = outs; g = []
        for c, a, b in zip(lanes(x, 8), lanes(v, 8), lanes(f, 8)):
            g.append(t.eq(hib(b), t.bnot1(hexd(c)))); g.append(t.OR(t.bnot1(hexd(c)), t.eq(a, t.zext(hexval(c), 8))))
        return g
    op("hex_sse2_decode_nibbles", "vsimd::hex::sse2::decode_nibbles(s, A0)", "v", "v v", None, None, "C21", rel=nib, only=["sse2"])
    op("hex_sse2_merge_bits", "vsimd::hex::sse2::merge_bits(s, A0)", "v", "h", lambda x: t.cat([t.cat([t.ext(b, 0, 4), t.ext(a, 0, 4)]) for a, b in zip(lanes(x, 8)[::2], lanes(x, 8)[1::2])]), lambda x: [t.ult(c, t.C(8, 16)) for c in lanes(x, 8)], "C21", only=["sse2"])
    # ---- scalar definitions and plain conversions (no instruction set)
    B = dict(only=["sse2"])
    op("hex_unhex", "vsimd::hex::unhex(A0)", "u8", "u8", None, None, "C21", rel=lambda outs, x: [t.eq(outs[0], t.ite(hexd(x), t.zext(hexval(x), 8), t.C(8, 255)))], **B)
    op("alsw_lookup", "vsimd::alsw::lookup(&A0, A1)", "a16 u8", "u8", lambda l, x: t.ite(hib(x), t.C(8, 0), lut16(lanes(l, 8), t.ext(x, 0, 4))), prop="C21", **B)
    op("alsw_avgr", "vsimd::alsw::avgr(A0, A1)", "u8 u8", "u8", ubin(8, lambda x, y: t.ext(t.lshrc(t.add(t.add(x, y), t.C(16, 1)), 1), 0, 8)), prop="C21", **B)
    op("alsw_hash", "vsimd::alsw::hash(&A0, A1)", "a16 u8", "u8", lambda l, c: h_(l, c), prop="C21", **B)
    op("alsw_scheck", "vsimd::alsw::check(&A0, &A1, A2)", "a16 a16 u8", "u8", lambda l, o, c: s_check(l, o, c), prop="C21", **B)
    op("alsw_sdecode", "vsimd::alsw::decode(&A0, &A1, A2)", "a16 a16 u8", "u8", lambda l, o, c: s_decode(l, o, c), prop="C21", **B)
    ident = lambda x: x
    for nm, e, a, r, sp in (("V64_from_bytes", "V64::from_bytes(A0)", "u64", "h", None), ("V128_from_bytes", "V128::from_bytes(A0)", "a16", "v", ident), ("V256_from_bytes", "V256::from_bytes(A0)", "a32", "w", ident),
        ("V128_as_bytes", "*A0.as_bytes()", "v", "a16", ident), ("V256_as_bytes", "*A0.as_bytes()", "w", "a32", ident), ("V64_to_u64", "A0.to_u64()", "h", "u64", ident),
        ("V128_to_v64x2", "A0.to_v64x2()", "v", "h h", ident), ("V128_x2", "A0.x2()", "v", "w", lambda x: t.cat([x, x])), ("V256_from_v128x2", "V256::from_v128x2((A0, A1))", "v v", "w", lambda a, b: t.cat([a, b])),
        ("V256_to_v128x2", "A0.to_v128x2()", "w", "v v", ident), ("V256_double_bytes", "V256::double_bytes(A0)", "a16", "w", lambda x: t.cat([x, x])), ("V256_x2", "A0.x2()", "w", "z", lambda x: t.cat([x, x])),
        ("V512_from_v256x2", "V512::from_v256x2((A0, A1))", "w w", "z", lambda a, b: t.cat([a, b])), ("V512_to_v256x2", "A0.to_v256x2()", "z", "w w", ident), ("V512_double_bytes", "V512::double_bytes(A0)", "a32", "z", lambda x: t.cat([x, x]))):
        if nm == "V64_from_bytes": e, sp = "V64::from_bytes(A0.to_le_bytes())", ident
        op(nm, e, a, r, sp, **B)
    def red(m):
        return lambda a, b: t.cat([t.ite(t.ult(x, y), y if m else x, x if m else y) for x, y in zip(lanes(a, 8), lanes(b, 8))])

    op("sim_u8x16_bitmask", "vsimd::simulation::u8x16_bitmask(A0)", "v", "u16", bits1, **B)
    for k in range(16):
        op(f"sim_u16x8_shr_{k}", f"vsimd::simulation::u16x8_shr(A0, {k})", "v", "v", lw(16, lambda x, k=k: t.lshrc(x, k)), **B); op(f"sim_u16x8_shl_{k}", f"vsimd::simulation::u16x8_shl(A0, {k})", "v", "v", lw(16, lambda x, k=k: t.shlc(x, k)), **B)
    op("sim_i16x8_packus", "vsimd::simulation::i16x8_packus(A0, A1)", "v v", "v", lambda a, b: t.cat([sat_u(x, 8) for x in lanes(a, 16) + lanes(b, 16)]), **B)

def ld(k, off):
    if k in RT: return f"ld::<{RT[k]}>(i, {off})"
    return f"ld::<{k}>(i, {off})"
def layout(kinds):
    out = []; o = 0
    for k in kinds: out.append((k, o)); o += SZ[k]
    return out, o
def base(name): return re.sub(r"(sh[lr]|blend|permute)_\d+$", r"\1", name)
def offered(o, isa, sup):
    if isa in CROSS:
        if "::sse2::" in o[1] or isa == "neon" and re.match(r"u\d+x\w+_shr_0$|s\d+_u\d+xn_shr_0$", o[0]): return False   # (vshrq_n rejects a shift by 0 at compile time)
        return sup is None or base(o[0]) not in sup["-" + isa]
    return isa in o[7].get("only", ISAS) and (sup is None or isa in sup.get(base(o[0]), ISAS))
def wrappers(prop=None, ISAS=ISAS):
    """the wrappers of the operations each level offers (lanes_support.json lists the operations not offered at every level)"""
    sup = support(); return [f"v_{i}_{o[0]}" for i in ISAS for o in OPS if offered(o, i, sup) and prop in (None, o[6])]
def rust(support=None, ISAS=ISAS):
    print("// generated by vcg/lanes.py")
    for isa, ty in ISAS.items():
        for name, expr, args, res, spec, pre, prop, k in OPS:
            if not offered((name, expr, args, res, spec, pre, prop, k), isa, support): continue
            pre_ = "" if TF[isa] is None else f'#[target_feature(enable = "{TF[isa]}")] '
            body = f"let s = {ty}::new(); let _ = (s, i, o); "
            lay, _ = layout(args)
            for j, (a, off) in enumerate(lay): body += f"let a{j} = {ld(a, off)}; "
            e = expr
            for j in range(len(args)): e = e.replace(f"A{j}", f"a{j}")
            if res and res[0] == "res": body += f"match {e} {{ Ok(v) => {{ st(o, 0, 1u8); st(o, 1, v) }} Err(_) => st(o, 0, 0u8) }}"
            elif len(res) == 2: body += f"let r = {e}; st(o, 0, r.0); st(o, {SZ[res[0]]}, r.1);"
            elif len(res) == 1: body += f"let r = {e}; st(o, 0, r);"
            else: body += f"{e};"
            print(f"#[no_mangle] {pre_}pub unsafe fn v_{isa}_{name}(i: *const u8, o: *mut u8) {{ {body} }}")
    print("#[cfg(feature = \"table\")]\npub static TABLE: &[(&str, unsafe fn(*const u8, *mut u8))] = &[")
    for isa in ISAS:
        for name, expr, args, res, spec, pre, prop, k in OPS:
            if not offered((name, expr, args, res, spec, pre, prop, k), isa, support): continue
            w = f"v_{isa}_{name}"
            print(f'    ("{w}", |i, o| unsafe {{ {w}(i, o) }}),')
    print("];")
def support():
    p = os.path.join(HERE, "lanes_support.json")
    return json.load(open(p)) if os.path.exists(p) else None
build()
if __name__ == "__main__":
    c = [a for a in sys.argv[1:] if a in CROSS]
    rust(None if "--all" in sys.argv else support(), {a: CROSS[a] for a in c} if c else ISAS)
