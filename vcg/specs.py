"""Contracts of the harness entries: preconditions (symbolic arguments) and postconditions."""
from goals import *
from llparse import Ty

def US(l):
    """a usize argument"""
    return I(Obj.PB, l)
def half():
    """usize::MAX / 2 = isize::MAX of the target"""
    return (1 << (Obj.PB - 1)) - 1

class Ret:
    """result cell { ok: u64, ptr, len }"""
    def __init__(s, g, o, ok_only=False):
        s.g = g; s.o = o
    def field(s, off, ty): return s.g.e.load(s.g.st, P(s.o, K(off)), ty, 1)
    def ok(s):
        v = s.field(0, I64)
        if isinstance(v, T) and isc(v): return v.a[0] == 1
        if isinstance(v, T): return s.g.must(bnot1(eq(v, C(64, 0))))
        return s.g.must(bnot(leq(v.L)))
    def len(s): return s.g.e.exact(s.g.st, s.field(8 + Ty.PSIZE, INT[Obj.PB]))
    def ptr(s): return s.field(8, PTR)

ISA_LEVELS = (["ssse3", "sse4.1", "avx2"], {"avx2": ["ssse3", "sse4.1", "avx2"], "sse4.1": ["ssse3", "sse4.1"], "ssse3": ["ssse3"], "sse2": []})
class Run:
    """one verification of an entry: sets up the arguments, executes, applies the contract to each final state"""
    def __init__(s, mod, name, cfg=None):
        s.mod = mod; s.name = name; s.e = Engine(mod, cfg); s.st = new_state(); s.objs = []; s.atoms = {}
        s.e.probe_features()
        c = s.e.cfg.get("isa")
        if c is not None:
            for i, q in enumerate(ISA_LEVELS[0]):
                t = s.e.feature_cond.get(q)
                if t is not None: s.st.bv.append(t if q in ISA_LEVELS[1][c] else bnot1(t))
    def length(s, nm, hi=None):
        if hi is None: hi = half()
        pin = s.e.cfg.get("pin") or {}
        if pin.get(nm) is not None and pin[nm] <= hi: s.atoms[nm] = K(pin[nm]); return s.atoms[nm]      # one concrete size (bounded)
        a = A(Atom(nm, 0, hi)); s.atoms[nm] = a; return a
    def buf(s, nm, n, space=None, writable=True, align=1, elt=1):
        o = Obj(nm, "buf", n, align, space=space or nm, writable=writable); s.objs.append(o); return o
    def go(s, args, post):
        s.st.extra["objs"] = tuple(s.objs)
        for o in s.objs:
            if o.space in ("src", "data"): s.st.bv += [eq(var(o.space, K(i)), C(8, b)) for i, b in (s.e.cfg.get("pin") or {}).get("bytes", ()) if i >= 0 and (o.size.t or i < o.size.k)]
        outs = s.e.call_function(s.st, "@" + s.name, args)
        s.npaths = len(outs)
        if outs and all(infeasible(list(st.lin)) for v, st in outs[:8]): s.npaths = 0     # contradictory assumptions prove anything
        for v, st in outs:
            Goal.run(s.e, st, s.name, lambda g: post(g, v))
        return s.e
def std(r, kind):
    """common argument shapes"""
    if kind == "src_dst":
        n = r.length("n"); m = r.length("d"); src = r.buf("src", n, "src", False); dst = r.buf("dst", m, "dst0"); o = r.buf("o", K(32), "o0", align=8)
        return (src, dst, o, n, m), [P(src, K(0)), US(n), P(dst, K(0)), US(m), P(o, K(0))]
    if kind == "src":
        n = r.length("n"); src = r.buf("src", n, "src", False); o = r.buf("o", K(32), "o0", align=8)
        return (src, None, o, n, None), [P(src, K(0)), US(n), P(o, K(0))]
    if kind == "data":
        n = r.length("n"); d = r.buf("data", n, "data"); o = r.buf("o", K(32), "o0", align=8)
        return (d, d, o, n, n), [P(d, K(0)), US(n), P(o, K(0))]

def encode(r, codec, pad, par=False):
    """basen encode: Ok(dst[..m]) iff dst.len() >= m; dst[j] = spec(j) for all j < m; nothing else written"""
    (src, dst, o, n, d), args = std(r, "src_dst")
    def post(g, _):
        q = Ret(g, o); ok = q.ok()
        chars, rem = codec.nchars(g, n)
        m = chars
        if pad and rem: m = divl(n, codec.gi) * codec.go + codec.go
        if not ok:
            g.oblige("reject", "Err only when dst is too short", g.proveL(("ge", m - d - 1)), model=(("ge", d - m),)); return
        g.oblige("accept", "Ok only when dst is long enough", g.proveL(("ge", d - m)), model=(("ge", m - d - 1),))
        g.eqL("result", "returned length", q.len(), m)
        p = q.ptr(); g.oblige("result", "returned slice starts at dst", isinstance(p, P) and p.obj is dst and p.off is K(0) or m is K(0) or g.proveL(("eq", m)))
        spec = enc_spec(codec, pad, n, chars)
        if par and g.st.extra.get("par_calls"):
            # the work of one arbitrary item of the only parallel loop: it writes its own chunk of dst, completely, and nothing else
            reg = g.st.extra.get("par", ())
            if g.st.extra["par_calls"] != 1 or len(reg) > 1: raise Unsupported("several parallel loops over the destination")
            if not reg: return       # no such chunk
            (p, a, ln, tot), = reg
            if p.obj is not dst or p.off.t or p.off.k: raise Unsupported("parallel chunks of another buffer")
            g.eqL("result", "the chunks cover the whole encoding", tot, m)
            g.frame(dst, a, a + ln); g.output(dst, ln, lambda g, j: spec(g, j + a), space="src", base=a); return
        g.frame(dst, K(0), m)
        g.output(dst, m, spec, space="src")
    return r.go(args, post)

# ------------------------------------------------------------------ owned and appending results
def enc_spec(codec, pad, n, chars):
    def spec(g, j):
        if pad and g.must(lge(j - chars)): return C(8, ord("="))
        return codec.enc_char(g, "src", n, j)
    return spec
class Owned:
    """the returned buffer of an allocating form, or the vector after an appending one"""
    def __init__(s, r, append):
        s.r = r; s.append = append
        s.n = r.length("n"); s.src = r.buf("src", s.n, "src", False)
        if append:
            s.cap = r.length("cap"); s.prev = r.length("len"); r.st.lin.append(("ge", s.cap - s.prev))
            s.vec = Obj("vec", "heap", s.cap, 1, space="vec0"); r.objs.append(s.vec)
        s.o = r.buf("o", K(40), "o0", align=8)
        s.args = [P(s.src, K(0)), US(s.n)] + ([P(s.vec, K(0)), US(s.prev), US(s.cap)] if append else []) + [P(s.o, K(0))]
    def check(s, g, m, exact_cap):
        """-> (object, base) of a sound buffer whose contents are the previous ones followed by m new bytes"""
        q = Ret(g, s.o); e = g.e; p = q.ptr(); cap = e.exact(g.st, q.field(8 + 2 * Ty.PSIZE, INT[Obj.PB])); ln = q.len(); prev = s.prev if s.append else K(0)
        g.eqL("result", "length of the result", ln, prev + m)
        if not s.append and g.must(leq(m)) and not (isinstance(p, P) and p.obj is not None and p.obj.kind == "heap" and not exact_cap):
            g.eqL("result", "capacity of an empty result", cap, K(0)); return None, None
        if not g.oblige("result", "the result owns an allocation", isinstance(p, P) and p.obj is not None and p.obj.kind == "heap" and g.proveL(("eq", p.off))): return None, None
        ob = p.obj
        g.oblige("use-after-free", "the result's allocation is live", not g.st.extra.get(("freed", ob.id)))
        g.eqL("result", "capacity is the size of the allocation", cap, ob.size)
        if exact_cap: g.eqL("result", "no spare capacity", cap, ln)
        else: g.oblige("result", "length does not exceed capacity", g.proveL(("ge", cap - ln)))
        if s.append:
            j = fresh("pj", 0); t = g.st.clone(); t.lin += [("ge", prev - j - 1)]
            if not infeasible(t.lin):
                v = e.read_byte(t, ob, t.mem.get(ob.id, ()), j)
                g.oblige("output", "previous contents are kept", v is var("vec0", j))
        for h in g.st.extra.get("heap", ()) + ((s.vec,) if s.append else ()):
            if h is not ob: g.oblige("result", "no other allocation is left behind", bool(g.st.extra.get(("freed", h.id))) or s.append and h is s.vec and g.proveL(("eq", s.cap)))
        return ob, prev
    def empty(s, g):
        """nothing is added"""
        if s.append: s.check(g, K(0), False)
        else:
            for h in g.st.extra.get("heap", ()): g.oblige("result", "no allocation is left behind", bool(g.st.extra.get(("freed", h.id))))
def encode_owned(r, codec, pad, form):
    """form: box | vec | append. The result holds exactly the encoding; panics only if it exceeds isize::MAX"""
    w = Owned(r, form == "append"); n = w.n
    def enclen(rem): return divl(n, codec.gi) * codec.go + ((codec.go if rem else 0) if pad else -(-8 * rem // codec.bits))
    def panic_ok(e, st, name):
        """the encoding (with the previous contents) exceeds isize::MAX"""
        return all(prove(st.lin + [("eq", modl(n, codec.gi) - rem)] if codec.gi > 1 else st.lin, ("ge", (w.prev if w.append else 0) + enclen(rem) - half() - 1)) for rem in range(codec.gi))
    r.e.cfg["panic_ok"] = panic_ok
    def post(g, _):
        chars, rem = codec.nchars(g, n); m = enclen(rem) if pad else chars
        g.oblige("accept", "encoding never fails", Ret(g, w.o).ok())
        ob, base = w.check(g, m, form == "box")
        if ob is not None: g.output(ob, m, enc_spec(codec, pad, n, chars), space="src", base=base)
    return r.go(w.args, post)
def decode_owned(r, codec, padmode, form):
    """form: box | vec | append. Ok exactly when the input is valid; the result is its decoding; on Err nothing is kept (append: nothing changed)"""
    w = Owned(r, form == "append"); n = w.n
    if w.append: r.e.cfg["panic_ok"] = lambda e, st, name: prove_ge(st.lin, w.prev + n - half() - 1)
    if padmode == "forgiving": r.e.cfg["filter"] = {"space": "src", "n": n, "pred": non_ws}
    def post(g, _, space="src", n=n):
        ok = Ret(g, w.o).ok()
        if not ok: w.empty(g)
        if padmode == "forgiving":
            fl = g.st.extra.get("filtered")
            if fl is not None: space, n, fo = fl
            else: g.all_valid(space, K(0), n, lambda u: non_ws(u[0]), what="text decoded without filtering has no whitespace")
        ln = b64_len(g, codec, n, space, padmode)
        if ln is None:
            g.oblige("reject", "malformed length or padding is rejected", not ok); return
        n1, m, rem, slack = ln
        tz = codec.trailing_zero(space, n1 - 1, slack) if padmode != "forgiving" else TRUE
        if not ok:
            g.refute(space, codec.valid, g.aliases(tz) + list(conjuncts(tz)) if tz is not TRUE else [], hi=n1); return
        g.all_valid(space, K(0), n1, codec.valid)
        if tz is not TRUE:
            (v,) = sup(tz); facts, _ = g.accfacts()
            r_, mod = bvprove(facts + g.aliases(tz) + conjuncts(codec.valid([v])), tz)
            g.oblige("accept", "trailing bits are zero", bool(r_), model=mod)
        ob, base = w.check(g, m, form == "box")
        if ob is not None: g.output(ob, m, lambda g, j: codec.dec_byte(g, space, j), valid=codec.valid, space=space, hi=n1, base=base)
    return r.go(w.args, post)

def b64_len(g, codec, n, space, padmode, ch=None):
    """-> (n1, m, rem, slack) or None if the length/padding is malformed; padmode: 'pad' | 'nopad' | 'forgiving'"""
    if g.must(leq(n)): return K(0), K(0), 0, 0
    p = 0; ch = ch or (lambda i: var(space, i))
    if padmode == "pad":
        if not g.must(leq(modl(n, codec.go))): return None
    if padmode == "pad" or padmode == "forgiving" and g.must(leq(modl(n, 4))):
        EQ = C(8, ord("="))
        if codec.bits == 6:
            if g.must(eq(ch(n - 1), EQ)):
                p = 2 if g.must(eq(ch(n - 2), EQ)) else 1
        else:
            while p < 6 and g.must(eq(ch(n - 1 - p), EQ)): p += 1
    n1 = n - p
    m, rem, slack = codec.nbytes(g, n1)
    if m is None: return None
    return n1, m, rem, slack

def non_ws(v): return bnot1(ORS([eq(v, C(8, c)) for c in (9, 10, 12, 13, 32)]))
def decode(r, codec, padmode, form):
    """strict decode / inplace / check / decoded_length"""
    kind = {"rawdec": "src_dst", "decode": "src_dst", "inplace": "data", "check": "src", "dlen": "src"}[form]
    (src, dst, o, n, d), args = std(r, kind); space = src.space
    if form == "rawdec":     # raw form: the caller guarantees the room
        r.st.lin.append(("ge", d - divl(n, 2)))
    if padmode == "forgiving": r.e.cfg["filter"] = {"space": space, "n": n, "pred": non_ws}
    def post(g, _, space=space, n=n):
        q = Ret(g, o); ok = q.ok()
        if padmode == "forgiving":
            if form == "decode" and not g.must(lge(d - n)):
                g.oblige("reject", "dst shorter than src is rejected", not ok); return
            fl = g.st.extra.get("filtered")
            if fl is not None:
                space, n, fo = fl; g.oblige("result", "the filtered text is in the destination", fo is dst)
            else: g.all_valid(space, K(0), n, lambda u: non_ws(u[0]), what="text decoded without filtering has no whitespace")
        ln = b64_len(g, codec, n, space, padmode)
        if ln is None and form == "dlen": return    # nothing is promised for inputs that do not decode
        if ln is None:
            g.oblige("reject", "malformed length or padding is rejected", not ok); return
        n1, m, rem, slack = ln
        if form == "dlen":
            hyp = []
            if not g.must(leq(n1)):     # validity of the last characters as a hypothesis
                for i in range(1, 9):
                    if not g.must(lge(n1 - i)): break
                    hyp += conjuncts(codec.valid([var(space, n1 - i)]))
            r_, _ = sat(hyp + related(g.st.bv, frozenset().union(*[sup(h) for h in hyp])) if hyp else g.st.bv)
            if r_ == "unsat": g.oblige("result", "decoded length (input cannot decode)", True); return
            g.oblige("accept", "decoded_length accepts every input that decodes", ok)
            if ok: g.eqL("result", "decoded length", q.len(), m)
            return
        if form == "decode" and padmode != "forgiving" and not g.must(lge(d - m)):
            g.oblige("reject", "dst too short is rejected", not ok); return
        strict = padmode != "forgiving"
        tz = codec.trailing_zero(space, n1 - 1, slack) if strict else TRUE
        if not ok:
            extra = []
            if tz is not TRUE:
                extra = g.aliases(tz) + list(conjuncts(tz))
            g.refute(space, codec.valid, extra, hi=n1); return
        g.all_valid(space, K(0), n1, codec.valid)
        if tz is not TRUE:
            (v,) = sup(tz); facts, _ = g.accfacts()
            r_, mod = bvprove(facts + g.aliases(tz) + conjuncts(codec.valid([v])), tz)
            g.oblige("accept", "trailing bits are zero", bool(r_), model=mod)
        if form == "check": return
        g.eqL("result", "returned length", q.len(), m)
        p = q.ptr(); g.oblige("result", "returned slice starts at dst", isinstance(p, P) and p.obj is dst and p.off is K(0) or g.proveL(("eq", m)))
        if padmode != "forgiving": g.frame(dst, K(0), m)
        g.output(dst, m, lambda g, j: codec.dec_byte(g, space, j), valid=codec.valid, space=space, hi=n1)
    return r.go(args, post)
def aliases(g, t):
    """equalities between the byte variables of t and the ones the path facts use for the same (provably equal) index"""
    out = []; seen = set()
    for v in sup(t):
        for f in g.st.bv:
            for c in sup(f):
                if c is v or c in seen or c.a[0] != v.a[0]: continue
                seen.add(c)
                if (c.a[1] - v.a[1]).t and prove(g.st.lin, ("eq", c.a[1] - v.a[1])): out.append(eq(c, v))
    return out
Goal.aliases = aliases

VARIANTS64 = {"s": (B64S, "pad"), "u": (B64U, "pad"), "sn": (B64S, "nopad"), "un": (B64U, "nopad")}

CONTRACTS = {}
for _c, _cod in (("b64s", B64S), ("b64u", B64U), ("b64sn", B64S), ("b64un", B64U), ("b32s", B32), ("b32h", B32H), ("b32sn", B32), ("b32hn", B32H)):
    _pad = not _c.endswith("n")
    CONTRACTS[_c + "_enc"] = CONTRACTS[_c + "_encs"] = lambda r, c=_cod, p=_pad: encode(r, c, p)
    if _cod.bits == 6: CONTRACTS[_c + "_par"] = lambda r, c=_cod, p=_pad: encode(r, c, p, True)
    for _f, _n in (("decode", "dec"), ("inplace", "inp"), ("check", "chk"), ("dlen", "dlen")):
        CONTRACTS[f"{_c}_{_n}"] = lambda r, c=_cod, p=_pad, f=_f: decode(r, c, "pad" if p else "nopad", f)

CONTRACTS["b64f_dec"] = lambda r: decode(r, B64S, "forgiving", "decode")
CONTRACTS["b64f_inp"] = lambda r: decode(r, B64S, "forgiving", "inplace")

# ------------------------------------------------------------------ hex
def hex_raw_encode(r, codec):
    """encode_raw: precondition dst has room; returns 2n; dst[0..2n) = spec; nothing else written"""
    (src, dst, o, n, d), args = std(r, "src_dst"); r.st.lin.append(("ge", d - n * 2))
    def post(g, _):
        q = Ret(g, o); g.eqL("result", "returned length", q.len(), n * 2); g.frame(dst, K(0), n * 2)
        g.output(dst, n * 2, lambda g, j: codec.enc_char(g, "src", n, j), space="src")
    return r.go(args, post)
def check_units(r, valid, unit=1, keep=False):
    """a validator: true exactly when every unit satisfies the predicate"""
    n = r.length("n", half() // unit); src = r.buf("src", n * unit, "src", False, align=unit); o = r.buf("o", K(32), "o0", align=8)
    def post(g, _):
        q = Ret(g, o)
        if q.ok():
            g.all_valid("src", K(0), n * unit, valid, unit)
            if keep:
                p = q.ptr(); g.oblige("result", "returned slice is the input", isinstance(p, P) and p.obj is src and (p.off is K(0) or g.proveL(("eq", p.off))))
                g.eqL("result", "returned length", q.len(), n)
        else: g.refute("src", valid, unit=unit, hi=n * unit)
    return r.go([P(src, K(0)), US(n), P(o, K(0))], post)
def hexdec(r, form):
    if form == "raw":
        return decode(r, HEX, "nopad", "rawdec")
    if form == "rawinp": return decode(r, HEX, "nopad", "inplace")
    return decode(r, HEX, "nopad", form)
for _c, _cod in (("hexl", HEXL), ("hexu", HEXU)):
    CONTRACTS[_c + "_enc"] = CONTRACTS[_c + "_encs"] = lambda r, c=_cod: encode(r, c, False)
    CONTRACTS[_c + "_encr"] = lambda r, c=_cod: hex_raw_encode(r, c)
for _n, _f in (("dec", "decode"), ("decr", "raw"), ("inp", "inplace"), ("inpr", "rawinp")): CONTRACTS["hex_" + _n] = lambda r, f=_f: hexdec(r, f)
CONTRACTS["hex_chk"] = CONTRACTS["hex_chkr"] = lambda r: check_units(r, HEX.valid)

# ------------------------------------------------------------------ uuid
HY = [i for i in range(36) if i not in (8, 13, 18, 23)]
def uuid_parse(r, forms):
    n = r.length("n"); src = r.buf("src", n, "src", False); dst = r.buf("dst", K(16), "dst0"); o = r.buf("o", K(32), "o0", align=8)
    FORM = {32: (list(range(32)), {}), 36: (HY, {i: "-" for i in (8, 13, 18, 23)}),
        38: ([i + 1 for i in HY], {**{i + 1: "-" for i in (8, 13, 18, 23)}, 0: "{", 37: "}"}),
        45: ([i + 9 for i in HY], {**{i + 9: "-" for i in (8, 13, 18, 23)}, **{i: c for i, c in enumerate("urn:uuid:")}})}
    def post(g, _):
        q = Ret(g, o); ok = q.ok(); ln = None
        for k in forms:
            if g.must(leq(n - k)): ln = k
        if ln is None: g.oblige("reject", "any other length is rejected", not ok); return
        digits, fixed = FORM[ln]; facts, _c = g.accfacts()
        conds = [HEX.valid([var("src", K(i))]) for i in digits] + [eq(var("src", K(i)), C(8, ord(c))) for i, c in fixed.items()]
        if not ok:
            r_ = "sat"
            for f in facts:      # one contradicted fact is enough
                h = [c for c in conds if sup(c) <= sup(f)]
                if sat(h + [f])[0] == "unsat": r_ = "unsat"; break
            m = None
            if r_ != "unsat": r_, m = sat(conds + facts)
            g.oblige("reject", "rejected input is malformed", r_ == "unsat", model=m, status="unknown" if r_ == "unknown" else None); return
        for c in conds:
            r_, m = bvprove(facts, c)
            if not g.oblige("accept", "accepted text has the documented form", bool(r_), model=m, status="unknown" if r_ is None else None): break
        p = q.ptr(); g.oblige("result", "returned bytes are dst", isinstance(p, P) and p.obj is dst and p.off is K(0))
        def spec(g, j):
            j = g.const(j, 0, 15)
            return cat([HEX.value(var("src", K(digits[2 * j + 1]))), HEX.value(var("src", K(digits[2 * j])))])
        g.output(dst, K(16), spec, valid=lambda u: HEX.valid(u) if u[0].a[1].k in digits else TRUE, space="src")
    return r.go([P(src, K(0)), US(n), P(dst, K(0)), P(o, K(0))], post)
def uuid_format(r, codec, hyph):
    src = r.buf("src", K(16), "src", False); m = K(36 if hyph else 32); dst = r.buf("dst", m, "dst0"); o = r.buf("o", K(32), "o0", align=8)
    def post(g, _):
        q = Ret(g, o); p = q.ptr(); g.oblige("result", "returned text is dst", isinstance(p, P) and p.obj is dst and p.off is K(0)); g.eqL("result", "returned length", q.len(), m)
        def spec(g, j):
            j = g.const(j, 0, m.k - 1)
            if hyph:
                if j in (8, 13, 18, 23): return C(8, ord("-"))
                j = HY.index(j)
            return codec.enc_char(g, "src", K(16), K(j))
        g.output(dst, m, spec, space="src")
    return r.go([P(src, K(0)), P(dst, K(0)), P(o, K(0))], post)
def uuid_display(r, codec, hyph):
    """the adapter prints exactly the text, once, into the given formatter, and passes its result on"""
    src = r.buf("src", K(16), "src", False); f = r.buf("fmt", K(24), "fmt0", align=8); m = 36 if hyph else 32
    def post(g, v):
        c = g.st.extra.get("fmt", ())
        if not g.oblige("output", "the text is printed by exactly one call", len(c) == 1): return
        fp, by = c[0]
        g.oblige("result", "printed to the given formatter", isinstance(fp, P) and fp.obj is f and fp.off is K(0))
        g.oblige("result", "the printing result is passed on", isinstance(v, T) and eq(v, var("fmtret", K(1), 1)) is TRUE)
        if not g.oblige("output", "printed length", len(by) == m): return
        for j in range(m):
            sp = C(8, ord("-")) if hyph and j in (8, 13, 18, 23) else codec.enc_char(g, "src", K(16), K(HY.index(j) if hyph else j))
            r_, mod = g.eq_under(by[j], sp, g.st.lin, g.st.bv, None, None)
            if not g.oblige("output", f"printed character {j}" if not r_ else "printed character", bool(r_), model=mod): break
    return r.go([P(src, K(0)), P(f, K(0))], post)
for _n, _c in (("", HEXL), ("l", HEXL), ("u", HEXU)):
    CONTRACTS["uuid_ds" + _n] = lambda r, c=_c: uuid_display(r, c, False)
    CONTRACTS["uuid_dh" + _n] = lambda r, c=_c: uuid_display(r, c, True)
for _p in ("uuid_", "uuidx_"):
    CONTRACTS[_p + "parse"] = lambda r: uuid_parse(r, (32, 36, 38, 45))
    CONTRACTS[_p + "psimple"] = lambda r: uuid_parse(r, (32,))
    CONTRACTS[_p + "phyph"] = lambda r: uuid_parse(r, (36,))
for _n, _c in (("l", HEXL), ("u", HEXU)):
    CONTRACTS["uuid_fsimple_" + _n] = lambda r, c=_c: uuid_format(r, c, False)
    CONTRACTS["uuid_fhyph_" + _n] = lambda r, c=_c: uuid_format(r, c, True)

# ------------------------------------------------------------------ unicode
def ascii_valid(u): return bnot1(ext(u[0], 7, 1))
def scalar_valid(u):
    w = cat(u)
    return AND(ult(w, C(32, 0x110000)), bnot1(AND(ult(C(32, 0xd7ff), w), ult(w, C(32, 0xe000)))))
def swap(r, unit, inplace):
    n = r.length("n", half() // unit); o = r.buf("o", K(32), "o0", align=8)
    if inplace:
        src = dst = r.buf("data", n * unit, "src", align=unit); d = n; args = [P(src, K(0)), US(n), P(o, K(0))]
    else:
        d = r.length("d", half() // unit)
        src = r.buf("src", n * unit, "src", False, align=unit); dst = r.buf("dst", d * unit, "dst0", align=unit)
        args = [P(src, K(0)), US(n), P(dst, K(0)), US(d), P(o, K(0))]
        r.e.cfg["panic_ok"] = lambda e, st, name: prove_ge(st.lin, n - d - 1)
    def post(g, _):
        if not inplace:
            q = Ret(g, o)
            g.oblige("reject", "a destination shorter than the source is refused", g.proveL(("ge", d - n)))
            p = q.ptr(); g.oblige("result", "returned slice starts at dst", isinstance(p, P) and p.obj is dst and p.off is K(0) or g.proveL(("eq", n)))
            g.eqL("result", "returned length", q.len(), n)
        g.frame(dst, K(0), n * unit)
        def spec(g, j):
            r_ = g.const(modl(j, unit), 0, unit - 1)
            return var("src", j - r_ + (unit - 1 - r_))
        g.output(dst, n * unit, spec, space="src")
    return r.go(args, post)
CONTRACTS["uni_ascii"] = lambda r: check_units(r, ascii_valid)
CONTRACTS["uni_from_ascii"] = lambda r: check_units(r, ascii_valid, keep=True)
CONTRACTS["uni_utf32"] = lambda r: check_units(r, scalar_valid, unit=4)
for _u, _n in ((2, "16"), (4, "32")):
    CONTRACTS[f"uni_swap{_n}"] = lambda r, u=_u: swap(r, u, False)
    CONTRACTS[f"uni_swap{_n}i"] = lambda r, u=_u: swap(r, u, True)

# ------------------------------------------------------------------ length functions
def scalar_fn(r, post):
    n = r.length("n", (1 << Obj.PB) - 1); o = r.buf("o", K(32), "o0", align=8)
    return r.go([US(n), P(o, K(0))], lambda g, _: post(g, n, Ret(g, o)))
# ------------------------------------------------------------------ vsimd::native: run a closure under the best instruction set
def nat_exec(r):
    """detect().exec(f): f runs exactly once, its result is returned, its effects are those of f()"""
    (src, dst, o, n, d), args = std(r, "src_dst")
    def post(g, _):
        q = Ret(g, o)
        if not q.ok(): g.oblige("reject", "the closure runs exactly once and its result is returned", g.proveL(("ge", n - d - 1)), model=(("ge", d - n),)); return
        g.oblige("accept", "destination long enough", g.proveL(("ge", d - n)), model=(("ge", n - d - 1),))
        g.eqL("result", "returned length", q.len(), n)
        g.frame(dst, K(0), n)
        g.output(dst, n, lambda g, j: add(var("src", j), C(8, 0x5a)), space="src")
    return r.go(args, post)
CONTRACTS["nat_exec"] = nat_exec
def enc_len(r, codec, pad):
    """exactly the size of the encoding for n <= usize::MAX/2; the documented assertion only above"""
    def post(g, n, q):
        g.oblige("result", "returns only for n <= usize::MAX/2", g.proveL(("ge", K(half()) - n)))
        m, rem = codec.nchars(g, n)
        if pad and rem: m = divl(n, codec.gi) * codec.go + codec.go
        g.eqL("result", "encoded length", q.len(), m)
    n = r.length("n", (1 << Obj.PB) - 1); o = r.buf("o", K(32), "o0", align=8)
    r.e.cfg["panic_ok"] = lambda e, st, name: prove_ge(st.lin, n - half() - 1)
    return r.go([US(n), P(o, K(0))], lambda g, _: post(g, n, Ret(g, o)))
def est_len(r, codec, pad):
    """never smaller than the size of a successful decoding of an input of that length"""
    def post(g, n, q):
        if pad and not g.must(leq(modl(n, codec.go))): return
        m, rem, slack = codec.nbytes(g, n)
        if m is None: return
        v = q.len()
        g.oblige("result", f"estimate is an upper bound: {v} >= {m}", g.proveL(("ge", v - m)), model=(("ge", m - v - 1),))
    return scalar_fn(r, post)
def hex_dlen(r):
    def post(g, n, q):
        if not g.must(leq(modl(n, 2))): g.oblige("reject", "odd length is an error", not q.ok()); return
        ok = q.ok(); g.oblige("accept", "even length is accepted", ok)
        if ok: g.eqL("result", "decoded length", q.len(), divl(n, 2))
    return scalar_fn(r, post)
for _c, _cod in (("b64s", B64S), ("b64u", B64U), ("b64sn", B64S), ("b64un", B64U), ("b32s", B32), ("b32h", B32H), ("b32sn", B32), ("b32hn", B32H)):
    CONTRACTS[_c + "_elen"] = lambda r, c=_cod, p=not _c.endswith("n"): enc_len(r, c, p)
    CONTRACTS[_c + "_edlen"] = lambda r, c=_cod, p=not _c.endswith("n"): est_len(r, c, p)
CONTRACTS["hex_elen"] = lambda r: enc_len(r, HEX, False)
CONTRACTS["hex_dlen"] = hex_dlen

# ------------------------------------------------------------------ allocating and appending forms
for _c, _cod, _pm in [(c + k, cod, "nopad" if k == "n" else "pad") for c, cod in (("b64s", B64S), ("b64u", B64U), ("b32s", B32), ("b32h", B32H)) for k in ("", "n")] + [("hexl", HEXL, "nopad"), ("hexu", HEXU, "nopad"), ("hex", HEX, "nopad"), ("b64f", B64S, "forgiving")]:
    if _c not in ("hex", "b64f"):
        for _n, _f in (("ebb", "box"), ("ebs", "box"), ("evc", "vec"), ("est", "vec"), ("eav", "append"), ("eas", "append")):
            CONTRACTS[f"{_c}_{_n}"] = lambda r, c=_cod, p=_pm == "pad", f=_f: encode_owned(r, c, p, f)
    if _c not in ("hexl", "hexu"):
        for _n, _f in (("dbb", "box"), ("dvc", "vec"), ("dav", "append")):
            if _c != "b64f" or _n == "dvc": CONTRACTS[f"{_c}_{_n}"] = lambda r, c=_cod, p=_pm, f=_f: decode_owned(r, c, p, f)
