"""Round-trip lemmas over the specification functions the encoder and decoder contracts use (C20).
They are about mathematics only; the contract tasks of the same property tie the specification functions to the code."""
from specs import *

def lemma(mod, run):
    e = Engine(mod, {}); st = new_state(); e.fn_stack.append("lemma")
    run(e, st); e.fn_stack.pop()
    return e
def bvo(g, what, goal, hyp=()):
    r, m = (True, None) if goal is TRUE else bvprove(list(g.st.bv) + list(hyp), goal)
    return g.oblige("lemma", what, bool(r), status="unknown" if r is None else None)
def length(st, nm, hi=None):
    a = A(Atom(nm, 0, half() if hi is None else hi)); return a
def forward(codec, dcodec, pad, padmode):
    """decode(encode(src)) == src for every src: the encoding has an acceptable length and padding, all its characters are
    alphabet characters, the trailing bits are zero, the decoded length is n and every decoded byte is the source byte"""
    def run(e, st0):
        n = length(st0, "n")
        def post(g):
            chars, rem = codec.nchars(g, n); N = chars
            if pad and rem: N = divl(n, codec.gi) * codec.go + codec.go
            def ch(i):
                if pad and g.must(lge(i - chars)): return C(8, ord("="))
                return codec.enc_char(g, "src", n, i)
            ln = b64_len(g, dcodec, N, "text", padmode, ch)
            if not g.oblige("lemma", "the encoding has an acceptable length and padding", ln is not None): return
            n1, m, r, slack = ln
            g.eqL("lemma", "unpadded length", n1, chars); g.eqL("lemma", "decoded length", m, n)
            if slack and padmode != "forgiving": bvo(g, "trailing bits are zero", dcodec.trailing_zero("text", n1 - 1, slack, ch))
            i = length(st0, "i"); t = g.st.clone(); t.lin += [("ge", n1 - 1 - i)]
            if not infeasible(t.lin):
                def chars_ok(h):
                    c = h_enc(h, i)
                    bvo(h, "every character is acceptable", dcodec.valid([c]))
                    if padmode == "forgiving": bvo(h, "no character is whitespace", non_ws(c))
                def h_enc(h, i): return codec.enc_char(h, "src", n, i)
                Goal.run(e, t, "lemma", chars_ok)
            j = length(st0, "j"); t = g.st.clone(); t.lin += [("ge", n - 1 - j)]
            if not infeasible(t.lin):
                def bytes_ok(h):
                    def hc(i):
                        h.oblige("lemma", "a decoded byte depends on characters of the encoding only", h.proveL(("ge", n1 - 1 - i)) and h.proveL(("ge", i)))
                        return codec.enc_char(h, "src", n, i)
                    got = dcodec.dec_byte(h, "text", j, hc)
                    bvo(h, "decoded byte", eq(got, var("src", j)), [eq(v, var("src", j)) for v in sup(got) if v.a[1] is not j and h.proveL(("eq", v.a[1] - j))])
                Goal.run(e, t, "lemma", bytes_ok)
        Goal.run(e, st0, "lemma", post)
    return run
LOWER = tuple(c + 32 if 65 <= c <= 90 else c for c in range(256))
def backward(codec, dcodec, pad, padmode, fold=False):
    """encode(decode(text)) == text for every accepted text (hex: up to letter case)"""
    def run(e, st0):
        N = length(st0, "N")
        def post(g):
            ln = b64_len(g, dcodec, N, "text", padmode)
            if ln is None: return                       # rejected
            n1, m, r, slack = ln
            if not g.must(leq(n1)):                     # the last unpadded character is valid, hence not '='
                v = dcodec.valid([var("text", n1 - 1)])
                for c in conjuncts(v): g.st.bv.append(c)
                if g.dead(): return
            chars, rem = codec.nchars(g, m)
            g.eqL("lemma", "re-encoded characters", chars, n1)
            if pad:
                T_ = divl(m, codec.gi) * codec.go + (codec.go if rem else 0)
                g.eqL("lemma", "re-encoded length", T_, N)          # and text[n1..N) are the '=' b64_len consumed
            tz = dcodec.trailing_zero("text", n1 - 1, slack)
            i = length(st0, "i"); t = g.st.clone(); t.lin += [("ge", n1 - 1 - i)]
            if infeasible(t.lin): return
            def same_char(h):
                ch = lambda k: var("text", k)
                def by(k):
                    return dcodec.dec_byte(h, "text", k, ch)
                got = codec.enc_char(h, "src", m, i, by); want = var("text", i)
                hyp = [x for v in sup(got) | {want} for x in conjuncts(dcodec.valid([v]))] + list(conjuncts(tz) if tz is not TRUE else [])
                if tz is not TRUE:      # the characters the trailing bits belong to
                    (tv,) = sup(tz)
                    for v in sup(got) | {want}:
                        if v is not tv and h.proveL(("eq", v.a[1] - tv.a[1])): hyp.append(eq(v, tv))
                for v in sup(got):
                    h.oblige("lemma", "only characters of the text are used", h.proveL(("ge", n1 - 1 - v.a[1])) and h.proveL(("ge", v.a[1])))
                    if v is not want and h.proveL(("eq", v.a[1] - i)): hyp.append(eq(v, want))
                bvo(h, "re-encoded character", eq(tab(LOWER, got), tab(LOWER, want)) if fold else eq(got, want), hyp)
            Goal.run(e, t, "lemma", same_char)
        Goal.run(e, st0, "lemma", post)
    return run
def uuid_rt(codec):
    """parse(format(u)) == u: every textual form made of the formatted digits"""
    def run(e, st):
        g = Goal(e, st, "lemma"); enc = lambda k: codec.enc_char(g, "src", K(16), K(k))
        for hyph in (False, True):
            txt = {i: C(8, ord("-")) if hyph and i in (8, 13, 18, 23) else enc(HY.index(i) if hyph else i) for i in range(36 if hyph else 32)}
            digits, fixed = (HY, {i: "-" for i in (8, 13, 18, 23)}) if hyph else (list(range(32)), {})
            for i, c in fixed.items(): bvo(g, "separator", eq(txt[i], C(8, ord(c))))
            for i in digits: bvo(g, "digit", HEX.valid([txt[i]]))
            for j in range(16): bvo(g, "byte", eq(cat([HEX.value(txt[digits[2 * j + 1]]), HEX.value(txt[digits[2 * j]])]), var("src", K(j))))
    return run
LEMMAS = {}
for _c, _cod in (("b64s", B64S), ("b64u", B64U), ("b64sn", B64S), ("b64un", B64U), ("b32s", B32), ("b32h", B32H), ("b32sn", B32), ("b32hn", B32H)):
    _p = not _c.endswith("n"); _m = "pad" if _p else "nopad"
    LEMMAS["fwd_" + _c] = ("c20_" + _c, forward(_cod, _cod, _p, _m)); LEMMAS["bwd_" + _c] = ("c20_" + _c, backward(_cod, _cod, _p, _m))
for _k, _p in (("s", True), ("sn", False)): LEMMAS["fwd_b64f_" + _k] = ("c20_b64f", forward(B64S, B64S, _p, "forgiving"))
for _k, _c in (("l", HEXL), ("u", HEXU)):
    LEMMAS["fwd_hex" + _k] = ("c20_hex", forward(_c, HEX, False, "nopad")); LEMMAS["bwd_hex" + _k] = ("c20_hex", backward(_c, HEX, False, "nopad", True))
    LEMMAS["uuid_" + _k] = ("c20_uuid", uuid_rt(_c))
def verify(mod, name): return lemma(mod, LEMMAS[name][1])
