"""Hash-consed bit-vector terms in a segment (concatenation) normal form, evaluation, and the BV decision layer."""
import time
import numpy as np
import z3

class T:
    __slots__ = ("op", "w", "a", "id", "sup", "z", "kz")
    tab = {}
    def __repr__(s): return show(s)
def mk(op, w, a):
    key = (op, w, a)
    t = T.tab.get(key)
    if t is None:
        t = object.__new__(T); t.op = op; t.w = w; t.a = a; t.id = len(T.tab); t.sup = None; t.z = None; t.kz = None
        T.tab[key] = t
    return t
def show(t, d=4):
    if t.op == "c": return f"{t.a[0]:#x}:{t.w}"
    if t.op == "v": return f"{t.a[0]}[{t.a[1]}]"
    if d == 0: return "…"
    if t.op == "x": return f"{show(t.a[0], d)}<{t.a[1]}+{t.w}>"
    if t.op == "tab": return f"tab{len(t.a[0])}({show(t.a[1], d-1)})"
    return f"{t.op}{t.w}(" + ", ".join(show(x, d - 1) if isinstance(x, T) else str(x) for x in t.a) + ")"
def sup(t):
    s = t.sup
    if s is None:
        if t.op == "c": s = frozenset()
        elif t.op == "v": s = frozenset((t,))
        else:
            st = [t]
            while st:
                u = st[-1]
                if u.sup is not None: st.pop(); continue
                if u.op == "c": u.sup = frozenset(); st.pop(); continue
                if u.op == "v": u.sup = frozenset((u,)); st.pop(); continue
                todo = [x for x in u.a if isinstance(x, T) and x.sup is None]
                if todo: st.extend(todo); continue
                r = frozenset()
                for x in u.a:
                    if isinstance(x, T): r = r | x.sup
                u.sup = r; st.pop()
            s = t.sup
        t.sup = s
    return s

_c = {}
def C(w, v):
    v &= (1 << w) - 1
    t = _c.get((w, v))
    if t is None: t = _c[(w, v)] = mk("c", w, (v,))
    return t
TRUE = C(1, 1); FALSE = C(1, 0)
def var(space, idx, w=8): return mk("v", w, (space, idx))
def isc(t): return t.op == "c"

def cat(segs):
    """concatenate, lowest first"""
    out = []
    for s in segs:
        if s.w == 0: continue
        for p in (s.a if s.op == "cat" else (s,)):
            if out:
                l = out[-1]
                if l.op == "c" and p.op == "c": out[-1] = C(l.w + p.w, l.a[0] | p.a[0] << l.w); continue
                if l.op == "x" and p.op == "x" and l.a[0] is p.a[0] and l.a[1] + l.w == p.a[1]:
                    b = l.a[0]; out[-1] = b if l.a[1] == 0 and l.w + p.w == b.w else mk("x", l.w + p.w, (b, l.a[1])); continue
            out.append(p)
    if len(out) == 1: return out[0]
    return mk("cat", sum(s.w for s in out), tuple(out))

def ext(t, lo, w):
    if lo == 0 and w == t.w: return t
    op = t.op
    if op == "c": return C(w, t.a[0] >> lo)
    if op == "cat":
        out = []; o = 0; hi = lo + w
        for s in t.a:
            e = o + s.w
            if e > lo and o < hi:
                a = max(o, lo); b = min(e, hi); out.append(ext(s, a - o, b - a))
            o = e
            if o >= hi: break
        return cat(out)
    if op == "x": return mk("x", w, (t.a[0], t.a[1] + lo))
    if op in ("and", "or", "xor"): return bitw(op, ext(t.a[0], lo, w), ext(t.a[1], lo, w))
    if op == "ite": return ite(t.a[0], ext(t.a[1], lo, w), ext(t.a[2], lo, w))
    if lo == 0 and op == "add": return add(ext(t.a[0], 0, w), ext(t.a[1], 0, w))
    if lo == 0 and op == "sub": return sub(ext(t.a[0], 0, w), ext(t.a[1], 0, w))
    if lo == 0 and op == "mul": return mul(ext(t.a[0], 0, w), ext(t.a[1], 0, w))
    return mk("x", w, (t, lo))
def zext(t, w): return t if t.w == w else cat((t, C(w - t.w, 0)))
def sext(t, w):
    if t.w == w: return t
    m = ext(t, t.w - 1, 1); d = w - t.w
    hi = ite(m, C(d, -1), C(d, 0))
    if t.w == 1: return ite(t, C(w, -1), C(w, 0))
    return cat((t, hi))

def bounds_of(t):
    if t.op != "cat": return (t.w,)
    o = 0; r = []
    for s in t.a: o += s.w; r.append(o)
    return r
def bitw(op, a, b):
    if a is b: return C(a.w, 0) if op == "xor" else a
    if a.op == "c" and b.op == "c":
        x, y = a.a[0], b.a[0]
        return C(a.w, x & y if op == "and" else x | y if op == "or" else x ^ y)
    if b.op == "c": a, b = b, a
    if a.op == "c":   # split by runs of equal bits
        x = a.a[0]; w = a.w; full = (1 << w) - 1
        if x == 0: return a if op == "and" else b
        if x == full and op != "xor": return b if op == "and" else a
        if op != "xor" or w > 8:
            if not (op == "xor" and x == full):
                out = []; i = 0
                if op == "xor": # split by bytes segments only where zero
                    runs = []; 
                    while i < w:
                        z = (x >> i) & 0xff == 0 if w - i >= 8 else (x >> i) == 0
                        n = min(8, w - i)
                        if runs and runs[-1][2] == z: runs[-1][1] += n
                        else: runs.append([i, n, z])
                        i += n
                    if len(runs) > 1 or runs[0][2]:
                        for o, n, z in runs:
                            e = ext(b, o, n); out.append(e if z else bitw(op, C(n, x >> o), e))
                        return cat(out)
                else:
                    while i < w:
                        bit = (x >> i) & 1; j = i
                        while j < w and (x >> j) & 1 == bit: j += 1
                        n = j - i
                        out.append(ext(b, i, n) if bit == (1 if op == "and" else 0) else C(n, -bit))
                        i = j
                    return cat(out)
        if op == "xor" and x == full and w == 1:
            return bnot1(b)
    if a.op == "cat" or b.op == "cat":
        bs = sorted(set(bounds_of(a)) | set(bounds_of(b))); o = 0; out = []
        if len(bs) > 1:
            for e in bs:
                out.append(bitw(op, ext(a, o, e - o), ext(b, o, e - o))); o = e
            return cat(out)
    if a.op == "xor" and b.op == "c": a, b = b, a
    if op == "xor" and a.op == "c" and b.op == "xor" and b.a[0].op == "c":
        return bitw("xor", C(a.w, a.a[0] ^ b.a[0].a[0]), b.a[1])
    if op == "xor" and a.op == "c" and b.op == "ite" and (b.a[1].op == "c" or b.a[2].op == "c"):
        return ite(b.a[0], bitw("xor", a, b.a[1]), bitw("xor", a, b.a[2]))
    if a.op == "ite" and b.op == "ite" and a.a[0] is b.a[0]:
        return ite(a.a[0], bitw(op, a.a[1], b.a[1]), bitw(op, a.a[2], b.a[2]))
    if a.w == 1 and op in ("and", "or"):
        if bnot1(a) is b: return C(1, op == "or")
        if a.op == op and (a.a[0] is b or a.a[1] is b): return a
        if b.op == op and (b.a[0] is a or b.a[1] is a): return b
    if a.op != "c" and a.id > b.id: a, b = b, a
    return mk(op, a.w, (a, b))
def bnot1(t):
    if t.op == "c": return C(1, 1 - t.a[0])
    if t.op == "xor" and t.a[0] is TRUE: return t.a[1]
    if t.op == "ite": return ite(t.a[0], bnot1(t.a[1]), bnot1(t.a[2]))
    return mk("xor", 1, (TRUE, t))
def AND(a, b): return bitw("and", a, b)
def OR(a, b): return bitw("or", a, b)
def XOR(a, b): return bitw("xor", a, b)
def NOT(a): return bitw("xor", a, C(a.w, -1))
def ANDS(l):
    r = TRUE
    for x in l: r = AND(r, x)
    return r
def ORS(l):
    r = FALSE
    for x in l: r = OR(r, x)
    return r

def ite(c, a, b):
    if c.op == "c": return a if c.a[0] else b
    if a is b: return a
    if a.w == 1:
        if a is TRUE and b is FALSE: return c
        if a is FALSE and b is TRUE: return bnot1(c)
        if a is TRUE: return OR(c, b)
        if b is FALSE: return AND(c, a)
        if a is FALSE: return AND(bnot1(c), b)
        if b is TRUE: return OR(bnot1(c), a)
    if c.op == "xor" and c.a[0] is TRUE: return ite(c.a[1], b, a)
    if a.op == "cat" and b.op == "cat" and a.w > 8:
        bs = sorted(set(bounds_of(a)) | set(bounds_of(b))); o = 0; out = []
        for e in bs: out.append(ite(c, ext(a, o, e - o), ext(b, o, e - o))); o = e
        return cat(out)
    return mk("ite", a.w, (c, a, b))

def kzero(t):
    """mask of bits known to be zero"""
    if t.kz is not None: return t.kz
    op = t.op; full = (1 << t.w) - 1
    if op == "c": r = ~t.a[0] & full
    elif op == "cat":
        r = 0; o = 0
        for s in t.a: r |= kzero(s) << o; o += s.w
    elif op == "and": r = kzero(t.a[0]) | kzero(t.a[1])
    elif op in ("or", "xor"): r = kzero(t.a[0]) & kzero(t.a[1])
    elif op == "ite": r = kzero(t.a[1]) & kzero(t.a[2])
    elif op == "x": r = (kzero(t.a[0]) >> t.a[1]) & full
    elif op == "tab":
        o = 0
        for v in t.a[0]: o |= v
        r = ~o & full
    elif op in ("add", "mul"):
        m = umax(t); n = m.bit_length(); r = full & ~((1 << n) - 1)
    else: r = 0
    t.kz = r
    return r
_um = {}
def umax(t):
    m = _um.get(t)
    if m is not None: return m
    full = (1 << t.w) - 1
    if t.op == "add": m = umax(t.a[0]) + umax(t.a[1])
    elif t.op == "mul": m = umax(t.a[0]) * umax(t.a[1])
    elif t.op == "cat":
        m = 0; o = 0
        for s in t.a: m += umax(s) << o; o += s.w
    elif t.op == "ite": m = max(umax(t.a[1]), umax(t.a[2]))
    elif t.op == "tab": m = max(t.a[0])
    else: m = ~kzero(t) & full
    m = _um[t] = min(m, full)
    return m

def add(a, b):
    if a.op == "c" and b.op == "c": return C(a.w, a.a[0] + b.a[0])
    if b.op == "c": a, b = b, a
    if a.op == "c":
        if a.a[0] == 0: return b
        if b.op == "add" and b.a[0].op == "c": return add(C(a.w, a.a[0] + b.a[0].a[0]), b.a[1])
        if b.op == "ite" and b.a[1].op == "c" and b.a[2].op == "c": return ite(b.a[0], add(a, b.a[1]), add(a, b.a[2]))
    full = (1 << a.w) - 1
    if (kzero(a) | kzero(b)) == full: return bitw("or", a, b)
    # low zero bits pass through
    if a.op == "cat" or b.op == "cat":
        z = kzero(a) ; n = 0
        while n < a.w and (z >> n) & 1: n += 1
        if 0 < n < a.w: return cat((ext(b, 0, n), add(ext(a, n, a.w - n), ext(b, n, a.w - n))))
        z = kzero(b); n = 0
        while n < a.w and (z >> n) & 1: n += 1
        if 0 < n < a.w: return cat((ext(a, 0, n), add(ext(a, n, a.w - n), ext(b, n, a.w - n))))
    # trim zero high part
    mx = umax(a) + umax(b); n = mx.bit_length()
    if n < a.w: return zext(_add(ext(a, 0, n), ext(b, 0, n)), a.w)
    return _add(a, b)
def _add(a, b):
    if a.op == "c" and b.op == "c": return C(a.w, a.a[0] + b.a[0])
    if b.op == "c": a, b = b, a
    if a.op != "c" and a.id > b.id: a, b = b, a
    return mk("add", a.w, (a, b))
def sub(a, b):
    if a is b: return C(a.w, 0)
    if b.op == "c": return add(C(a.w, -b.a[0]), a)
    if a.op == "c" and b.op == "ite" and b.a[1].op == "c" and b.a[2].op == "c": return ite(b.a[0], sub(a, b.a[1]), sub(a, b.a[2]))
    return mk("sub", a.w, (a, b))
def shlc(t, n):
    if n == 0: return t
    if n >= t.w: return C(t.w, 0)
    return cat((C(n, 0), ext(t, 0, t.w - n)))
def lshrc(t, n):
    if n == 0: return t
    if n >= t.w: return C(t.w, 0)
    return cat((ext(t, n, t.w - n), C(n, 0)))
def ashrc(t, n):
    if n == 0: return t
    n = min(n, t.w - 1) if n >= t.w else n
    return sext(ext(t, n, t.w - n), t.w)
def mul(a, b):
    if a.op == "c" and b.op == "c": return C(a.w, a.a[0] * b.a[0])
    if b.op == "c": a, b = b, a
    if a.op == "c":
        v = a.a[0]
        if v == 0: return a
        if v & (v - 1) == 0: return shlc(b, v.bit_length() - 1)
        # sparse multiplier over a short operand with disjoint partial products
        n = umax(b).bit_length(); bits = [i for i in range(a.w) if (v >> i) & 1]
        if len(bits) <= 8 and all(bits[i + 1] - bits[i] >= n for i in range(len(bits) - 1)):
            r = C(a.w, 0)
            for i in bits: r = add(r, shlc(b, i))
            return r
    mx = umax(a) * umax(b); n = mx.bit_length()
    if n < a.w and n > 0:
        x, y = ext(a, 0, n), ext(b, 0, n)
        if x.op == "c" and y.op == "c": return C(a.w, x.a[0] * y.a[0])
        if x.op != "c" and (y.op == "c" or x.id > y.id): x, y = y, x
        return zext(mk("mul", n, (x, y)), a.w)
    if a.op != "c" and a.id > b.id: a, b = b, a
    return mk("mul", a.w, (a, b))
def shift(op, a, b):
    if b.op == "c":
        return {"shl": shlc, "lshr": lshrc, "ashr": ashrc}[op](a, b.a[0])
    return mk(op, a.w, (a, b))
def eq(a, b):
    if a is b: return TRUE
    if a.op == "c" and b.op == "c": return FALSE
    if a.w == 1:
        if a.op == "c": return b if a.a[0] else bnot1(b)
        if b.op == "c": return a if b.a[0] else bnot1(a)
    if b.op == "c": a, b = b, a
    if a.op == "cat" or b.op == "cat":
        bs = sorted(set(bounds_of(a)) | set(bounds_of(b))); o = 0; r = TRUE
        for e in bs:
            r = AND(r, eq(ext(a, o, e - o), ext(b, o, e - o))); o = e
            if r is FALSE: break
        return r
    if a.op == "c":
        if a.a[0] & kzero(b): return FALSE
        if b.op == "ite" and (b.a[1].op == "c" or b.a[2].op == "c"): return ite(b.a[0], eq(a, b.a[1]), eq(a, b.a[2]))
        if b.op == "xor" and b.a[0].op == "c": return eq(C(a.w, a.a[0] ^ b.a[0].a[0]), b.a[1])
        if b.op == "or" and a.a[0] == 0: return AND(eq(a, b.a[0]), eq(a, b.a[1]))
        if b.op == "and" and a.a[0] == (1 << a.w) - 1: return AND(eq(a, b.a[0]), eq(a, b.a[1]))
        if b.op == "add" and b.a[0].op == "c": return eq(C(a.w, a.a[0] - b.a[0].a[0]), b.a[1])
    if a.op != "c" and a.id > b.id: a, b = b, a
    return mk("eq", 1, (a, b))
def ult(a, b):
    if a is b: return FALSE
    if a.op == "c" and b.op == "c": return C(1, a.a[0] < b.a[0])
    if b.op == "c":
        if b.a[0] == 0: return FALSE
        if umax(a) < b.a[0]: return TRUE
        if b.a[0] == 1: return eq(a, C(a.w, 0))
    if a.op == "c" and umax(b) <= a.a[0]: return FALSE
    # drop common zero high bits
    n = max(umax(a), umax(b)).bit_length()
    if n == 0: return FALSE
    if n < a.w: return ult(ext(a, 0, n), ext(b, 0, n))
    if a.w == 1: return AND(bnot1(a), b)
    if a.op == "add" and (a.a[0] is b or a.a[1] is b) and umax(a.a[0]) + umax(a.a[1]) < (1 << a.w): return FALSE
    if a.op == "ite" and a.a[1].op == "c" and a.a[2].op == "c" and b.op == "c": return ite(a.a[0], ult(a.a[1], b), ult(a.a[2], b))
    return mk("ult", 1, (a, b))
def slt(a, b):
    if a is b: return FALSE
    if b.op == "c" and b.a[0] == 0: return ext(a, a.w - 1, 1)
    if a.op == "c" and a.a[0] == (1 << a.w) - 1: return bnot1(ext(b, b.w - 1, 1))
    sa, sb = ext(a, a.w - 1, 1), ext(b, b.w - 1, 1)
    if sa.op == "c" and sb.op == "c":
        if sa is sb: return ult(a, b)
        return sa
    f = 1 << (a.w - 1)
    if a.op == "c" and b.op == "c": return C(1, (a.a[0] ^ f) < (b.a[0] ^ f))
    return mk("slt", 1, (a, b))
_tabs = {}
def tab(data, idx):
    """data: bytes/tuple of ints (8-bit results); idx may be wider than needed: caller guarantees idx < len(data)"""
    data = _tabs.setdefault(tuple(data), tuple(data))
    if idx.op == "c": return C(8, data[idx.a[0]] if idx.a[0] < len(data) else 0)
    n = max(1, umax(idx).bit_length(), )
    n = min(n, max(1, (len(data) - 1).bit_length()))
    idx = ext(idx, 0, n)
    if idx.op == "c": return C(8, data[idx.a[0]] if idx.a[0] < len(data) else 0)
    if all(v == data[0] for v in data[:1 << n]): return C(8, data[0])
    if idx.op == "ite" and idx.a[1].op == "c" and idx.a[2].op == "c": return ite(idx.a[0], tab(data, idx.a[1]), tab(data, idx.a[2]))
    return mk("tab", 8, (data, idx))

# ---------------------------------------------------------------- traversal
def topo(roots):
    seen = set(); out = []; st = [(r, False) for r in roots]
    while st:
        t, d = st.pop()
        if d: out.append(t); continue
        if t in seen: continue
        seen.add(t); st.append((t, True))
        for x in t.a:
            if isinstance(x, T) and x not in seen: st.append((x, False))
    return out
_BUILD = {"and": lambda a: bitw("and", *a), "or": lambda a: bitw("or", *a), "xor": lambda a: bitw("xor", *a),
    "add": lambda a: add(*a), "sub": lambda a: sub(*a), "mul": lambda a: mul(*a), "ite": lambda a: ite(*a), "eq": lambda a: eq(*a),
    "ult": lambda a: ult(*a), "slt": lambda a: slt(*a)}
def rebuild(t, m):
    """substitute (dict T->T) and rebuild with simplification"""
    mm = dict(m)
    for u in topo([t]):
        if u in mm: continue
        if u.op in ("c", "v"): mm[u] = u; continue
        if u.op == "cat": mm[u] = cat([mm[x] for x in u.a])
        elif u.op == "x": mm[u] = ext(mm[u.a[0]], u.a[1], u.w)
        elif u.op == "tab": mm[u] = tab(u.a[0], mm[u.a[1]])
        elif u.op in ("shl", "lshr", "ashr"): mm[u] = shift(u.op, mm[u.a[0]], mm[u.a[1]])
        else: mm[u] = _BUILD[u.op]([mm[x] for x in u.a])
    return mm[t]
def subst_idx(t, lm):
    """substitute atoms inside byte-variable indices"""
    m = {}
    for v in sup(t):
        i = v.a[1]
        if hasattr(i, "subst"):
            j = i.subst(lm)
            if j is not i: m[v] = var(v.a[0], j, v.w)
    return rebuild(t, m) if m else t

def simp_under(t, fs):
    """resolve the conditions of t that the fact set fs (a set of 1-bit terms) decides outright"""
    m = {}
    for u in topo([t]):
        if u.op != "ite": continue
        c = u.a[0]
        if c in m: continue
        if all(x in fs for x in conjuncts(c)): m[c] = TRUE
        elif all(x in fs for x in conjuncts(bnot1(c))): m[c] = FALSE
    return rebuild(t, m) if m else t

def conjuncts(t, out=None):
    if out is None: out = []
    st = [t]
    while st:
        u = st.pop()
        if u is TRUE: continue
        if u.op == "and" and u.w == 1: st.extend(u.a); continue
        if u.op == "xor" and u.w == 1 and u.a[0] is TRUE:
            v = u.a[1]
            if v.op == "or": st.extend(bnot1(x) for x in v.a); continue
        out.append(u)
    return out
def disjuncts(t):
    return [bnot1(x) for x in conjuncts(bnot1(t))]

# ---------------------------------------------------------------- evaluation
def npeval(roots, env):
    """env: var -> uint64 array (or python int)"""
    val = {}
    for t in topo(roots):
        op = t.op; w = t.w
        m = np.uint64((1 << min(w, 64)) - 1)
        if op == "c": r = np.uint64(t.a[0] & 0xffffffffffffffff)
        elif op == "v": r = env[t]
        elif op == "cat":
            r = np.uint64(0); o = 0
            if w > 64: val[t] = None; continue
            for s in t.a: r = r | (val[s] << np.uint64(o)); o += s.w
        elif op == "x":
            b = t.a[0]
            if val[b] is None: raise ValueError("wide")
            r = (val[b] >> np.uint64(t.a[1])) & m
        elif op == "tab":
            a = np.array(t.a[0] + (0,) * (max(0, (1 << t.a[1].w) - len(t.a[0]))), dtype=np.uint64); r = a[np.asarray(val[t.a[1]], dtype=np.int64)]
        elif op == "ite": r = np.where(val[t.a[0]] != 0, val[t.a[1]], val[t.a[2]])
        else:
            a, b = val[t.a[0]], val[t.a[1]]
            if op == "and": r = a & b
            elif op == "or": r = a | b
            elif op == "xor": r = a ^ b
            elif op == "add": r = (a + b) & m
            elif op == "sub": r = (a - b) & m
            elif op == "mul": r = (a * b) & m
            elif op == "eq": r = (a == b).astype(np.uint64) if hasattr(a == b, "astype") else np.uint64(a == b)
            elif op == "ult": r = np.asarray(a < b).astype(np.uint64)
            elif op == "slt":
                f = np.uint64(1 << (t.a[0].w - 1)); r = np.asarray((a ^ f) < (b ^ f)).astype(np.uint64)
            elif op in ("shl", "lshr"):
                bb = np.minimum(b, np.uint64(63)); r = (a << bb) & m if op == "shl" else a >> bb
                r = np.where(np.asarray(b) >= w, np.uint64(0), r)
            elif op == "ashr":
                sgn = (a >> np.uint64(w - 1)) & np.uint64(1); bb = np.minimum(b, np.uint64(w - 1))
                r = ((a >> bb) | np.where(sgn != 0, m & ~(m >> bb), np.uint64(0))) & m
            else: raise ValueError(op)
        val[t] = r
    return [val[t] for t in roots]

def zterm(t):
    for u in topo([t]):
        if u.z is not None: continue
        op = u.op
        if op == "c": z = z3.BitVecVal(u.a[0], u.w)
        elif op == "v": z = z3.BitVec(f"v{u.id}", u.w)
        elif op == "cat": z = z3.Concat(*[x.z for x in reversed(u.a)])
        elif op == "x": z = z3.Extract(u.a[1] + u.w - 1, u.a[1], u.a[0].z)
        elif op == "tab":
            i = u.a[1]; z = z3.BitVecVal(0, 8); d = u.a[0]
            def rec(lo, n, bit):
                if lo >= len(d): return z3.BitVecVal(0, 8)
                if len(set(d[lo:lo + n])) == 1 and lo + n <= len(d): return z3.BitVecVal(d[lo], 8)
                if n == 1: return z3.BitVecVal(d[lo], 8)
                h = n // 2
                return z3.If(z3.Extract(bit, bit, i.z) == 1, rec(lo + h, h, bit - 1), rec(lo, h, bit - 1))
            z = rec(0, 1 << i.w, i.w - 1)
        elif op == "ite": z = z3.If(u.a[0].z == 1, u.a[1].z, u.a[2].z)
        else:
            a, b = u.a[0].z, u.a[1].z
            one = lambda c: z3.If(c, z3.BitVecVal(1, 1), z3.BitVecVal(0, 1))
            z = {"and": lambda: a & b, "or": lambda: a | b, "xor": lambda: a ^ b, "add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b,
                 "eq": lambda: one(a == b), "ult": lambda: one(z3.ULT(a, b)), "slt": lambda: one(a < b),
                 "shl": lambda: a << b, "lshr": lambda: z3.LShR(a, b), "ashr": lambda: a >> b}[op]()
        u.z = z
    return t.z

# ---------------------------------------------------------------- decision
class BStats:
    enum = 0; enumt = 0.0; z3q = 0; z3t = 0.0; memo = 0; unknown = 0
_memo = {}
def _canon(ts):
    """canonical serialisation of a list of 1-bit terms up to variable renaming"""
    order = topo(ts); num = {}; vs = []; ser = []
    for i, t in enumerate(order):
        num[t] = i
        if t.op == "v": vs.append(t); ser.append(("v", t.w))
        elif t.op == "c": ser.append(("c", t.w, t.a[0]))
        else: ser.append((t.op, t.w) + tuple(num[x] if isinstance(x, T) else (id(x) if isinstance(x, tuple) else -1 - x) for x in t.a))
    return (tuple(ser), tuple(num[t] for t in ts)), vs
ENUM_BITS = 17
def sat(ts, timeout=20000):
    """find an assignment making all 1-bit terms true: ('unsat',None) | ('sat',{var:val}) | ('unknown',None)"""
    ts = [t for t in ts if t is not TRUE]
    if any(t is FALSE for t in ts): return "unsat", None
    if not ts: return "sat", {}
    key, vs = _canon(ts)
    r = _memo.get(key)
    if r is not None:
        BStats.memo += 1
        return r[0], (dict(zip(vs, r[1])) if r[1] is not None else None)
    bits = sum(v.w for v in vs)
    t0 = time.time(); res = None
    if bits <= ENUM_BITS:
        try:
            n = 1 << bits; ar = np.arange(n, dtype=np.uint64); env = {}; o = 0
            for v in vs: env[v] = (ar >> np.uint64(o)) & np.uint64((1 << v.w) - 1); o += v.w
            vals = npeval(ts, env); ok = np.ones(n, dtype=bool)
            for x in vals: ok &= np.broadcast_to(np.asarray(x) != 0, (n,))
            w = np.flatnonzero(ok)
            if len(w) == 0: res = ("unsat", None)
            else:
                i = int(w[0]); res = ("sat", [int(env[v][i]) for v in vs])
            BStats.enum += 1; BStats.enumt += time.time() - t0
        except ValueError: res = None
    if res is None:
        s = z3.SolverFor("QF_BV"); s.set("timeout", timeout)
        for t in ts: s.add(zterm(t) == 1)
        c = s.check(); BStats.z3q += 1; BStats.z3t += time.time() - t0
        if c == z3.sat:
            m = s.model(); res = ("sat", [m.eval(zterm(v), model_completion=True).as_long() for v in vs])
        elif c == z3.unsat: res = ("unsat", None)
        else: BStats.unknown += 1; res = ("unknown", None)
    _memo[key] = res
    return res[0], (dict(zip(vs, res[1])) if res[1] is not None else None)

def related(facts, goal_sup, maxvars=None):
    """facts (1-bit conjuncts) connected to the variables in goal_sup"""
    vs = set(goal_sup); out = []; rest = list(facts); ch = True
    while ch:
        ch = False; nr = []
        for f in rest:
            s = sup(f)
            if s and not vs.isdisjoint(s):
                if maxvars is not None and len(vs | s) > maxvars: nr.append(f); continue
                vs |= s; out.append(f); ch = True
            else: nr.append(f)
        rest = nr
    return out
def bvprove(facts, goal):
    """facts |= goal (1-bit)?  -> (True,None) | (False,model) | (None,None)"""
    if goal is TRUE: return True, None
    gs = sup(goal)
    near = [f for f in facts if sup(f) and sup(f) <= gs]
    r, m = sat(near + [bnot1(goal)])
    if r == "unsat": return True, None
    allf = related(facts, gs)
    if len(allf) > len(near):
        few = related(facts, gs, maxvars=2)
        if len(few) > len(near) and len(few) < len(allf):
            r, m = sat(few + [bnot1(goal)])
            if r == "unsat": return True, None
        r, m = sat(allf + [bnot1(goal)])
        if r == "unsat": return True, None
    if r == "sat": return False, m
    return None, None
