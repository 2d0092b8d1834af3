"""Linear integer expressions and the linear-arithmetic decision layer (quick syntactic rules, then z3)."""
import z3

class L:
    """Interned linear expression sum(c*atom)+k over integer atoms."""
    __slots__ = ("t", "k", "id", "_z", "ats")
    tab = {}
    def __new__(cls, t, k):
        key = (t, k)
        o = cls.tab.get(key)
        if o is None:
            o = object.__new__(cls); o.t = t; o.k = k; o.id = len(cls.tab); o._z = None; o.ats = None
            cls.tab[key] = o
        return o
    def __add__(a, b):
        if isinstance(b, int): return L(a.t, a.k + b)
        if not b.t: return L(a.t, a.k + b.k)
        if not a.t: return L(b.t, a.k + b.k)
        d = dict(a.t)
        for x, c in b.t:
            v = d.get(x, 0) + c
            if v: d[x] = v
            else: d.pop(x, None)
        return L(tuple(sorted(d.items(), key=akey)), a.k + b.k)
    __radd__ = __add__
    def __neg__(a): return L(tuple((x, -c) for x, c in a.t), -a.k)
    def __sub__(a, b):
        if isinstance(b, int): return L(a.t, a.k - b)
        return a + (-b)
    def __rsub__(a, b): return (-a) + b
    def __mul__(a, c):
        if c == 0: return ZERO
        if c == 1: return a
        return L(tuple((x, v * c) for x, v in a.t), a.k * c)
    __rmul__ = __mul__
    @property
    def const(a): return a.k if not a.t else None
    def is_const(a): return not a.t
    def atoms(a): return [x for x, _ in a.t]
    def coef(a, x):
        for y, c in a.t:
            if y is x: return c
        return 0
    def subst(a, m):
        """substitute atoms (deep, through div atoms)"""
        r = L((), a.k); ch = False
        for x, c in a.t:
            y = m.get(x)
            if y is None and x.div is not None:
                e = x.div[0].subst(m)
                if e is not x.div[0]: y = divl(e, x.div[1])
            if y is None: r = r + L(((x, c),), 0)
            else: r = r + y * c; ch = True
        return r if ch else a
    def deep_atoms(a):
        if a.ats is None:
            s = set()
            for x, _ in a.t:
                s.add(x)
                if x.div is not None: s |= x.div[0].deep_atoms()
            a.ats = frozenset(s)
        return a.ats
    def __repr__(a):
        s = " + ".join((f"{c}*{x}" if c != 1 else str(x)) for x, c in a.t)
        return f"{s} + {a.k}" if s and a.k else (s or str(a.k))

class Atom:
    __slots__ = ("name", "id", "div", "z", "lo", "hi", "bv")
    n = 0
    def __init__(s, name, lo=None, hi=None, div=None, bv=None):
        s.name = name; s.id = Atom.n; Atom.n += 1; s.div = div; s.z = None; s.lo = lo; s.hi = hi; s.bv = bv
    def __repr__(s): return s.name
    def zz(s):
        if s.z is None: s.z = z3.Int(f"{s.name}#{s.id}")
        return s.z
def akey(p): return p[0].id
ZERO = L((), 0)
def K(n): return L((), n)
def A(atom): return L(((atom, 1),), 0)
def fresh(name, lo=0, hi=None): return A(Atom(name, lo, hi))

_div = {}
def divl(e, c):
    """floor(e / c) as a linear expression (introduces a div atom when needed)."""
    if c == 1: return e
    q = {}; r = {}
    for x, v in e.t:
        a = v // c if v % c == 0 else None
        if a is not None: q[x] = a
        else: r[x] = v
    rk = e.k % c; qk = e.k // c
    Q = L(tuple(sorted(q.items(), key=akey)), qk)
    if not r: return Q
    R = L(tuple(sorted(r.items(), key=akey)), rk)
    key = (R, c)
    at = _div.get(key)
    if at is None:
        at = Atom(f"({R} / {c})", div=(R, c)); _div[key] = at
        lo, hi = bounds(R)
        at.lo = None if lo is None else lo // c
        at.hi = None if hi is None else hi // c
    return Q + A(at)
def modl(e, c): return e - divl(e, c) * c

def bounds(e, extra=None):
    lo = hi = e.k
    for x, c in e.t:
        xl, xh = x.lo, x.hi
        if extra and x in extra:
            l2, h2 = extra[x]
            if l2 is not None and (xl is None or l2 > xl): xl = l2
            if h2 is not None and (xh is None or h2 < xh): xh = h2
        a, b = (xl, xh) if c > 0 else (xh, xl)
        lo = None if lo is None or a is None else lo + c * a
        hi = None if hi is None or b is None else hi + c * b
    return lo, hi

def zlin(e):
    if e._z is None:
        r = z3.IntVal(e.k)
        for x, c in e.t: r = r + (x.zz() if c == 1 else c * x.zz())
        e._z = r
    return e._z

def zfact(f):
    """fact: ('ge',L) L>=0 | ('ne',L) | ('or',[[facts],...])"""
    if f[0] == "ge": return zlin(f[1]) >= 0
    if f[0] == "eq": return zlin(f[1]) == 0
    if f[0] == "ne": return zlin(f[1]) != 0
    if f[0] == "or": return z3.Or([z3.And([zfact(g) for g in c]) if c else z3.BoolVal(True) for c in f[1]])
    raise Exception(f)
def fact_atoms(f):
    if f[0] in ("ge", "eq", "ne"): return f[1].deep_atoms()
    s = set()
    for c in f[1]:
        for g in c: s |= fact_atoms(g)
    return s
def subst_fact(f, m):
    if f[0] in ("ge", "eq", "ne"): return (f[0], f[1].subst(m))
    return ("or", tuple(tuple(subst_fact(g, m) for g in c) for c in f[1]))

class Stats:
    quick = 0; z3q = 0; z3t = 0.0; unknown = 0
class Solver:
    """Incremental z3 solver following a stack of facts (path prefix sharing)."""
    def __init__(s):
        s.s = z3.Solver(); s.s.set("timeout", 10000)
        s.stack = []; s.known = [set()]
    def sync(s, facts):
        i = 0
        n = min(len(facts), len(s.stack))
        while i < n and facts[i] is s.stack[i]: i += 1
        if len(s.stack) > i:
            s.s.pop(len(s.stack) - i); del s.stack[i:]; del s.known[i + 1:]
        for f in facts[i:]:
            s.s.push(); kn = set(s.known[-1])
            for x in fact_atoms(f): s.declare(x, kn)
            s.s.add(zfact(f)); s.stack.append(f); s.known.append(kn)
    def declare(s, x, kn):
        if x in kn: return
        kn.add(x)
        if x.div is not None:
            R, c = x.div
            for y in R.deep_atoms(): s.declare(y, kn)
            s.s.add(zlin(R) - c * x.zz() >= 0, zlin(R) - c * x.zz() <= c - 1)
        else:
            if x.lo is not None: s.s.add(x.zz() >= x.lo)
            if x.hi is not None: s.s.add(x.zz() <= x.hi)
    def check(s, facts, goalneg):
        """sat status of facts /\\ goalneg(list of facts)"""
        import time
        t = time.time(); s.sync(facts); s.s.push(); kn = set(s.known[-1])
        for g in goalneg:
            for x in fact_atoms(g): s.declare(x, kn)
            s.s.add(zfact(g))
        r = s.s.check()
        s.model = s.s.model() if r == z3.sat else None
        s.s.pop(); Stats.z3q += 1; Stats.z3t += time.time() - t
        if r == z3.unknown: Stats.unknown += 1
        return str(r)
SOLVER = None
def solver():
    global SOLVER
    if SOLVER is None: SOLVER = Solver()
    return SOLVER

_memo = {}
def prove_ge(facts, g):
    """facts |= g >= 0 ?"""
    if not g.t: return g.k >= 0
    lo, hi = bounds(g)
    if lo is not None and lo >= 0: return True
    if hi is not None and hi < 0: return False   # (unless facts inconsistent)
    key = (tuple(map(id, facts)), g)
    r = _memo.get(key)
    if r is not None: return r[0]
    r = _prove_ge(facts, g)
    _memo[key] = (r, facts)   # keep facts alive so ids stay valid
    return r
def _bex(facts):
    ex = {}
    for f in facts:
        if f[0] == "ge" and len(f[1].t) == 1:
            (x, c), = f[1].t; k = f[1].k
            l, h = ex.get(x, (None, None))
            if c > 0:
                v = -(k // c); l = v if l is None else max(l, v)
            else:
                v = k // (-c); h = v if h is None else min(h, v)
            ex[x] = (l, h)
    return ex
def _prove_ge(facts, g):
    ex = _bex(facts)
    lo, hi = bounds(g, ex)
    if lo is not None and lo >= 0: Stats.quick += 1; return True
    cand = []
    gat = set(g.atoms())
    for f in facts:
        if f[0] == "ge" or f[0] == "eq":
            for h in ((f[1],) if f[0] == "ge" else (f[1], -f[1])):
                if not gat.isdisjoint(h.atoms()):
                    d = g - h
                    lo, _ = bounds(d, ex)
                    if lo is not None and lo >= 0: Stats.quick += 1; return True
                    if len(d.t) < len(g.t) + 1: cand.append(d)
    return solver().check(facts, [("ge", -g - 1)]) == "unsat"
def prove(facts, f):
    if f[0] == "ge": return prove_ge(facts, f[1])
    if f[0] == "eq": return f[1] is ZERO or (not f[1].is_const() and prove_ge(facts, f[1]) and prove_ge(facts, -f[1]))
    if f[0] == "ne":
        if f[1].is_const(): return f[1].k != 0
        return prove_ge(facts, f[1] - 1) or prove_ge(facts, -f[1] - 1) or solver().check(facts, [("eq", f[1])]) == "unsat"
    raise Exception(f)
def infeasible(facts): return solver().check(facts, []) == "unsat"
def neg(f):
    if f[0] == "ge": return ("ge", -f[1] - 1)
    if f[0] == "eq": return ("ne", f[1])
    if f[0] == "ne": return ("eq", f[1])
    raise Exception(f)
def model(facts, extra=(), minimize=None):
    s = solver(); r = s.check(facts, list(extra))
    return s.model if r == "sat" else None
def mval(m, e):
    v = m.eval(zlin(e), model_completion=True)
    return v.as_long()
