"""Symbolic execution of LLVM IR with path forking, symbolic lengths, and inductive loop summaries."""
import re, time, itertools
from llparse import *
from lin import *
import lin
from term import *
import term as tm

class Unsupported(Exception): pass
class NeedSymbolic(Exception):
    def __init__(s, loop): s.loop = loop
class Fork(Exception):
    def __init__(s, cond): s.cond = cond
class PathLimit(Exception): pass

# ------------------------------------------------------------------ values
class I:
    """w-bit integer equal to the linear expression L modulo 2^w"""
    __slots__ = ("w", "L")
    def __new__(cls, w, L):
        if not L.t: return C(w, L.k)     # constants live in the bit-vector domain
        o = object.__new__(cls); o.w = w; o.L = L
        return o
    def __repr__(s): return f"I{s.w}({s.L})"
class P:
    __slots__ = ("obj", "off", "idx")
    def __init__(s, obj, off, idx=None): s.obj, s.off, s.idx = obj, off, idx
    def __repr__(s): return f"&{s.obj.name if s.obj else 'int'}+{s.off}" + (f"+[{s.idx}]" if s.idx is not None else "")
class FnP:
    __slots__ = ("name",)
    def __init__(s, name): s.name = name
    def __repr__(s): return f"fn {s.name}"
class V:
    __slots__ = ("w", "l")
    def __init__(s, w, l): s.w = w; s.l = tuple(l)
    def __repr__(s): return f"V{s.w}{list(s.l)[:4]}"
class Agg:
    __slots__ = ("l",)
    def __init__(s, l): s.l = list(l)
    def __repr__(s): return f"Agg{s.l}"
class B:
    """boolean condition over linear facts (possibly mixed with 1-bit terms)"""
    __slots__ = ("op", "a")
    def __init__(s, op, a): s.op, s.a = op, a
    def __repr__(s): return f"{s.op}{s.a}"
class Undef:
    __slots__ = ("ty",)
    def __init__(s, ty): s.ty = ty
def bnot(b):
    if isinstance(b, T): return bnot1(b)
    if b.op == "not": return b.a[0]
    if b.op == "lin": return B("lin", (neg(b.a[0]),))
    return B("not", (b,))
def lge(e): # e >= 0
    return TRUE if e.t == () and e.k >= 0 else FALSE if e.t == () else B("lin", (("ge", e),))
def leq(e):
    return (TRUE if e.k == 0 else FALSE) if not e.t else B("lin", (("eq", e),))

class Obj:
    n = 0; PB = 64; BE = False          # pointer width and byte order of the module under verification
    def __init__(s, name, kind, size, align=1, space=None, const=None, relocs=None, writable=True):
        s.name, s.kind, s.size, s.align, s.space, s.const, s.relocs, s.writable = name, kind, size, align, space, const, relocs, writable
        Obj.n += 1; s.id = Obj.n
        s.at = Atom("addr_" + name, lo=1, hi=(1 << (s.PB - 1)) // max(1, align)); s.addr = A(s.at) * max(1, align)
        s.allocated = None; s.freed = False
class W:
    """write record: bytes (list of 8-bit T) or a whole value"""
    __slots__ = ("off", "size", "by", "val", "ty", "loc")
    def __init__(s, off, size, by=None, val=None, ty=None, loc=None): s.off, s.size, s.by, s.val, s.ty, s.loc = off, size, by, val, ty, loc
    def key(s): return (s.off.id, s.size, tuple(x.id for x in s.by) if s.by else repr(s.val))
class LW:
    """writes of iterations kb in [0,cnt); alts: list of lists of W over atom kb"""
    __slots__ = ("kb", "cnt", "alts", "sum")
    def __init__(s, kb, cnt, alts, sum=None): s.kb, s.cnt, s.alts, s.sum = kb, cnt, alts, sum
class CP:
    __slots__ = ("off", "len", "obj", "log", "soff", "loc")
    def __init__(s, off, ln, obj, log, soff): s.off, s.len, s.obj, s.log, s.soff = off, ln, obj, log, soff
class FILL:
    __slots__ = ("off", "len", "byte")
    def __init__(s, off, ln, byte): s.off, s.len, s.byte = off, ln, byte
class LoopSum:
    def __init__(s): s.kb = None; s.cnt = None; s.alts = []; s.accs = {}; s.name = ""; s.special = None
class Alt:
    def __init__(s, lin, bv, writes, acc, loops): s.lin, s.bv, s.writes, s.acc, s.loops = lin, bv, writes, acc, loops

class State:
    __slots__ = ("env", "lin", "bv", "mem", "loops", "trace", "extra")
    def clone(s):
        n = State(); n.env = dict(s.env); n.lin = list(s.lin); n.bv = list(s.bv); n.mem = dict(s.mem); n.loops = list(s.loops); n.trace = s.trace; n.extra = dict(s.extra)
        return n
def new_state():
    s = State(); s.env = {}; s.lin = []; s.bv = []; s.mem = {}; s.loops = []; s.trace = (); s.extra = {}
    return s

# ------------------------------------------------------------------ CFG analysis
class Loop:
    def __init__(s, h): s.header = h; s.blocks = {h}; s.parent = None
def analyse(f):
    if hasattr(f, "loops"): return
    order = []; seen = set(); st = [(f.entry, iter(succs(f.blocks[f.entry])))]; seen.add(f.entry)
    while st:
        b, it = st[-1]
        for t in it:
            if t not in seen:
                seen.add(t); st.append((t, iter(succs(f.blocks[t])))); break
        else:
            order.append(b); st.pop()
    order.reverse(); idx = {b: i for i, b in enumerate(order)}
    preds = {b: [] for b in order}
    for b in order:
        for t in succs(f.blocks[b]): preds[t].append(b)
    idom = {f.entry: f.entry}; ch = True
    def inter(a, b):
        while a != b:
            while idx[a] > idx[b]: a = idom[a]
            while idx[b] > idx[a]: b = idom[b]
        return a
    while ch:
        ch = False
        for b in order[1:]:
            n = None
            for p in preds[b]:
                if p in idom: n = p if n is None else inter(p, n)
            if idom.get(b) != n: idom[b] = n; ch = True
    def dom(a, b):
        while True:
            if a == b: return True
            if b == f.entry: return False
            b = idom[b]
    loops = {}
    for b in order:
        for t in succs(f.blocks[b]):
            if dom(t, b):
                L_ = loops.setdefault(t, Loop(t)); st = [b]
                while st:
                    x = st.pop()
                    if x in L_.blocks: continue
                    L_.blocks.add(x); st.extend(preds[x])
            elif idx[t] <= idx[b]: raise Unsupported("irreducible control flow")
    for l in loops.values():
        c = [m for m in loops.values() if m is not l and l.header in m.blocks and l.blocks < m.blocks]
        l.parent = min(c, key=lambda m: len(m.blocks)) if c else None
    f.loops = loops; f.idx = idx
    # liveness (live-in after phis)
    def ops(o, acc):
        if isinstance(o, tuple):
            if len(o) == 2 and o[0] == "loc": acc.add(o[1]); return
            for y in o: ops(y, acc)
        elif isinstance(o, list):
            for y in o: ops(y, acc)
        elif isinstance(o, dict):
            for y in o.values(): ops(y, acc)
    use = {}; dfn = {}; phiuse = {b: set() for b in order}
    for b in order:
        u = set(); d = set(); blk = f.blocks[b]
        for ins in blk.ins:
            a = set()
            if ins.a: ops(ins.a, a)
            if ins.op in ("getelementptr", "call", "shufflevector"): ops(ins.x, a)
            u |= a - d
            if ins.res: d.add(ins.res)
        use[b] = u; dfn[b] = d
    for b in order:
        for ph in f.blocks[b].phis:
            for o, l in ph.x:
                a = set(); ops(o, a)
                if l in phiuse: phiuse[l] |= a
    live = {b: set(use[b]) for b in order}; ch = True
    while ch:
        ch = False
        for b in reversed(order):
            o = set(phiuse[b])
            for t in succs(f.blocks[b]):
                o |= live[t] - {ph.res for ph in f.blocks[t].phis}
            n = use[b] | (o - dfn[b])
            if n != live[b]: live[b] = n; ch = True
    f.live = live

PANIC = re.compile(r"panic|unwrap_failed|expect_failed|slice_(start|end)_index|index_fail|len_mismatch|assert_failed|handle_alloc_error|capacity_overflow|bounds_check|alloc_error|handle_error|cannot_unwind|resume_unwind|invalid_utf8|slice_error_fail")

ALLOC = re.compile(r"7___rustc\d+___rust_(alloc|realloc|dealloc|alloc_zeroed|no_alloc_shim_is_unstable_v2)$")
STRING_FROM_BOX = re.compile(r"6stringNtB\w+_6StringINtNt\w+7convert4FromINtNt\w+5boxed3BoxeEE4from$")
FMT_SINK = re.compile(r"(3fmteNt\w*7Display3fmt)$|Formatter3pad$|Formatter9write_str$")
class Failure:
    def __init__(s, kind, what, status, st, model=None, where=""): s.kind, s.what, s.status, s.lin, s.bv, s.model, s.where = kind, what, status, list(st.lin) if st else [], list(st.bv) if st else [], model, where
    def __repr__(s): return f"{s.kind}: {s.what} [{s.status}] {s.where}"

class Engine:
    def __init__(s, mod, cfg=None):
        Obj.PB = mod.pbits; Obj.BE = mod.be; Ty.PSIZE = mod.pbits // 8
        s.qdiv = {}; s.prod = {}; s.mod = mod; s.cfg = cfg or {}
        s.globs = {}; s.quiet = 0; s.obl = {}; s.fail = []; s.oblset = set()
        s.nfresh = itertools.count(); s.steps = 0; s.step_limit = 3_000_000; s.deadline = None
        s.stored_fns = {}; s.called_fns = set(); s.assumptions = set(); s.fn_stack = []
        s.hooks = {}; s.disj = {}; s.summaries = 0; s.unrolled = 0; s.paths = 0; s.used_fns = set(); s.feature_cond = {}
    # ------------------------------------------------------------ obligations
    def oblige(s, kind, what, ok, st=None, model=None, status=None, lin=None):
        if s.quiet: return
        s.obl[kind] = s.obl.get(kind, 0) + 1
        if not ok:
            w = " > ".join(x[-60:] for x in s.fn_stack[-2:])
            key = (kind, what, w)
            if key in s.oblset: return
            s.oblset.add(key)
            s.fail.append(Failure(kind, what, status or "refuted", st, model, w))
            if lin is not None: s.fail[-1].lin = list(lin)
    def need_ge(s, st, e, kind, what):
        if s.quiet: return
        ok = prove_ge(st.lin, e)
        if not ok and s.path_dead(st): ok = True
        s.oblige(kind, what if ok else f"{what}: cannot prove {e} >= 0", ok, st, model=(("ge", -e - 1),))
    def path_dead(s, st):
        if infeasible(st.lin + s.addr_extra(st, st.lin)): return True
        return s.bv_dead(st)
    def bv_dead(s, st):
        # components
        facts = list(st.bv); done = set()
        for f in facts:
            if f in done: continue
            few = related(facts, sup(f), maxvars=2)
            r, m = sat(few)
            if r == "unsat": return True
        for f in facts:
            if f in done: continue
            comp = related(facts, sup(f))
            done.update(comp)
            if len(comp) > 1:
                r, m = sat(comp, timeout=5000)
                if r == "unsat": return True
        return False
    # ------------------------------------------------------------ helpers
    def fresh(s, name, w=64): return A(Atom(f"{name}{next(s.nfresh)}", 0, (1 << w) - 1))
    def junkT(s, w, nm="junk"):
        if w % 8 == 0 and w > 8: return cat([var(nm, next(s.nfresh)) for _ in range(w // 8)])
        return var(nm, next(s.nfresh), w)
    def decide(s, st, b):
        if isinstance(b, T):
            if isc(b): return bool(b.a[0])
            v = sup(b)
            if len(v) <= 2:
                near = [f for f in st.bv if not sup(f).isdisjoint(v) and len(sup(f) | v) <= 2]
                if sat(near + [bnot1(b)])[0] == "unsat": return True
                if sat(near + [b])[0] == "unsat": return False
            else:
                fs = set(st.bv)
                if b in fs: return True
                if bnot1(b) in fs: return False
                cj = conjuncts(b)
                if all(c in fs for c in cj): return True
                if any(bnot1(c) in fs for c in cj): return False
                dj = disjuncts(b)
                if len(dj) > 1:
                    if any(c in fs for c in dj): return True
                    if all(bnot1(c) in fs for c in dj): return False
            return None
        if b.op == "lin":
            f = b.a[0]; fs = st.lin
            if addr_fact(f):
                ex = s.addr_extra(st, [f])
                if ex: fs = st.lin + ex
            if prove(fs, f): return True
            if prove(fs, neg(f)): return False
            return None
        if b.op == "not":
            r = s.decide(st, b.a[0]); return None if r is None else not r
        x = s.decide(st, b.a[0]); y = s.decide(st, b.a[1])
        if b.op == "and":
            if x is False or y is False: return False
            return True if x and y else None
        if x or y: return True
        return False if x is False and y is False else None
    def split(s, st, b):
        """-> list of (truth, state)"""
        r = s.decide(st, b)
        if r is not None: return [(r, st)]
        if isinstance(b, T):
            dj = None
            a = st.clone(); c = st.clone()
            a.bv.extend(conjuncts(b)); c.bv.extend(conjuncts(bnot1(b)))
            return [(True, a), (False, c)]
        if b.op == "lin":
            a = st.clone(); c = st.clone()
            a.lin.append(b.a[0]); c.lin.append(neg(b.a[0]))
            return [(True, a), (False, c)]
        if b.op == "not": return [(not t, x) for t, x in s.split(st, b.a[0])]
        out = []
        for t, x in s.split(st, b.a[0]):
            if b.op == "and":
                if not t: out.append((False, x))
                else: out.extend(s.split(x, b.a[1]))
            else:
                if t: out.append((True, x))
                else: out.extend(s.split(x, b.a[1]))
        return out
    def must(s, st, b):
        r = s.decide(st, b)
        if r is None: raise Fork(b)
        return r
    def toL(s, v):
        if isinstance(v, I): return v.L
        if isinstance(v, T) and isc(v): return K(v.a[0])
        return None
    def asL(s, v, st=None):
        if isinstance(v, I): return v.L
        if isinstance(v, T) and isc(v): return K(v.a[0])
        if isinstance(v, T) and st is not None: return s.asL(s.concretize(st, v))
        raise Unsupported(f"int from {v!r}"[:200])
    def concretize(s, st, t):
        """BV term used as an integer: fork over its possible values (small sets only)"""
        if len(sup(t)) > 4 and umax(t) > 16: raise Unsupported("bit-vector value used as an integer: " + show(t)[:120])
        vals = set(); cons = [f for f in st.bv if sup(f) and sup(f) <= sup(t)]
        vs = []
        for _ in range(17):
            r, m = sat(cons + [bnot1(eq(t, C(t.w, v))) for v in vs])
            if r == "unsat": break
            if r != "sat": raise Unsupported("concretize unknown")
            v = int(npeval([t], {x: np_u64(m.get(x, 0)) for x in sup(t)})[0]); vs.append(v)
        else: raise Unsupported("bit-vector value used as an integer: " + show(t)[:120])
        for v in vs[:-1]:
            if s.must(st, eq(t, C(t.w, v))): return I(t.w, K(v))
        if not vs: return I(t.w, K(0))
        return I(t.w, K(vs[-1]))
    def exact(s, st, v):
        """linear expression for the unsigned value"""
        if isinstance(v, T):
            if isc(v): return K(v.a[0])
            return s.exact(st, s.concretize(st, v))
        L_, M = v.L, 1 << v.w
        if prove_ge(st.lin, L_):
            if prove_ge(st.lin, K(M - 1) - L_): return L_
            if prove_ge(st.lin, L_ - M) and prove_ge(st.lin, K(2 * M - 1) - L_): return L_ - M
            if s.quiet: return L_
            s.must(st, lge(K(M - 1) - L_)); raise Unsupported(f"wrapped integer {L_}")
        if s.quiet: return L_
        if prove_ge(st.lin, -L_ - 1) and prove_ge(st.lin, L_ + M): return L_ + M
        s.must(st, lge(L_))
        if s.path_dead(st): raise Dead()
        raise Unsupported(f"wrapped integer {L_}")
    def sexact(s, st, v):
        if isinstance(v, T):
            if isc(v):
                x = v.a[0]; return K(x - (1 << v.w) if x >> (v.w - 1) else x)
            return s.sexact(st, s.concretize(st, v))
        L_, M = v.L, 1 << v.w
        if prove_ge(st.lin, L_ + M // 2) and prove_ge(st.lin, K(M // 2 - 1) - L_): return L_
        if prove_ge(st.lin, L_ - M // 2) and prove_ge(st.lin, K(M - 1 + M // 2) - L_): return L_ - M
        if s.quiet: return L_
        raise Unsupported(f"signed wrapped integer {L_}")
    # ------------------------------------------------------------ constants / globals
    def const_bytes(s, ty, op, out, rel, off):
        k = op[0]; n = ty.size()
        if k == "const": out[off:off + n] = op[2].to_bytes(n, "big" if Obj.BE else "little")
        elif k == "bytes": out[off:off + len(op[2])] = op[2]
        elif k in ("zero", "undef", "poison", "null"): pass
        elif k == "agg":
            if ty.k == "struct":
                for i, e in enumerate(op[2]): s.const_bytes(ty.elems[i], e, out, rel, off + ty.offset(i))
            else:
                es = ty.elems.size()
                for i, e in enumerate(op[2]): s.const_bytes(ty.elems, e, out, rel, off + i * es)
        elif k == "glob" or k == "expr": rel[off] = op
        else: raise Unsupported(f"const init {op}")
    def glob(s, name):
        o = s.globs.get(name)
        if o is not None: return o
        if name in s.mod.aliases:
            v = s.operand(None, s.mod.aliases[name], PTR)
            s.globs[name] = v; return v
        if name in s.mod.funcs or name in s.mod.decls:
            o = FnP(name)
        else:
            g = s.mod.globals.get(name)
            if g is None: raise Unsupported("global " + name)
            try: n = g.ty.size()
            except ParseError: n = 0
            if g.init is not None:
                by = bytearray(n); rel = {}; s.const_bytes(g.ty, g.init, by, rel, 0)
                ob = Obj(name, "const" if g.const else "glob", K(n), g.align, const=bytes(by), relocs=rel, writable=not g.const)
            else: ob = Obj(name, "ext", K(n), g.align, space=name)
            o = P(ob, K(0))
        s.globs[name] = o
        return o
    def operand(s, st, op, ty):
        k = op[0]
        if k == "loc":
            v = st.env.get(op[1])
            if v is None: raise Unsupported("undefined " + op[1])
            return v
        if k == "const": return C(op[1].n, op[2])
        if k == "glob": return s.glob(op[1])
        if k == "null": return P(None, K(0))
        if k in ("undef", "poison"): return s.undef(ty)
        if k == "zero": return s.zero(ty)
        if k == "agg":
            if ty.k == "vec": return V(ty.elems.bits(), [s.operand(st, e, ty.elems) for e in op[2]])
            es = ty.elems if ty.k == "struct" else [ty.elems] * len(op[2])
            return Agg([s.operand(st, e, t) for e, t in zip(op[2], es)])
        if k == "bytes": return Agg([C(8, b) for b in op[2]])
        if k == "expr":
            if op[1] == "gep":
                p = s.operand(st, op[3][0][1], PTR)
                return s.gep(st, op[2], p, op[3][1:])
            if op[1] in ("inttoptr",):
                v = s.operand(st, op[3], op[2]); return P(None, s.exact(st, v))
            if op[1] == "ptrtoint":
                v = s.operand(st, op[3], op[2]); return s.ptrint(v)
        raise Unsupported(f"operand {op}")
    def undef(s, ty):
        if ty.k == "int": return s.junkT(ty.n, "undef")
        if ty.k == "vec": return V(ty.elems.bits(), [s.junkT(ty.elems.bits(), "undef") for _ in range(ty.n)])
        if ty.k == "ptr": return Undef(ty)
        if ty.k == "struct": return Agg([s.undef(e) for e in ty.elems])
        if ty.k == "arr": return Agg([s.undef(ty.elems) for _ in range(ty.n)])
        return Undef(ty)
    def zero(s, ty):
        if ty.k == "int": return C(ty.n, 0)
        if ty.k == "vec": return V(ty.elems.bits(), [C(ty.elems.bits(), 0)] * ty.n)
        if ty.k == "ptr": return P(None, K(0))
        if ty.k == "struct": return Agg([s.zero(e) for e in ty.elems])
        if ty.k == "arr": return Agg([s.zero(ty.elems) for _ in range(ty.n)])
        raise Unsupported(f"zero {ty}")
    # ------------------------------------------------------------ pointers
    def ptrint(s, p): return I(Obj.PB, s.ptrL(p))
    def ptrL(s, p):
        if isinstance(p, FnP): raise Unsupported("fn address")
        if isinstance(p, Undef): raise Unsupported("undef ptr")
        if p.idx is not None: raise Unsupported("ptrtoint of indexed pointer")
        return (p.obj.addr if p.obj else K(0)) + p.off
    def gep(s, st, ty, p, idx, flags=()):
        if not isinstance(p, P): raise Unsupported(f"gep on {p!r}")
        off = p.off; bi = p.idx
        cur = ty; first = True
        for t, o in idx:
            v = s.operand(st, o, t) if isinstance(o, tuple) else o
            if first: sz = cur.size(); first = False
            elif cur.k == "struct":
                i = v.a[0]; off = off + cur.offset(i); cur = cur.elems[i]; continue
            else: cur = cur.elems; sz = cur.size()
            if isinstance(v, T) and not isc(v):
                d = mul(zext(v, 64), C(64, sz)); bi = d if bi is None else add(bi, d)
            else:
                L_ = s.toL(v)
                if L_ is None: raise Unsupported(f"gep index {v!r}")
                if isinstance(v, T) and v.a[0] >> (v.w - 1): L_ = L_ - (1 << v.w)
                elif isinstance(v, I) and v.w < Obj.PB: L_ = s.exact(st, v)
                off = off + L_ * sz
        return P(p.obj, off, bi)
    # ------------------------------------------------------------ memory
    def tobytes(s, v):
        """list of byte terms, or None"""
        if isinstance(v, T):
            if v.w % 8: v = zext(v, (v.w + 7) // 8 * 8)
            b = [ext(v, 8 * i, 8) for i in range(v.w // 8)]; return b[::-1] if Obj.BE else b
        if isinstance(v, V):
            if v.w % 8: return None
            out = []
            for x in v.l:
                out += s.tobytes(x)
            return out
        return None
    def frombytes(s, by, ty):
        if ty.k == "int":
            t = cat(by[::-1] if Obj.BE else by); return t if t.w == ty.n else ext(t, 0, ty.n)
        if ty.k == "vec":
            n = ty.elems.size(); return V(ty.elems.bits(), [s.frombytes(by[i * n:(i + 1) * n], INT[8 * n]) for i in range(ty.n)])
        if ty.k == "arr":
            n = ty.elems.size(); return Agg([s.frombytes(by[i * n:(i + 1) * n], ty.elems) for i in range(ty.n)])
        if ty.k == "struct": return Agg([s.frombytes(by[ty.offset(i):ty.offset(i) + e.size()], e) for i, e in enumerate(ty.elems)])
        if ty.k == "ptr" and all(isc(b) for b in by):
            return P(None, K(cat(by).a[0]))
        raise Unsupported(f"load {ty} from bytes")
    def access(s, st, p, size, align, what):
        if isinstance(p, Undef) or isinstance(p, FnP) or p.obj is None:
            if size == 0: return
            if s.path_dead(st): raise Dead()
            s.oblige("bounds", f"{what} through invalid pointer {p!r}", False, st); raise Dead()
        o = p.obj
        if s.quiet: return
        if st.extra.get(("freed", o.id)): s.oblige("use-after-free", f"{what} {o.name}", False, st)
        if o.kind == "ext": return
        if p.idx is not None:
            # bit-vector index: p.off + idx + size <= o.size, everything constant but idx
            if p.off.t or o.size.t: raise Unsupported("mixed index access")
            lim = o.size.k - p.off.k - size
            g = bnot1(ult(C(64, lim), p.idx)) if lim >= 0 else FALSE
            r, m = bvprove(st.bv, g)
            s.oblige("bounds", f"{what} of {size} bytes in {o.name} at table index", bool(r), st, model=m, status="unknown" if r is None else None)
            return
        s.need_ge(st, p.off, "bounds", f"{what} of {size} bytes before start of {o.name}")
        s.need_ge(st, o.size - p.off - size, "bounds", f"{what} of {size} bytes past end of {o.name}")
        if align and align > 1:
            r = modl(o.addr + p.off, align)
            s.oblige("align", f"{what} align {align} in {o.name} at {p.off}", (not r.t and r.k == 0) or prove(st.lin, ("eq", r)), st)
    def log(s, st, o): return st.mem.get(o.id, ())
    def read_byte(s, st, o, log, off):
        """value of byte `off` of object o under write log"""
        i = len(log) - 1
        while i >= 0:
            r = log[i]; i -= 1
            if isinstance(r, W):
                d = off - r.off
                if not d.t:
                    if 0 <= d.k < r.size:
                        if r.by is None: raise Unsupported("byte of a non-byte value")
                        return r.by[d.k]
                    continue
                if prove_ge(st.lin, -d - 1) or prove_ge(st.lin, d - r.size): continue
                if r.by is not None and prove_ge(st.lin, d) and prove_ge(st.lin, K(r.size - 1) - d):
                    for j in range(r.size - 1):
                        if s.must(st, leq(d - j)): return r.by[j]
                    return r.by[r.size - 1]
                s.must(st, lge(d)); s.must(st, lge(d - r.size))
                raise Unsupported("ambiguous read")
            elif isinstance(r, LW):
                if prove_ge(st.lin, -r.cnt): continue
                fs = st.lin + [("ge", A(r.kb)), ("ge", r.cnt - A(r.kb) - 1)]
                hit = False
                for al in r.alts:
                    for w in al:
                        if not (prove_ge(fs, w.off - off - 1) or prove_ge(fs, off - w.off - w.size)): hit = True
                if not hit: continue
                v = s.read_loopw(st, o, r, off)
                if v is not None: return v
                raise Unsupported(f"read of loop-written byte {o.name}+{off}")
            elif isinstance(r, CP):
                d = off - r.off
                if prove_ge(st.lin, -d - 1) or prove_ge(st.lin, d - r.len): continue
                if prove_ge(st.lin, d) and prove_ge(st.lin, r.len - d - 1):
                    return s.read_byte(st, r.obj, r.log, r.soff + d)
                s.must(st, lge(d)); s.must(st, lge(d - r.len)); raise Unsupported("ambiguous copy read")
            elif isinstance(r, FILL):
                d = off - r.off
                if prove_ge(st.lin, -d - 1) or prove_ge(st.lin, d - r.len): continue
                if prove_ge(st.lin, d) and prove_ge(st.lin, r.len - d - 1): return r.byte
                s.must(st, lge(d)); s.must(st, lge(d - r.len)); raise Unsupported("ambiguous fill read")
            else:
                v = r.read(s, st, off)
                if v is not None: return v
        if o.const is not None:
            if off.t: raise Unsupported("symbolic offset into constant")
            return C(8, o.const[off.k])
        bs = st.extra.get(("base", o.id))
        if bs is not None:
            if prove_ge(st.lin, bs[1] - off - 1): return var(bs[0], off)
            s.must(st, lge(bs[1] - off - 1)); raise Unsupported("read beyond the filtered text")
        if o.space is not None: return var(o.space, off)
        return var(("uninit", o.name, o.id), off)
    def read_loopw(s, st, o, r, off):
        """byte written by exactly one iteration of a single-alternative, non-overlapping strided loop"""
        if len(r.alts) != 1: return None
        ws = r.alts[0]
        cand = None
        for w in ws:
            c = w.off.coef(r.kb); d = off - w.off
            if c <= 0 or w.by is None: return None
            # off = w.off(k') + i  with k' expressible
            e = off - w.off.subst({r.kb: ZERO})
            q = divl(e, c); i = modl(e, c)
            if i.t: continue
            if i.k < w.size and w.size <= c and prove_ge(st.lin, q) and prove_ge(st.lin, r.cnt - q - 1):
                cand = subst_idx(w.by[i.k], {r.kb: q})
            else: return None
        return cand
    def load(s, st, p, ty, align, what="read"):
        size = ty.size()
        if isinstance(p, P) and p.obj is not None and (p.obj.kind == "glob" or p.obj.kind == "ext" and "std_detect" in p.obj.name):
            return s.load_glob(st, p, ty)
        s.access(st, p, size, align, what)
        o = p.obj
        if p.idx is not None:
            if o.const is None and size == 1 and not o.relocs and not o.size.t and not p.off.t and o.size.k - p.off.k <= 256:
                # a small buffer indexed by data: select among its bytes (the bounds of the index were an obligation of the access)
                l = [s.read_byte(st, o, s.log(st, o), K(p.off.k + i)) for i in range(min(o.size.k - p.off.k, umax(p.idx) + 1))]; b = 0
                while len(l) > 1:
                    c = ext(p.idx, b, 1); b += 1
                    l = [ite(c, l[i + 1], l[i]) if i + 1 < len(l) else l[i] for i in range(0, len(l), 2)]
                return s.frombytes([l[0]], ty)
            if o.const is None or o.relocs: raise Unsupported("indexed load of non-constant table")
            es = size; base = p.off.k; out = []
            if p.off.t: raise Unsupported("indexed load")
            idx = p.idx
            if es == 1: return s.frombytes([tab(o.const[base:], idx)], ty)
            # entry-sized tables: index is a multiple of the element size
            sh = (es & -es).bit_length() - 1
            if ext(idx, 0, sh) is not C(sh, 0): raise Unsupported("unaligned table index")
            q = lshrc(idx, sh); st_ = 1 << sh
            return s.frombytes([tab(o.const[base + i::st_], q) for i in range(es)], ty)
        lg = s.log(st, o)
        if o.relocs and not lg and not p.off.t and p.off.k in o.relocs:
            return s.operand(st, o.relocs[p.off.k], ty)
        # whole-value match
        for r in reversed(lg):
            if not isinstance(r, W): break
            d = p.off - r.off
            if d.t: break
            if d.k >= r.size or d.k + size <= 0: continue
            if d.k == 0 and r.size == size and r.val is not None:
                v = r.val
                if r.ty == ty: return v
                if r.by is None:
                    if isinstance(v, P) and ty.k == "int" and ty.n == Obj.PB: return s.ptrint(v)
                    if isinstance(v, I) and ty.k == "ptr": return s.int2ptr(st, v)
                    if isinstance(v, I) and ty.k == "int" and ty.n == v.w: return v
                    if isinstance(v, B) and ty.k == "int": 
                        return C(ty.n, 1 if s.must(st, v) else 0)
            elif r.by is None and d.k >= 0 and isinstance(r.val, Agg):
                pass
            break
        if ty.k in ("struct", "arr") and not p.off.t:
            if ty.k == "struct": return Agg([s.load(st, P(o, p.off + ty.offset(i)), e, 1) for i, e in enumerate(ty.elems)])
            if ty.n <= 64 and ty.elems.k != "int": return Agg([s.load(st, P(o, p.off + i * ty.elems.size()), ty.elems, 1) for i in range(ty.n)])
        if ty.k == "ptr" and o.space is None and o.const is None:
            pass
        # integer value stored as I: partial reads of constants
        by = [s.read_byte(st, o, lg, p.off + i) for i in range(size)]
        return s.frombytes(by, ty)
    def load_glob(s, st, p, ty):
        o = p.obj
        if p.off.t: raise Unsupported("global symbolic offset")
        v = st.extra.get(("g", o.name, p.off.k))
        if v is not None: return v
        forced = s.cfg.get("glob", {}).get(o.name)
        if forced is not None: return forced
        if "std_detect" in o.name and ty.k == "int":
            # contract of std_detect: the cache word is 0 until initialised and then constant; a 0 word makes the caller run
            # detect_and_initialize, which returns the same bits - so only the initialised case is distinguished
            s.assumptions.add("std_detect cache word: the CPU's feature bits, equal on every load once initialised")
            n = ty.size(); return cat([var(("detect", "cpu"), p.off + i) for i in range(n - 1)] + [cat((var(("detect", "cpu"), p.off + n - 1, 7), TRUE))])
        if p.off.k in o.relocs: return s.operand(st, o.relocs[p.off.k], ty)
        if ty.k == "int":
            # mutable static: value unknown to this call; identified by its location
            return cat([var(("static", o.name), p.off + i) for i in range(ty.size())])
        raise Unsupported(f"load of mutable global {o.name}")
    def store(s, st, p, v, ty, align, loc=None):
        size = ty.size()
        if isinstance(p, P) and p.obj is not None and p.obj.kind in ("glob", "ext"):
            s.oblige("race", f"non-atomic store to shared static {p.obj.name}", loc is None or "atomic" in loc.line, st)
            if isinstance(v, FnP):
                s.stored_fns.setdefault(p.obj.name, set()).add(v.name)
                if v.name in s.mod.funcs: s.need_isa(st, s.features(s.mod.funcs[v.name]), v.name, "dispatch-store", False)
            st.extra[("g", p.obj.name, p.off.k)] = v
            return
        s.access(st, p, size, align, "write")
        if p.idx is not None: raise Unsupported("store through bit-vector index")
        o = p.obj
        if not o.writable:
            s.oblige("write-frame", f"write to read-only {o.name}", False, st); return
        if isinstance(v, Agg):
            if ty.k == "struct":
                for i, e in enumerate(ty.elems): s.store(st, P(o, p.off + ty.offset(i)), v.l[i], e, 1)
            else:
                for i in range(ty.n): s.store(st, P(o, p.off + i * ty.elems.size()), v.l[i], ty.elems, 1)
            return
        if isinstance(v, Undef): return
        by = s.tobytes(v)
        s.addrec(st, o, W(p.off, size, by, v, ty, loc))
    def addrec(s, st, o, rec):
        lg = st.mem.get(o.id, ())
        if isinstance(rec, W) and o.kind == "alloca" and lg:
            lg = tuple(r for r in lg if not (isinstance(r, W) and r.off is rec.off and r.size <= rec.size))
        st.mem[o.id] = lg + (rec,)
    def int2ptr(s, st, v):
        L_ = s.toL(v)
        if L_ is None: raise Unsupported("inttoptr")
        for x, c in L_.t:
            for o in s.objs(st):
                if o.at is x and c == o.align: return P(o, L_ - o.addr)
        return P(None, L_)
    def objs(s, st): return st.extra.get("objs", ())
    def memcpy(s, st, d, sp, n, loc=None, move=False):
        L_ = s.exact(st, n)
        if not L_.t and L_.k == 0: return
        if not L_.t:
            k = L_.k
            s.access(st, sp, k, 1, "read"); s.access(st, d, k, 1, "write")
            if not d.obj.writable: s.oblige("write-frame", f"memcpy to read-only {d.obj.name}", False, st); return
            if not move and d.obj is sp.obj:
                df = d.off - sp.off
                ok = prove_ge(st.lin, df - k) or prove_ge(st.lin, -df - k)
                s.oblige("overlap", "memcpy operands disjoint", ok, st)
            out = []; i = 0; lg = s.log(st, sp.obj); so = sp.obj
            while i < k:
                off = sp.off + i; rec = None
                for r in reversed(lg):
                    if not isinstance(r, W): break
                    dd = off - r.off
                    if dd.t: break
                    if 0 <= dd.k < r.size: rec = (r, dd.k); break
                if rec and rec[1] == 0 and rec[0].size <= k - i and rec[0].val is not None and not any(
                        isinstance(q, W) and q is not rec[0] and not (q.off - rec[0].off).t and lg.index(q) > lg.index(rec[0]) and -q.size < (q.off - rec[0].off).k < rec[0].size for q in lg):
                    r = rec[0]; out.append((i, r.size, r.by, r.val, r.ty)); i += r.size; continue
                if so.relocs and not off.t and off.k in so.relocs:
                    out.append((i, 8, None, s.operand(st, so.relocs[off.k], PTR), PTR)); i += 8; continue
                try:
                    b = s.read_byte(st, so, lg, off)
                    if out and out[-1][4] is None: out[-1][2].append(b); out[-1] = (out[-1][0], out[-1][1] + 1, out[-1][2], None, None)
                    else: out.append((i, 1, [b], None, None))
                except Unsupported:
                    raise
                i += 1
            for i, sz, by, val, ty in out:
                s.addrec(st, d.obj, W(d.off + i, sz, by, val, ty, loc))
            return
        # symbolic length
        if s.must(st, lge(L_ - 1)) is False: return
        for p, w in ((sp, "read"), (d, "write")):
            if p.obj is None: raise Unsupported("memcpy int ptr")
            s.need_ge(st, p.off, "bounds", f"copy {w} before start of {p.obj.name}")
            s.need_ge(st, p.obj.size - p.off - L_, "bounds", f"copy {w} past end of {p.obj.name}")
        if not move and d.obj is sp.obj:
            df = d.off - sp.off
            s.oblige("overlap", "memcpy operands disjoint", prove_ge(st.lin, df - L_) or prove_ge(st.lin, -df - L_), st)
        if not d.obj.writable: s.oblige("write-frame", f"memcpy to read-only {d.obj.name}", False, st); return
        s.addrec(st, d.obj, CP(d.off, L_, sp.obj, s.log(st, sp.obj), sp.off))
    def memset(s, st, d, byte, n):
        L_ = s.exact(st, n)
        if not L_.t:
            if L_.k == 0: return
            s.access(st, d, L_.k, 1, "write")
            if L_.k <= 256: s.addrec(st, d.obj, W(d.off, L_.k, [byte] * L_.k)); return
        else:
            s.need_ge(st, d.off, "bounds", "memset before start"); s.need_ge(st, d.obj.size - d.off - L_, "bounds", "memset past end")
        s.addrec(st, d.obj, FILL(d.off, L_, byte))
    # ------------------------------------------------------------ arithmetic
    def binop(s, st, op, a, b, w, flags):
        if isinstance(a, V) or isinstance(b, V):
            return V(a.w, [s.binop(st, op, x, y, a.w, ()) for x, y in zip(a.l, b.l)])
        if isinstance(a, B) or isinstance(b, B):
            if op == "and": return s.cand(a, b)
            if op == "or": return s.cor(a, b)
            if op == "xor":
                if isinstance(b, T) and isc(b): return bnot(a) if b.a[0] else a
                if isinstance(a, T) and isc(a): return bnot(b) if a.a[0] else b
                x = s.must(st, a); return bnot(b) if x else b
            raise Unsupported("bool " + op)
        if isinstance(a, T) and isinstance(b, T):
            if op == "and": return AND(a, b)
            if op == "or": return OR(a, b)
            if op == "xor": return XOR(a, b)
            if op == "add": return add(a, b)
            if op == "sub": return sub(a, b)
            if op == "mul": return mul(a, b)
            if op in ("shl", "lshr", "ashr"): return shift(op, a, b)
            if isc(a) and isc(b) and b.a[0]:
                if op == "udiv": return C(w, a.a[0] // b.a[0])
                if op == "urem": return C(w, a.a[0] % b.a[0])
            if isc(b) and b.a[0] and b.a[0] & (b.a[0] - 1) == 0:
                n = b.a[0].bit_length() - 1
                if op == "udiv": return lshrc(a, n)
                if op == "urem": return AND(a, C(w, b.a[0] - 1))
            if op in ("udiv", "urem") and isc(b):
                a = s.concretize(st, a)
            else: raise Unsupported(f"bv {op}")
        # integer domain; a bit-vector operand is concretised
        if is_undef(a) or is_undef(b): return s.junkT(w, "undef")
        if isinstance(a, P) or isinstance(b, P): raise Unsupported("arith on pointer")
        if op in ("add", "sub"):
            x = s.asL(a, st); y = s.asL(b, st)
            r = I(w, x + y if op == "add" else x - y)
            if flags and not s.quiet:
                if "nuw" in flags:
                    ex, ey = s.exact(st, a), s.exact(st, b)
                    if op == "add": s.need_ge(st, K((1 << w) - 1) - ex - ey, "overflow", "add nuw")
                    else: s.need_ge(st, ex - ey, "overflow", "sub nuw")
            return r
        if op == "mul":
            x = s.asL(a, st); y = s.asL(b, st)
            if not x.t: x, y = y, x
            if y.t: raise Unsupported("nonlinear")
            return I(w, x * y.k)
        x = s.exact(st, a)
        if op == "shl":
            n = s.exact(st, b)
            if n.t: raise Unsupported("shl")
            return I(w, x * (1 << n.k))
        y = s.exact(st, b)
        if op in ("and", "or", "xor") and x.is_const() and not y.is_const(): x, y = y, x
        if op == "or" and not y.t:
            c = y.k
            if c == 0: return I(w, x)
            n = (c & -c).bit_length() - 1; m = c.bit_length()
            r = modl(x, 1 << m)
            # disjoint low bits
            lowz = divl(r, 1 << n)
            if not r.t: return I(w, x - r.k + (r.k | c))
            if prove(st.lin, ("eq", r)): return I(w, x + c)
            raise Unsupported("or")
        if op == "or":
            # disjoint or of two integers
            for p, q in ((x, y), (y, x)):
                hi = bounds(q)[1]
                if hi is not None:
                    m = 1 << hi.bit_length(); r = modl(p, m)
                    if not r.t and r.k == 0: return I(w, p + q)
            raise Unsupported("or int")
        if y.t and op in ("udiv", "urem"):
            # division by a variable: only 0 <= q <= x, q >= 1 iff x >= y (and 0 <= r < y) is used
            q = s.qdiv.get((x.id, y.id))
            if q is None: q = s.qdiv[(x.id, y.id)] = (A(Atom(f"({x} div {y})", 0, (1 << w) - 1)), A(Atom(f"({x} mod {y})", 0, (1 << w) - 1)))
            if s.must(st, lge(x - y)): st.lin += [("ge", q[0] - 1), ("ge", x - q[0]), ("ge", x - y - q[1])]
            else: st.lin += [("eq", q[0]), ("eq", q[1] - x)]
            st.lin.append(("ge", y - q[1] - 1))
            return I(w, q[0] if op == "udiv" else q[1])
        if y.t: raise Unsupported(f"int {op} by {y}")
        c = y.k
        if op in ("udiv", "urem"):
            if c == 0: raise Unsupported("div 0")
            return I(w, divl(x, c) if op == "udiv" else modl(x, c))
        if op == "lshr": return I(w, divl(x, 1 << c))
        if op == "ashr":
            x = s.sexact(st, a); return I(w, divl(x, 1 << c))
        if op == "and":
            # mask as union of runs
            r = K(0); i = 0
            while c >> i:
                if (c >> i) & 1:
                    j = i
                    while (c >> j) & 1: j += 1
                    if j >= w: r = r + (x - modl(x, 1 << i))
                    else: r = r + (modl(x, 1 << j) - modl(x, 1 << i))
                    i = j
                else: i += 1
            return I(w, r)
        if op == "xor":
            if c == (1 << w) - 1: return I(w, -x - 1)
            if c == 1: return I(w, x + 1 - modl(x, 2) * 2)
        if op in ("sdiv", "srem"):
            if prove_ge(st.lin, K((1 << (w - 1)) - 1) - x) and c < 1 << (w - 1): return I(w, divl(x, c) if op == "sdiv" else modl(x, c))
        raise Unsupported(f"int {op}")
    def cand(s, a, b):
        if isinstance(a, T) and isc(a): return b if a.a[0] else FALSE
        if isinstance(b, T) and isc(b): return a if b.a[0] else FALSE
        return B("and", (a, b))
    def cor(s, a, b):
        if isinstance(a, T) and isc(a): return TRUE if a.a[0] else b
        if isinstance(b, T) and isc(b): return TRUE if b.a[0] else a
        return B("or", (a, b))
    def icmp(s, st, pred, a, b, ty):
        if isinstance(a, V):
            return V(1, [s.icmp(st, pred, x, y, ty.elems) for x, y in zip(a.l, b.l)])
        if isinstance(a, B) or isinstance(b, B):
            if isinstance(a, T) and isc(a): a, b = b, a
            if isinstance(b, T) and isc(b) and pred in ("eq", "ne"):
                return a if (b.a[0] == 1) == (pred == "eq") else bnot(a)
            x = C(1, s.must(st, a)) if isinstance(a, B) else a
            y = C(1, s.must(st, b)) if isinstance(b, B) else b
            return s.icmp(st, pred, x, y, ty)
        if isinstance(a, Undef) or isinstance(b, Undef): raise Unsupported("icmp undef")
        if isinstance(a, FnP) or isinstance(b, FnP):
            for x, y in ((a, b), (b, a)):
                if isinstance(x, FnP) and isinstance(y, P) and y.obj is None and not y.off.t and y.off.k == 0:
                    if pred in ("eq", "ne"): return FALSE if pred == "eq" else TRUE
            if isinstance(a, FnP) and isinstance(b, FnP) and pred in ("eq", "ne"): return C(1, (a.name == b.name) == (pred == "eq"))
            raise Unsupported("icmp fn")
        if isinstance(a, P) and isinstance(b, P):
            if a.obj is b.obj and a.idx is None and b.idx is None:
                d = b.off - a.off
            else:
                if pred in ("eq", "ne"):
                    for x, y in ((a, b), (b, a)):
                        if y.obj is None and not y.off.t and y.off.k == 0 and x.obj is not None: return FALSE if pred == "eq" else TRUE
                d = s.ptrL(b) - s.ptrL(a)
            if pred == "eq": return leq(d)
            if pred == "ne": return bnot(leq(d))
            return {"ult": lambda: lge(d - 1), "ule": lambda: lge(d), "ugt": lambda: lge(-d - 1), "uge": lambda: lge(-d)}[pred]()
        if isinstance(a, T) and isinstance(b, T):
            q = cmp_reduced(pred, a, b) if REDUCED else None
            if q is not None: return q
            if pred == "eq": return eq(a, b)
            if pred == "ne": return bnot1(eq(a, b))
            if pred == "ult": return ult(a, b)
            if pred == "ugt": return ult(b, a)
            if pred == "ule": return bnot1(ult(b, a))
            if pred == "uge": return bnot1(ult(a, b))
            if pred == "slt": return slt(a, b)
            if pred == "sgt": return slt(b, a)
            if pred == "sle": return bnot1(slt(b, a))
            if pred == "sge": return bnot1(slt(a, b))
        if is_undef(a) or is_undef(b): return s.junkT(1, "undef")
        if pred[0] == "s": x, y = s.sexact(st, a), s.sexact(st, b)
        else:
            if isinstance(a, T) and not isc(a): a = s.concretize(st, a)
            if isinstance(b, T) and not isc(b): b = s.concretize(st, b)
            if pred in ("eq", "ne"):
                d = s.toL(a) - s.toL(b)
                if not d.t: return C(1, ((d.k % (1 << a.w)) == 0) == (pred == "eq"))
            x, y = s.exact(st, a), s.exact(st, b)
        d = y - x; p = pred[-2:]
        if pred == "eq": return leq(d)
        if pred == "ne": return bnot(leq(d))
        return {"lt": lambda: lge(d - 1), "le": lambda: lge(d), "gt": lambda: lge(-d - 1), "ge": lambda: lge(-d)}[p]()
    def cast(s, st, op, v, t1, t2):
        if op == "bitcast":
            if t1.k == "ptr" or t1 == t2: return v
            if isinstance(v, I) and t2.k == "int": return v
            by = None
            if t1.k == "vec":
                bits = []
                for x in v.l:
                    if isinstance(x, B): x = C(1, s.must(st, x))
                    bits.append(x)
                t = cat(bits)
            else: t = v
            if isinstance(t, I): raise Unsupported("bitcast int")
            if t2.k == "int": return t
            w = t2.elems.bits(); return V(w, [ext(t, i * w, w) for i in range(t2.n)])
        if op in ("ptrtoint", "ptrtoaddr"):
            r = s.ptrint(v); return r if t2.n == Obj.PB else s.cast(st, "trunc" if t2.n < Obj.PB else "zext", r, INT[Obj.PB], t2)
        if op == "inttoptr": return s.int2ptr(st, v)
        if isinstance(v, V):
            w = t2.elems.bits(); return V(w, [s.cast(st, op, x, t1.elems, t2.elems) for x in v.l])
        if isinstance(v, B):
            if op == "trunc": return v
            t = s.must(st, v)
            return C(t2.n, (1 if op == "zext" else -1) if t else 0)
        if is_undef(v) and t2.k == "int": return s.junkT(t2.n, "undef")
        if isinstance(v, T):
            if op == "zext": return zext(v, t2.n)
            if op == "sext": return sext(v, t2.n)
            if op == "trunc": return ext(v, 0, t2.n)
        if isinstance(v, I):
            if op == "zext": return I(t2.n, s.exact(st, v))
            if op == "sext": return I(t2.n, s.sexact(st, v))
            if op == "trunc":
                if t2.n == 1:
                    return bnot(leq(modl(v.L, 2)))
                return I(t2.n, v.L)
        raise Unsupported(f"cast {op} {v!r}")
    def select(s, st, c, a, b):
        if isinstance(c, V):
            return V(a.w, [s.select(st, x, y, z) for x, y, z in zip(c.l, a.l, b.l)])
        if isinstance(c, B):
            r = s.decide(st, c)
            if r is None:
                if isinstance(a, (B, T)) and isinstance(b, (B, T)) and (isinstance(a, B) or a.w == 1) and (isinstance(b, B) or b.w == 1):
                    return s.cor(s.cand(c, a), s.cand(bnot(c), b))
                raise Fork(c)
            return a if r else b
        if isc(c): return a if c.a[0] else b
        if isinstance(a, T) and isinstance(b, T): 
            return ite(c, a, b)
        if isinstance(a, V): return V(a.w, [ite(c, x, y) if isinstance(x, T) and isinstance(y, T) else s.select(st, c, x, y) for x, y in zip(a.l, b.l)])
        if isinstance(a, (B, T)) and isinstance(b, (B, T)): return s.cor(s.cand(c, a), s.cand(bnot(c), b))
        if a is b: return a
        return a if s.must(st, c) else b
    # ------------------------------------------------------------ execution
    def call_function(s, st, name, args):
        """execute a defined function; returns list of (value, state)"""
        f = s.mod.funcs[name]; parse_body(f, s.mod); analyse(f)
        s.used_fns.add(name)
        if len(s.fn_stack) > 40: raise Unsupported("call depth")
        saved = st.env; st.env = {}
        for (t, nm, at), v in zip(f.params, args): st.env[nm] = v
        s.fn_stack.append(name)
        try: outs = s.region(f, None, [(st, f.entry, None, 0)])
        finally: s.fn_stack.pop()
        r = []
        for o in outs:
            o[1].env = saved if len(outs) == 1 else dict(saved)
            r.append((o[2], o[1]))
        return r
    def phis(s, st, b, prev):
        if not b.phis: return
        vals = []
        for ph in b.phis:
            for o, l in ph.x:
                if l == prev: vals.append((ph.res, s.operand(st, o, ph.ty))); break
            else: raise Unsupported("phi")
        for r, v in vals: st.env[r] = v
    def merge(s, f, bn, items):
        """join states that differ only in facts about object addresses (after phi evaluation)"""
        live = f.live[bn]; keep = {}; res = []
        for st in items:
            key = (tuple(vkey(st.env.get(v)) for v in live), tuple((o, id(l)) for o, l in sorted(st.mem.items())), tuple(st.bv), tuple(id(l) for l in st.loops),
                   tuple(f for f in st.lin if not addr_fact(f)), tuple(sorted((repr(k), vkey(v)) for k, v in st.extra.items() if k != "objs")))
            o = keep.get(key)
            if o is None: keep[key] = st; res.append(st)
            else:
                q = set(st.lin); o.lin = [f for f in o.lin if f in q]
                if len(s.objs(st)) < len(s.objs(o)): o.extra["objs"] = s.objs(st)
        return res
    def region(s, f, loop, work, unroll=None):
        """explore from work items until leaving `loop` (or returning)"""
        outs = []
        work = WorkList(f, work)
        while work:
            st, bn, prev, i = work.pop()
            b = f.blocks[bn]
            if i == 0 and prev is not None and prev != "nophi":
                same = work.take(bn)
                if same:
                    its = []
                    for s2, p2 in [(st, prev)] + same:
                        s.phis(s2, b, p2); its.append(s2)
                    its = s.merge(f, bn, its)
                    for s2 in its[1:]: work.append((s2, bn, "nophi", 0))
                    st = its[0]; prev = "nophi"
            if i == -1:     # entering an inner loop
                for o in s.run_loop(st, f, f.loops[bn], prev):
                    if o[0] == "ret": outs.append(o); continue
                    t2, pv = o[2]
                    if loop is not None:
                        if t2 == loop.header: outs.append(("back", o[1], pv)); continue
                        if t2 not in loop.blocks: outs.append(("exit", o[1], (t2, pv))); continue
                    work.append((o[1], t2, pv, -1 if t2 in f.loops else 0))
                continue
            if i == 0:
                if prev is not None and prev != "nophi": s.phis(st, b, prev)
            s.steps += 1
            if s.steps > s.step_limit or (s.deadline and time.time() > s.deadline): raise PathLimit("budget exhausted")
            ins = b.ins
            n = len(ins)
            try:
                while i < n:
                    x = ins[i]
                    if x.op in ("br", "condbr", "switch", "ret", "unreachable"): break
                    if x.op == "call":
                        r = s.call(st, x)
                        if r is not None:   # list of (value,state)
                            for v, s2 in r:
                                if x.res: s2.env[x.res] = v
                                work.append((s2, bn, prev, i + 1))
                            break
                    else: s.step(st, x)
                    i += 1
                else: raise Unsupported("fell off block")
                if x.op == "call": continue
                # terminator
                if x.op == "ret":
                    v = s.operand(st, x.a[0], x.ty) if x.a else None
                    outs.append(("ret", st, v)); continue
                if x.op == "unreachable":
                    if not s.quiet:
                        d = s.path_dead(st); s.oblige("unreachable", "unreachable reached", d, st)
                    continue
                if x.op == "br": targets = [(st, x.x)]
                elif x.op == "condbr":
                    c = s.operand(st, x.a[0], I1)
                    if isinstance(c, I): c = bnot(leq(modl(c.L, 2)))
                    r = s.decide(st, c)
                    if r is None:
                        if unroll is not None and not isinstance(c, T) and any(t not in loop.blocks for t in x.x): raise NeedSymbolic(loop)
                        targets = [(s2, x.x[0] if t else x.x[1]) for t, s2 in s.split(st, c)]
                    else:
                        # a symbolic exit test that a large lower bound on a length decides for many iterations
                        if unroll is not None and unroll > 70 and isinstance(c, B) and any(t not in loop.blocks for t in x.x) and b_symbolic(c): raise NeedSymbolic(loop)
                        targets = [(st, x.x[0] if r else x.x[1])]
                else:
                    v = s.operand(st, x.a[0], x.ty); targets = []
                    d, cs = x.x
                    if isinstance(v, I) or isc(v):
                        e = s.exact(st, v); cur = st
                        for c, l in cs:
                            q = leq(e - c); r = s.decide(cur, q)
                            if r is True: targets.append((cur, l)); cur = None; break
                            if r is False: continue
                            if unroll is not None and l not in loop.blocks: raise NeedSymbolic(loop)
                            y = cur.clone(); y.lin.append(("eq", e - c)); targets.append((y, l))
                            cur.lin.append(("ne", e - c))
                        if cur is not None and not infeasible(cur.lin): targets.append((cur, d))
                    else:
                        cur = st
                        for c, l in cs:
                            q = eq(v, C(v.w, c)); r = s.decide(cur, q)
                            if r is True: targets.append((cur, l)); cur = None; break
                            if r is False: continue
                            y = cur.clone(); y.bv.extend(conjuncts(q)); targets.append((y, l)); cur.bv.extend(conjuncts(bnot1(q)))
                        if cur is not None: targets.append((cur, d))
                if len(targets) > 1:
                    s.paths += len(targets) - 1
                for s2, t in targets:
                    if loop is not None:
                        if t == loop.header: outs.append(("back", s2, bn)); continue
                        if t not in loop.blocks: outs.append(("exit", s2, (t, bn))); continue
                    if t in f.loops: work.append((s2, t, bn, -1)); continue
                    work.append((s2, t, bn, 0))
            except Fork as fk:
                for t, s2 in s.split(st, fk.cond): work.append((s2, bn, "nophi" if i == 0 else prev, i))
            except Dead: pass
            except Unsupported as e:
                if not getattr(e, "where", None): e.where = f"{f.name[-60:]} {bn}: {x.line[:140]}"; e.args = (f"{e.args[0]} at {e.where}",)
                raise
        return outs
    def step(s, st, x):
        op = x.op; env = st.env
        if op in BIN:
            w = x.ty.n if x.ty.k == "int" else x.ty.elems.bits()
            env[x.res] = s.binop(st, op, s.operand(st, x.a[0], x.ty), s.operand(st, x.a[1], x.ty), w, x.flags)
        elif op == "load":
            p = s.operand(st, x.a[0], PTR)
            if isinstance(p, P) and p.obj is not None and p.obj.kind == "glob": s.oblige("race", f"non-atomic load of shared static {p.obj.name}", "atomic" in x.line, st)
            env[x.res] = s.load(st, p, x.ty, x.x)
        elif op == "store":
            v = s.operand(st, x.a[0], x.ty); p = s.operand(st, x.a[1], PTR); s.store(st, p, v, x.ty, x.x, x)
        elif op == "getelementptr":
            p = s.operand(st, x.a[0], PTR); env[x.res] = s.gep(st, x.ty, p, x.x, x.flags)
        elif op == "icmp": env[x.res] = s.icmp(st, x.x, s.operand(st, x.a[0], x.ty), s.operand(st, x.a[1], x.ty), x.ty)
        elif op in CAST: env[x.res] = s.cast(st, op, s.operand(st, x.a[0], x.x), x.x, x.ty)
        elif op == "select":
            c = s.operand(st, x.a[0], x.x); env[x.res] = s.select(st, c, s.operand(st, x.a[1], x.ty), s.operand(st, x.a[2], x.ty))
        elif op == "shufflevector":
            a = s.operand(st, x.a[0], x.ty); b = s.operand(st, x.a[1], x.ty); l = a.l + b.l; mt, mo = x.x
            if mo[0] == "zero": ix = [0] * mt.n
            elif mo[0] in ("poison", "undef"): ix = [0] * mt.n
            else: ix = [e[2] if e[0] == "const" else 0 for e in mo[2]]
            env[x.res] = V(a.w, [l[j] for j in ix])
        elif op == "extractelement":
            a = s.operand(st, x.a[0], x.ty); i = s.exact(st, s.operand(st, x.a[1], I64)); env[x.res] = a.l[i.k]
        elif op == "insertelement":
            a = s.operand(st, x.a[0], x.ty); e = s.operand(st, x.a[1], x.ty.elems); i = s.exact(st, s.operand(st, x.a[2], I64)); l = list(a.l)
            if isinstance(e, I): e = s.I2T(e)
            l[i.k] = e; env[x.res] = V(a.w, l)
        elif op == "extractvalue":
            v = s.operand(st, x.a[0], x.ty)
            for i in x.x: v = v.l[i]
            env[x.res] = v
        elif op == "insertvalue":
            v = s.operand(st, x.a[0], x.ty); e = s.operand(st, x.a[1], None) if x.a[1][0] == "loc" else s.operand(st, x.a[1], s.subty(x.ty, x.x))
            def ins(v, ix):
                l = list(v.l); l[ix[0]] = e if len(ix) == 1 else ins(l[ix[0]], ix[1:]); return Agg(l)
            env[x.res] = ins(v, x.x)
        elif op == "alloca":
            n = x.ty.size(); o = Obj(f"{x.res}.{next(s.nfresh)}", "alloca", K(n), x.x or 1)
            st.extra["objs"] = s.objs(st) + (o,)
            env[x.res] = P(o, K(0))
        elif op == "freeze":
            env[x.res] = s.operand(st, x.a[0], x.ty)
        elif op == "fence": pass
        else: raise Unsupported(f"instruction {x.line[:100]}")
    def subty(s, ty, ix):
        for i in ix: ty = ty.elems[i] if ty.k == "struct" else ty.elems
        return ty
    def I2T(s, v):
        if not v.L.t: return C(v.w, v.L.k)
        raise Unsupported("integer into vector")
    def addr_extra(s, st, facts):
        """memory model: distinct live objects do not overlap (added only when addresses are compared)"""
        ats = set()
        for f in facts:
            if addr_fact(f): ats |= {x for x in fact_atoms(f) if x.name.startswith("addr_")}
        if len(ats) < 2: return []
        os = [o for o in s.objs(st) if o.at in ats]; out = []
        for i, a in enumerate(os):
            for b in os[i + 1:]:
                k = (a.id, b.id); f = s.disj.get(k)
                if f is None: f = s.disj[k] = ("or", ((("ge", b.addr - a.addr - a.size),), (("ge", a.addr - b.addr - b.size),)))
                out.append(f)
        return out
    # ------------------------------------------------------------ calls
    def call(s, st, x):
        cal = x.x["callee"]; args = x.x["args"]
        if cal[0] == "asm": return s.asm(st, x)
        if cal[0] == "glob": name = cal[1]
        else:
            p = s.operand(st, cal, PTR)
            if not isinstance(p, FnP): raise Unsupported(f"indirect call {p!r}")
            name = p.name
        av = [s.operand(st, o, t) if o is not None else None for t, o, _ in args]
        h = s.hooks.get(name)
        if h is not None:
            r = h(s, st, x, av)
            if r is not NotImplemented: return r
        if name.startswith("@llvm."):
            v = s.intrinsic(st, name[6:], av, x)
            if x.res: st.env[x.res] = v
            return None
        if name in s.mod.funcs:
            f = s.mod.funcs[name]
            if PANIC.search(name) and s.is_noreturn(f): return s.panic(st, name)
            s.check_isa(st, f)
            s.called_fns.add(name)
            return s.call_function(st, name, av)
        d = s.mod.decls.get(name)
        if PANIC.search(name) or (d is not None and s.is_noreturn(d)): return s.panic(st, name)
        r = s.external(st, name, av, x)
        if r is NotImplemented: raise Unsupported("call " + name)
        return r
    def is_noreturn(s, f): return "noreturn" in (s.mod.attrs.get(f.attrs) or "")
    def panic(s, st, name):
        if not s.quiet:
            if st.extra.get("allocfail") and re.search("handle_alloc_error|handle_error", name): return []
            dead = s.path_dead(st)
            if not dead and s.cfg.get("panic_ok") is not None and s.cfg["panic_ok"](s, st, name):
                s.oblige("panic", "documented panic only under its documented condition", True, st); return []
            s.oblige("panic", "panic reachable: " + re.sub(r"^@_R\w*?panicking\d*", "", name)[-70:], dead, st)
        return []
    def features(s, f):
        a = s.mod.attrs.get(f.attrs) or ""
        m = re.search(r'"target-features"="([^"]*)"', a)
        return set(x[1:] for x in m.group(1).split(",") if x.startswith("+")) if m else set()
    def check_isa(s, st, f):
        fe = s.features(f)
        if fe: s.need_isa(st, fe, f.name, "isa-guard", True)
    def need_isa(s, st, fe, name, kind, caller):
        """every extension the function is compiled for is guaranteed: by the caller's own features, by the compilation target, or by detection facts"""
        cur = set(s.cfg.get("base_features", ()))
        if caller and s.fn_stack and s.fn_stack[-1] in s.mod.funcs: cur |= s.features(s.mod.funcs[s.fn_stack[-1]])
        need = fe - cur - ISA_BASE
        for q in sorted(need):
            alts = [s.feature_cond[g] for g in ISA_IMPLIED_BY.get(q, (q,)) if g in s.feature_cond]
            fs = set(st.bv)
            ok = any(all(c in fs for c in conjuncts(a)) for a in alts) or (alts and bvprove(st.bv, ORS(alts))[0])
            s.oblige(kind, f"{name[-60:]} needs {q}, not established by detection or compilation" if not ok else q, bool(ok), st)
    def probe_features(s):
        for q, n in PROBES.items():
            if "@" + n in s.mod.funcs:
                r = s.call_function(new_state(), "@" + n, [])
                if len(r) != 1: raise Unsupported("feature probe")
                s.feature_cond[q] = r[0][0]
    def external(s, st, name, av, x):
        if "std_detect" in name or "detect_and_initialize" in name:
            s.assumptions.add("std_detect (" + name[-50:] + "): returns the CPU's feature bits; modelled as an arbitrary value, equal on every call")
            ty = x.ty
            def mkv(t, o):
                if t.k == "int": return cat([var(("detect", name), K(o * 16 + i)) for i in range(t.size())])
                if t.k == "arr": return Agg([mkv(t.elems, o * 8 + i) for i in range(t.n)])
                if t.k == "struct": return Agg([mkv(e, o * 8 + i) for i, e in enumerate(t.elems)])
                raise Unsupported("detect type")
            return [(mkv(ty, 0), st)] if ty.k != "void" else [(None, st)]
        if name.startswith("@hx_par_"): return s.par(st, name[8:], av)
        m = ALLOC.search(name)
        if m: return s.alloc(st, m.group(1), av)
        if STRING_FROM_BOX.search(name):
            # String::from(Box<str>): the same allocation, length and capacity = length (contract of alloc)
            d, p, n = av; k = s.exact(st, n)
            s.assumptions.add("String::from(Box<str>) takes over the box's allocation unchanged (contract of alloc, applied at the call)")
            z = Ty.PSIZE; s.store(st, d, s.lval(k), INT[Obj.PB], z); s.store(st, P(d.obj, d.off + z), p, PTR, z); s.store(st, P(d.obj, d.off + 2 * z), s.lval(k), INT[Obj.PB], z)
            return [(None, st)]
        m = FMT_SINK.search(name)
        if m:
            f, p, n = (av[2], av[0], av[1]) if m.group(1) else av
            k = s.exact(st, n)
            if k.t or k.k > 256: raise Unsupported("formatted text of unknown length")
            s.access(st, p, max(1, k.k), 1, "read")
            by = tuple(s.read_byte(st, p.obj, s.log(st, p.obj), p.off + i) for i in range(k.k))
            st.extra["fmt"] = st.extra.get("fmt", ()) + ((f, by),)
            s.assumptions.add("core::fmt::Formatter::{pad, write_str} and <str as Display>::fmt print the given text (contract of core, applied at the call)")
            return [(var("fmtret", K(len(st.extra["fmt"])), 1), st)]
        if name in ("@memcmp", "@bcmp"):
            a, b, n = av; k = s.exact(st, n)
            if k.t or k.k > 256: raise Unsupported("memcmp of unknown length")
            r = C(32, 0); k = k.k
            if k:
                s.access(st, a, k, 1, "read"); s.access(st, b, k, 1, "read")
                x1 = [s.read_byte(st, a.obj, s.log(st, a.obj), a.off + i) for i in range(k)]; x2 = [s.read_byte(st, b.obj, s.log(st, b.obj), b.off + i) for i in range(k)]
                for p, q in reversed(list(zip(x1, x2))): r = ite(eq(p, q), r, ite(ult(p, q), C(32, -1), C(32, 1)))
            return [(r, st)]
        return NotImplemented
    def par(s, st, what, av):
        """the contract of rayon's parallel iterators (harness/rayon_stub): item i exists iff i*size < len, for one arbitrary i"""
        if what == "threads":
            s.assumptions.add("rayon::current_num_threads() is between 1 and 65535")
            return [(I(Obj.PB, A(Atom("threads", 1, 65535))), st)]
        if what == "index":
            s.assumptions.add("rayon: for_each calls the closure exactly once for every item of the (zipped) chunk sequence and returns after all calls; verified for one arbitrary item")
            st.extra["par_calls"] = st.extra.get("par_calls", 0) + 1
            return [(I(Obj.PB, A(Atom("i", 0))), st)]
        if what == "region":
            p, a, n, t = av; st.extra["par"] = st.extra.get("par", ()) + ((p, s.exact(st, a), s.exact(st, n), s.exact(st, t)),)
            return [(None, st)]
        i = s.asL(av[0], st); k = s.exact(st, av[1])
        if len(i.t) != 1 or i.t[0][1] != 1 or i.k: raise Unsupported("parallel index")
        r = i * k.k
        for x, c in k.t:
            key = (i.t[0][0].id, x.id); y = s.prod.get(key)
            if y is None: y = s.prod[key] = A(Atom(f"i*{x}", 0))
            r = r + y * c
        if what == "exists": return [(lge(s.exact(st, av[2]) - r - 1), st)]
        if what == "start": return [(I(Obj.PB, r), st)]
        return NotImplemented
    def lval(s, k): return I(Obj.PB, k)
    def alloc(s, st, what, av):
        """the global allocator's contract: fresh disjoint memory of the requested size, or null"""
        if what == "no_alloc_shim_is_unstable_v2": return [(None, st)]
        s.assumptions.add("global allocator: alloc returns null or fresh memory of the requested size and alignment, realloc also keeps the old contents, dealloc frees; allocation failure diverges (handle_alloc_error)")
        if what in ("alloc", "alloc_zeroed"):
            n = s.exact(st, av[0]); al = s.exact(st, av[1])
            if al.t: raise Unsupported("allocation of unknown alignment")
            s.need_ge(st, n - 1, "bounds", "allocation of zero bytes"); s.need_ge(st, K((1 << (Obj.PB - 1)) - al.k) - n, "bounds", "allocation larger than isize::MAX")
            return s.newheap(st, n, al.k, lambda st2, o: s.addrec(st2, o, FILL(K(0), n, C(8, 0))) if what == "alloc_zeroed" else None)
        p = av[0]
        if not isinstance(p, P) or p.obj is None or p.obj.kind != "heap": raise Unsupported("deallocation of a foreign pointer")
        o = p.obj; old = s.exact(st, av[1])
        s.oblige("use-after-free", f"{what} of a live block", not st.extra.get(("freed", o.id)), st)
        s.oblige("bounds", f"{what}: pointer is the start of the block", prove(st.lin, ("eq", p.off)), st); s.oblige("bounds", f"{what}: size is the block's size", prove(st.lin, ("eq", old - o.size)), st)
        if what == "dealloc":
            st.extra[("freed", o.id)] = True; return [(None, st)]
        n = s.exact(st, av[3]); al = s.exact(st, av[2]); s.need_ge(st, n - 1, "bounds", "reallocation to zero bytes")
        def fill(st2, o2):
            st2.extra[("freed", o.id)] = True
            if s.must(st2, lge(n - old)): s.addrec(st2, o2, CP(K(0), old, o, st2.mem.get(o.id, ()), K(0)))
            else: s.addrec(st2, o2, CP(K(0), n, o, st2.mem.get(o.id, ()), K(0)))
        s.must(st, lge(n - old))
        return s.newheap(st, n, al.k, fill)
    def newheap(s, st, n, al, fill):
        st2 = st.clone(); st2.extra["allocfail"] = True
        o = Obj(f"heap{next(s.nfresh)}", "heap", n, al); st.extra["objs"] = s.objs(st) + (o,); st.extra["heap"] = st.extra.get("heap", ()) + (o,)
        fill(st, o)
        return [(P(o, K(0)), st), (P(None, K(0)), st2)]
    def asm(s, st, x):
        t = x.x["callee"][1]; av = [s.operand(st, o, ty) for ty, o, _ in x.x["args"]]
        if "vpavgb" in t or "pavgb" in t:
            st.env[x.res] = s.pavg(av[0], av[1], x.ty); return None
        if t in ('""',) : return None
        raise Unsupported("asm " + t)
    def as8(s, v, n=None): return V(8, s.tobytes(v))
    def pavg(s, a, b, ty):
        a, b = s.as8(a), s.as8(b)
        r = V(8, [ext(lshrc(add(add(zext(p, 16), zext(q, 16)), C(16, 1)), 1), 0, 8) for p, q in zip(a.l, b.l)])
        w = ty.elems.bits(); return s.frombytes(list(r.l), ty)
    def vmap(s, f, *vs):
        if isinstance(vs[0], V): return V(vs[0].w, [f(*xs) for xs in zip(*[v.l for v in vs])])
        return f(*vs)
    def intrinsic(s, st, n, av, x):
        base = n.split(".")[0]
        if base in ("lifetime", "dbg", "experimental", "donothing", "prefetch", "var"): return None
        if base == "expect": return av[0]
        if base == "assume":
            if isinstance(av[0], (T, B)) and not (isinstance(av[0], T) and isc(av[0]) and av[0].a[0]):
                r = s.decide(st, av[0])
                if not s.quiet:
                    ok = r is True or s.path_dead(st)
                    s.oblige("assume", f"llvm.assume({str(av[0])[:100]})", ok, st)
                if r is None:
                    rs = [q for t, q in s.split(st, av[0]) if t]
                    if len(rs) == 1: st.lin, st.bv = rs[0].lin, rs[0].bv
                elif r is False: raise Dead()
            return None
        if ".with.overflow." in n:
            op = base; a, b = av; w = x.ty.elems[0].n
            if isinstance(a, T) and isinstance(b, T) and not (isc(a) and isc(b)):
                ww = 2 * w
                if w > 32: 
                    if op[0] == "u" and op in ("uadd", "usub"):
                        if op == "usub": return Agg([sub(a, b), ult(a, b)])
                        return Agg([add(a, b), ult(add(a, b), a)])
                    a = s.concretize(st, a) if not isc(a) else a; b = s.concretize(st, b) if not isc(b) else b
                else:
                    e = zext if op[0] == "u" else sext
                    f = {"add": add, "sub": sub, "mul": mul}[op[1:]]
                    r = f(e(a, ww), e(b, ww)); lo = ext(r, 0, w)
                    return Agg([lo, bnot1(eq(r, e(lo, ww)))])
            if op[0] == "u":
                p, q = s.exact(st, a), s.exact(st, b)
                if op == "umul":
                    if p.t and q.t: raise Unsupported("nonlinear umul")
                    r = p * q.k if not q.t else q * p.k
                else: r = p + q if op == "uadd" else p - q
                ov = s.cor(lge(r - (1 << w)), lge(-r - 1))
                return Agg([I(w, r), ov])
            p, q = s.sexact(st, a), s.sexact(st, b)
            if op == "smul":
                if p.t and q.t: raise Unsupported("nonlinear smul")
                r = p * q.k if not q.t else q * p.k
            else: r = p + q if op == "sadd" else p - q
            return Agg([I(w, r), s.cor(lge(r - (1 << (w - 1))), lge(-r - (1 << (w - 1)) - 1))])
        if base in ("umin", "umax", "smin", "smax"):
            def f(a, b):
                if isinstance(a, T) and isinstance(b, T):
                    c = ult(a, b) if base[0] == "u" else slt(a, b)
                    return ite(c, a, b) if base.endswith("min") else ite(c, b, a)
                p, q = (s.exact(st, a), s.exact(st, b)) if base[0] == "u" else (s.sexact(st, a), s.sexact(st, b))
                r = s.must(st, lge(q - p))
                return (a if r else b) if base.endswith("min") else (b if r else a)
            return s.vmap(f, av[0], av[1])
        if base == "abs":
            return s.vmap(lambda a: ite(ext(a, a.w - 1, 1), sub(C(a.w, 0), a), a), av[0])
        if base in ("memcpy", "memmove"):
            s.memcpy(st, av[0], av[1], av[2], x, base == "memmove"); return None
        if base == "memset": s.memset(st, av[0], av[1], av[2]); return None
        if base == "bswap":
            def f(a):
                if isinstance(a, I): raise Unsupported("bswap int")
                return cat([ext(a, a.w - 8 - 8 * i, 8) for i in range(a.w // 8)])
            return s.vmap(f, av[0])
        if base in ("fshl", "fshr"):
            def f(a, b, c):
                if not (isinstance(a, T) and isc(c)): raise Unsupported("fsh")
                t = cat((b, a)); k = c.a[0] % a.w
                return ext(t, a.w - k if k else a.w, a.w) if base == "fshl" else ext(t, k, a.w)
            return s.vmap(f, *av)
        if base == "bitreverse": return s.vmap(lambda a: cat([ext(a, a.w - 1 - i, 1) for i in range(a.w)]), av[0])
        if base in ("usub", "uadd", "ssub", "sadd") and ".sat." in n:
            def f(a, b):
                if not isinstance(a, T) or not isinstance(b, T):
                    p, q = s.exact(st, a), s.exact(st, b)
                    if base == "usub": return I(x.ty.n, p - q) if s.must(st, lge(p - q)) else C(x.ty.n, 0)
                    if base == "uadd": return I(x.ty.n, p + q) if s.must(st, lge(K((1 << x.ty.n) - 1) - p - q)) else C(x.ty.n, -1)
                    raise Unsupported("sat int")
                return sat_op(base, a, b)
            return s.vmap(f, av[0], av[1])
        if base in ("ctpop", "cttz", "ctlz"):
            a = av[0]
            if isinstance(a, T):
                if isc(a):
                    v = a.a[0]
                    return C(a.w, bin(v).count("1") if base == "ctpop" else ((v & -v).bit_length() - 1 if v else a.w) if base == "cttz" else a.w - v.bit_length())
                if base == "cttz":
                    r = C(a.w, a.w)
                    for i in reversed(range(a.w)): r = ite(ext(a, i, 1), C(a.w, i), r)
                    return r
                if base == "ctlz":
                    r = C(a.w, a.w)
                    for i in range(a.w): r = ite(ext(a, i, 1), C(a.w, a.w - 1 - i), r)
                    return r
            raise Unsupported(n)
        if base == "vector" and n.startswith("vector.reduce."):
            op = n.split(".")[2]; l = av[0].l; r = l[0]
            if op in ("umax", "umin") and any(not isc(y) for y in l):
                for y in l[1:]: r = ite(ult(r, y), *((y, r) if op == "umax" else (r, y)))
                REDUCED[r] = (op, l); return r
            for y in l[1:]: r = {"or": OR, "and": AND, "xor": XOR, "add": add, "umax": lambda a, b: ite(ult(a, b), b, a), "umin": lambda a, b: ite(ult(a, b), a, b)}[op](r, y)
            return r
        if base == "x86": return s.x86(st, n[4:], av, x)
        if base == "wasm": return s.wasm(st, n[5:], av, x)
        if base == "aarch64": return s.aarch64(st, n[8:], av, x)
        if base == "trap" or base == "ubsantrap": 
            if not s.quiet: s.oblige("panic", "llvm.trap reachable", s.path_dead(st), st)
            raise Dead()
        raise Unsupported("intrinsic " + n)
    def aarch64(s, st, n, av, x):
        """NEON intrinsics (Arm ARM): TBL yields 0 for a selector outside the table; URHADD is the rounding average"""
        m = re.match(r"neon\.tbl([12])\.v(8|16)i8$", n)
        if m:
            tb = sum([list(s.as8(v).l) for v in av[:-1]], []); sel = s.as8(av[-1])
            def look(q):
                if isc(q): return tb[q.a[0]] if q.a[0] < len(tb) else C(8, 0)
                nb = len(tb).bit_length() - 1; r = list(tb)
                if all(isc(v) for v in tb): r = tab(tuple(v.a[0] for v in tb), ext(q, 0, nb))
                else:
                    for k in range(nb):
                        b = ext(q, k, 1); r = [ite(b, r[2 * j + 1], r[2 * j]) for j in range(len(r) // 2)]
                    r = r[0]
                return ite(ANDS([bnot1(ext(q, k, 1)) for k in range(len(tb).bit_length() - 1, 8)]), r, C(8, 0))
            return V(8, [look(q) for q in sel.l])
        if re.match(r"neon\.[us]rhadd\.", n):
            e = zext if n[5] == "u" else sext
            return s.vmap(lambda a, b: ext(lshrc(add(add(e(a, a.w + 2), e(b, a.w + 2)), C(a.w + 2, 1)), 1), 0, a.w), av[0], av[1])
        m = re.match(r"neon\.st1x(\d)\.v16i8", n)
        if m:
            p = av[-1]
            for i in range(int(m.group(1))): s.store(st, P(p.obj, p.off + 16 * i, p.idx), av[i], Ty("vec", 16, INT[8]), 1)
            return None
        raise Unsupported("intrinsic aarch64." + n)
    def wasm(s, st, n, av, x):
        """WebAssembly SIMD intrinsics: swizzle yields 0 for a selector outside the vector"""
        if n == "swizzle": return s.aarch64(st, "neon.tbl1.v16i8", av, x)
        if n.startswith("avgr.unsigned"): return s.aarch64(st, "neon.urhadd.", av, x)
        l = av[0].l
        if n.startswith("bitmask."): return zext(cat([ext(q, q.w - 1, 1) for q in l]), x.ty.n)
        z = [eq(q, C(q.w, 0)) for q in l]
        if n.startswith("anytrue."): return zext(bnot1(ANDS(z)), x.ty.n)
        if n.startswith("alltrue."): return zext(ANDS([bnot1(q) for q in z]), x.ty.n)
        raise Unsupported("intrinsic wasm." + n)
    def x86(s, st, n, av, x):
        ty = x.ty
        if n in ("ssse3.pshuf.b.128", "avx2.pshuf.b"):
            a, m = s.as8(av[0]), s.as8(av[1]); out = []
            for i in range(len(m.l)):
                lane = a.l[i // 16 * 16: i // 16 * 16 + 16]; q = m.l[i]
                out.append(pshufb_lane(lane, q))
            return V(8, out)
        if n in ("ssse3.pmadd.ub.sw.128", "avx2.pmadd.ub.sw"):
            a, b = s.as8(av[0]), s.as8(av[1]); out = []
            for i in range(0, len(a.l), 2):
                p = [maddprod(a.l[i + j], b.l[i + j]) for j in (0, 1)]
                out.append(sadd16(p[0], p[1]))
            return V(16, out)
        if n in ("sse2.pmadd.wd", "avx2.pmadd.wd"):
            a, b = av; out = []
            for i in range(0, len(a.l), 2):
                out.append(add(mul(sext(a.l[i], 32), sext(b.l[i], 32)), mul(sext(a.l[i + 1], 32), sext(b.l[i + 1], 32))))
            return V(32, out)
        if n in ("sse2.pmovmskb.128", "avx2.pmovmskb"):
            a = s.as8(av[0]); return zext(cat([ext(q, 7, 1) for q in a.l]), 32)
        if n in ("sse2.pavg.b", "avx2.pavg.b"): return s.pavg(av[0], av[1], ty)
        if n in ("sse2.pmulhu.w", "avx2.pmulhu.w"):
            return V(16, [ext(mul(zext(p, 32), zext(q, 32)), 16, 16) for p, q in zip(av[0].l, av[1].l)])
        if n in ("sse2.pmulh.w", "avx2.pmulh.w"):
            return V(16, [ext(mul(sext(p, 32), sext(q, 32)), 16, 16) for p, q in zip(av[0].l, av[1].l)])
        if n in ("sse2.packuswb.128", "avx2.packuswb", "sse2.packsswb.128", "avx2.packsswb"):
            a, b = av; out = []; uns = "packus" in n
            for h in range(0, len(a.l), 8):
                for v in (a, b):
                    for q in v.l[h:h + 8]:
                        lo, hi = (0, 255) if uns else (-128, 127)
                        out.append(ext(ite(slt(q, C(16, lo)), C(16, lo), ite(slt(C(16, hi), q), C(16, hi), q)), 0, 8))
            return V(8, out)
        if n in ("sse2.packssdw.128", "avx2.packssdw", "sse41.packusdw", "avx2.packusdw"):
            a, b = av; out = []; uns = "packus" in n
            for h in range(0, len(a.l), 4):
                for v in (a, b):
                    for q in v.l[h:h + 4]:
                        lo, hi = (0, 65535) if uns else (-32768, 32767)
                        out.append(ext(ite(slt(q, C(32, lo)), C(32, lo), ite(slt(C(32, hi), q), C(32, hi), q)), 0, 16))
            return V(16, out)
        m = re.match(r"(sse41\.ptest|avx\.ptest)(z|c|nzc)", n)
        if m:
            a, b = cat(av[0].l), cat(av[1].l); k = n.split("ptest")[1][:1]
            if k == "z": r = eq(AND(a, b), C(a.w, 0))
            elif k == "c": r = eq(AND(NOT(a), b), C(a.w, 0))
            else: raise Unsupported(n)
            return zext(r, 32)
        if n in ("avx2.psad.bw", "sse2.psad.bw"):
            a, b = s.as8(av[0]), s.as8(av[1]); out = []
            for i in range(0, len(a.l), 8):
                r = C(64, 0)
                for j in range(8):
                    p, q = zext(a.l[i + j], 64), zext(b.l[i + j], 64); r = add(r, ite(ult(p, q), sub(q, p), sub(p, q)))
                out.append(r)
            return V(64, out)
        m = re.match(r"(?:sse2|avx2)\.(psll|psrl|psra)i?\.([wdq])(?:\.128)?$", n)
        if m:
            k = s.exact(st, av[1]) if not isinstance(av[1], V) else K(av[1].l[0].a[0])
            op = {"psll": shlc, "psrl": lshrc, "psra": ashrc}[m.group(1)]
            return V(av[0].w, [op(q, k.k) for q in av[0].l])
        raise Unsupported("x86 intrinsic " + n)
    # ------------------------------------------------------------ loops
    def run_loop(s, st, f, loop, prev):
        n0 = (len(s.fail), dict(s.obl), set(s.oblset), s.quiet, dict((k, set(v)) for k, v in s.stored_fns.items()))
        try:
            return s.unroll(st.clone(), f, loop, prev)
        except NeedSymbolic as e:
            if e.loop is not loop: raise
            del s.fail[n0[0]:]; s.obl = n0[1]; s.oblset = n0[2]; s.quiet = n0[3]
        return s.summarize(st, f, loop, prev)
    def unroll(s, st, f, loop, prev):
        outs = []; cur = [(st, prev)]; it = 0; grow = 0
        while cur:
            it += 1
            if it > 600: raise Unsupported("unroll limit")
            nxt = []; no = len(outs); nl = min(len(x.lin) for x, _ in cur)
            for o in s.region(f, loop, [(x, loop.header, p, 0) for x, p in cur], unroll=it):
                if o[0] == "back": nxt.append((o[1], o[2]))
                else: outs.append(o)
            if len(nxt) > 60: raise NeedSymbolic(loop)
            # an exit that depends on a symbolic length, decided by an earlier branch of the iteration (Option-returning iterators)
            grow = grow + 1 if nxt and len(outs) > no and all(len(x.lin) > nl for x, _ in nxt) else 0
            if grow >= 3: raise NeedSymbolic(loop)
            cur = nxt
        s.unrolled += it
        return outs
    def summarize(s, st0, f, loop, prev):
        import loops
        return loops.summarize(s, st0, f, loop, prev)

def b_symbolic(b):
    if b.op == "lin": return bool(fact_atoms(b.a[0]))
    return any(isinstance(x, B) and b_symbolic(x) for x in b.a)
class Dead(Exception): pass
ISA_BASE = {"x87", "fxsr", "sse", "sse2", "cx8", "cmov", "mmx"}
_CH = ["sse3", "ssse3", "sse4.1", "sse4.2", "avx", "avx2"]
ISA_IMPLIED_BY = {q: _CH[i:] for i, q in enumerate(_CH)}
for _q, _g in (("popcnt", "avx2"), ("crc32", "sse4.2"), ("xsave", "avx")): ISA_IMPLIED_BY[_q] = ISA_IMPLIED_BY[_g] + [_q]
PROBES = {q: "probe_" + q.replace(".", "") for q in _CH}
import heapq
class WorkList:
    """states ordered by reverse postorder, so that joins see all their predecessors first"""
    def __init__(s, f, items):
        s.f = f; s.h = []; s.n = 0
        for x in items: s.append(x)
    def append(s, x):
        s.n += 1
        pr = s.f.idx[x[1]]
        heapq.heappush(s.h, (pr, 0 if x[3] > 0 else 1, s.n, x))
    def pop(s): return heapq.heappop(s.h)[3]
    def __len__(s): return len(s.h)
    def take(s, bn):
        out = []; rest = []
        while s.h and s.h[0][3][1] == bn:
            e = heapq.heappop(s.h)
            if e[3][3] == 0 and e[3][2] not in (None, "nophi"): out.append((e[3][0], e[3][2]))
            else: rest.append(e)
        for e in rest: heapq.heappush(s.h, e)
        return out
def vkey(v):
    if isinstance(v, T): return ("T", v.id)
    if isinstance(v, I): return ("I", v.w, v.L.id)
    if isinstance(v, P): return ("P", v.obj.id if v.obj else 0, v.off.id, v.idx.id if v.idx is not None else 0)
    if isinstance(v, V): return ("V", v.w) + tuple(x.id if isinstance(x, T) else id(x) for x in v.l)
    if isinstance(v, Agg): return ("A",) + tuple(vkey(x) for x in v.l)
    if isinstance(v, FnP): return ("F", v.name)
    if isinstance(v, B): return ("B", v.op) + tuple(vkey(x) if isinstance(x, (B, T)) else x for x in v.a)
    return ("?", id(v))
_af = {}
def addr_fact(f):
    r = _af.get(id(f))
    if r is None:
        r = (any(x.name.startswith("addr_") for x in fact_atoms(f)), f); _af[id(f)] = r
    return r[0]
def is_undef(t):
    return isinstance(t, T) and not isc(t) and all(v.a[0] == "undef" for v in sup(t))
def np_u64(v):
    import numpy as np
    return np.uint64(v)
def sat_op(base, a, b):
    w = a.w
    if base == "usub":
        return ite(ult(a, b), C(w, 0), sub(a, b))
    if base == "uadd":
        r = add(zext(a, w + 1), zext(b, w + 1)); return ite(ext(r, w, 1), C(w, -1), ext(r, 0, w))
    r = add(sext(a, w + 1), sext(b, w + 1)) if base == "sadd" else sub(sext(a, w + 1), sext(b, w + 1))
    ov = XOR(ext(r, w, 1), ext(r, w - 1, 1))
    return ite(ov, ite(ext(r, w, 1), C(w, 1 << (w - 1)), C(w, (1 << (w - 1)) - 1)), ext(r, 0, w))
REDUCED = {}     # maximum or minimum over lanes -> (which, lanes)
def cmp_reduced(pred, a, b):
    """a lane maximum (or minimum) compared with a constant, lane by lane"""
    if isc(a) and b in REDUCED: a, b, pred = b, a, {"ult": "ugt", "ugt": "ult", "ule": "uge", "uge": "ule", "slt": "sgt", "sgt": "slt", "sle": "sge", "sge": "sle"}.get(pred, pred)
    if not (isc(b) and a in REDUCED): return None
    op, l = REDUCED[a]; w, c = a.w, b.a[0]
    if (pred, c) == ("slt", 0): pred, c = "uge", 1 << (w - 1)
    elif (pred, c) in (("sgt", (1 << w) - 1), ("sge", 0)): pred, c = "ult", 1 << (w - 1)
    elif pred in ("eq", "ne"):
        if op == "umax" and c == 0: pred, c = ("ult" if pred == "eq" else "uge"), 1
        elif op == "umin" and c == 0: pred, c = ("ult" if pred == "eq" else "uge"), 1
        elif c == (1 << w) - 1: pred = "uge" if pred == "eq" else "ult"
    if pred in ("ugt", "ule"):
        if c == (1 << w) - 1: return C(1, pred == "ule")
        pred, c = ("uge" if pred == "ugt" else "ult"), c + 1
    if pred not in ("ult", "uge"): return None
    lt = [bnot1(ext(x, w - 1, 1)) if c == 1 << (w - 1) else ult(x, C(w, c)) for x in l]      # umax < c: all;  umin < c: any
    r = ANDS(lt) if op == "umax" else bnot1(ANDS([bnot1(x) for x in lt]))
    return r if pred == "ult" else bnot1(r)
def pshufb_lane(lane, q):
    if isc(q): return C(8, 0) if q.a[0] & 0x80 else lane[q.a[0] & 15]
    lo = ext(q, 0, 4)
    if all(isc(v) for v in lane): r = tab(tuple(v.a[0] for v in lane), lo)
    else:
        r = lane[15]
        for i in reversed(range(15)): r = ite(eq(lo, C(4, i)), lane[i], r)
    return ite(ext(q, 7, 1), C(8, 0), r)
def maddprod(a, b):
    """unsigned a times signed b, 16 bit (always fits)"""
    if isc(b) and b.a[0] < 128: return mul(zext(a, 16), C(16, b.a[0]))
    return mul(zext(a, 16), sext(b, 16))
def sadd16(p, q):
    if umax(p) + umax(q) < 1 << 15: return add(p, q)
    return sat_op("sadd", p, q)
