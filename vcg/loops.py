"""Inductive loop summaries: closed forms for counters and pointers, universally quantified facts per iteration,
opaque accumulators.  Every summary used is re-verified by a final pass over an arbitrary iteration k."""
import itertools
from exec import *
import exec as E

def as_lin(v):
    if isinstance(v, I): return v.L
    if isinstance(v, T) and isc(v) and v.w > 1: return K(v.a[0])
    return None
def same(a, b):
    if a is b: return True
    if isinstance(a, V) and isinstance(b, V): return a.w == b.w and a.l == b.l
    if isinstance(a, P) and isinstance(b, P): return a.obj is b.obj and a.off is b.off and a.idx is b.idx
    if isinstance(a, I) and isinstance(b, I): return a.w == b.w and a.L is b.L
    if isinstance(a, FnP) and isinstance(b, FnP): return a.name == b.name
    la, lb = as_lin(a), as_lin(b)
    if la is not None and lb is not None: return la is lb
    if isinstance(a, Agg) and isinstance(b, Agg): return len(a.l) == len(b.l) and all(same(x, y) for x, y in zip(a.l, b.l))
    if isinstance(a, B) and isinstance(b, B): return a.op == b.op and all(same(x, y) if isinstance(x, B) else x == y for x, y in zip(a.a, b.a))
    return False

class LV:   # loop variable
    """kind: const | inc(d) | acc | junk"""
    def __init__(s, name, a): s.name = name; s.a = a; s.kind = None; s.d = None; s.sym = None; s.ty = None
def accvars(e, v, name):
    """fresh opaque value shaped like v, byte-granular"""
    def one(w):
        if w % 8 == 0: return cat([var(("acc", name), next(e.nfresh)) for _ in range(w // 8)])
        return var(("acc", name), next(e.nfresh), w)
    if isinstance(v, V): return V(v.w, [one(v.w) for _ in v.l])
    return one(v.w)
def bytes_of(v):
    if isinstance(v, V):
        out = []
        for x in v.l: out.extend(bytes_of(x))
        return out
    if v.w % 8 == 0: return [ext(v, 8 * i, 8) for i in range(v.w // 8)]
    return [v]

def pass_iter(e, f, loop, st, prev_vals):
    """run one iteration of the loop from header with the phi values already in env"""
    return e.region(f, loop, [(st, loop.header, "nophi", 0)])

def summarize(e, st0, f, loop, prev):
    hb = f.blocks[loop.header]
    e.summaries += 1
    uid = next(e.nfresh)
    lvs = []
    for ph in hb.phis:
        for o, l in ph.x:
            if l == prev:
                lv = LV(ph.res, e.operand(st0, o, ph.ty)); lv.ty = ph.ty; lv.ph = ph; lvs.append(lv); break
        else: raise Unsupported("phi")
    memlvs = []     # memory-carried scalars of local objects
    k = A(Atom(f"k{uid}", 0)); kat = k.t[0][0]; kb = Atom(f"i{uid}", 0)
    def nextval(lv, st, pv):
        if lv.ph is not None:
            for o, l in lv.ph.x:
                if l == pv: return e.operand(st, o, lv.ph.ty)
            raise Unsupported("phi")
        obj, off, size, ty = lv.name[1:]
        return e.load(st, P(obj, off), ty, 1)
    def classify(lv, nexts):
        a = lv.a
        if all(same(a, n) for n in nexts): return "const", None
        la = as_lin(a)
        if la is not None:
            ds = set()
            for n in nexts:
                ln = as_lin(n)
                if ln is None: ds.add(None); continue
                d = ln - la
                ds.add(d.k if not d.t else None)
            if len(ds) == 1 and None not in ds:
                d = ds.pop(); w = lv.ty.n
                if d >= 1 << (w - 1): d -= 1 << w
                return "inc", d
            if ds == {0, 1}: return "fil", 1
            if isinstance(a, T) and all(isinstance(n, T) for n in nexts): return "acc", None
            return "junk", None
        if isinstance(a, P):
            ds = set()
            for n in nexts:
                if not isinstance(n, P) or n.obj is not a.obj or n.idx is not None or a.idx is not None: ds.add(None); continue
                d = n.off - a.off; ds.add(d.k if not d.t else None)
            if len(ds) == 1 and None not in ds: return "inc", ds.pop()
            if ds == {0, 1}: return "fil", 1
            return "junk", None
        if isinstance(a, (T, V)) and all(isinstance(n, type(a)) for n in nexts): return "acc", None
        return "junk", None
    def at(lv, kk):
        if lv.kind == "const": return lv.a
        if lv.kind == "inc":
            if isinstance(lv.a, P): return P(lv.a.obj, lv.a.off + kk * lv.d)
            return I(lv.ty.n, as_lin(lv.a) + kk * lv.d)
        if lv.kind == "fil":       # start + F(k), F(k) = number of kept elements among the first k
            if isinstance(lv.a, P): return P(lv.a.obj, lv.a.off + F)
            return I(lv.ty.n, as_lin(lv.a) + F)
        return lv.sym
    def expected(lv, n):
        """does the value n at the back edge match the closed form at k+1?"""
        if lv.kind == "const": return same(n, lv.a)
        if lv.kind == "inc":
            x = at(lv, k + 1)
            if isinstance(x, P): return isinstance(n, P) and n.obj is x.obj and n.idx is None and n.off is x.off
            ln = as_lin(n)
            if ln is None: return False
            d = ln - x.L
            return not d.t and d.k % (1 << lv.ty.n) == 0
        if lv.kind == "fil": return filstep(lv, n) is not None
        if lv.kind == "acc": return isinstance(n, type(lv.sym)) and (not isinstance(n, T) or n.w == lv.sym.w)
        return True
    F = A(Atom(f"F{uid}", 0)); fobj = {}      # objects written at start + F(k): oid -> FW record
    def filstep(lv, n):
        x = at(lv, k)
        if isinstance(x, P): d = n.off - x.off if isinstance(n, P) and n.obj is x.obj and n.idx is None else None
        else:
            ln = as_lin(n); lx = as_lin(x); d = None if ln is None or lx is None else ln - lx
        return d.k if d is not None and not d.t and d.k in (0, 1) else None
    def begin(invs, writes):
        st = st0.clone()
        if any(lv.kind == "fil" for lv in lvs + memlvs): st.lin.append(("ge", k - F))
        for oid, rec in fobj.items():
            for x in rec.facts(k, F): st.lin.append(x)
            st.mem[oid] = st.mem.get(oid, ()) + (rec,)
        for lv in lvs: st.env[lv.name] = at(lv, k)
        for lv in memlvs:
            obj, off, size, ty = lv.name[1:]
            v = at(lv, k); e.addrec(st, obj, W(off, size, e.tobytes(v), v, ty))
        for oid, alts in writes.items():
            st.mem[oid] = st.mem.get(oid, ()) + (LW(kb, k, alts),)
        for i in invs: st.lin.append(i)
        return st
    def collect(st, backs):
        """writes to objects in the iteration, per alternative"""
        base = {oid: len(lg) for oid, lg in st.items()}
    # ---------------------------------------------------------------- probe
    e.quiet += 1
    fails0 = len(e.fail)
    try:
        st = st0.clone()
        for lv in lvs: st.env[lv.name] = lv.a
        outs = pass_iter(e, f, loop, st, None)
        backs = [(o[1], o[2]) for o in outs if o[0] == "back"]
        if backs:
            for lv in lvs:
                nx = [nextval(lv, b, pv) for b, pv in backs]
                lv.kind, lv.d = classify(lv, nx)
                lv.nx = nx
                if lv.kind == "junk": lv.sym = junk(e, lv, nx)
                if lv.kind == "acc": lv.sym = accvars(e, lv.a, f"{uid}.{lv.name}")
            # memory-carried scalars of local objects
            seen = {}
            for b, pv in backs:
                for oid, lg in b.mem.items():
                    if len(lg) and lg is not st0.mem.get(oid, ()):
                        o = next((o for o in e.objs(b) if o.id == oid), None)
                        if o is None or o.kind != "alloca": continue
                        if o not in e.objs(st0): continue      # created inside the iteration
                        old = st0.mem.get(oid, ())
                        for r in lg:
                            if isinstance(r, W) and not any(r is q for q in old):
                                if r.off.t: raise Unsupported("symbolic store to local in loop")
                                seen[(o, r.off, r.size)] = r.ty or Ty("int", 8 * r.size)
            for (o, off, size), ty in seen.items():
                try: a = e.load(st0, P(o, off), ty, 1)
                except Unsupported: a = None
                lv = LV(("mem", o, off, size, ty), a); lv.ty = ty; lv.ph = None
                nx = []
                for b, pv in backs:
                    try: nx.append(e.load(b, P(o, off), ty, 1))
                    except Unsupported: nx.append(None)
                if a is None or any(n is None for n in nx): lv.kind = "junk"
                else: lv.kind, lv.d = classify(lv, nx)
                lv.nx = nx
                if lv.kind == "acc" and any(v.a[0][0] == "uninit" if isinstance(v.a[0], tuple) else False for x in bytes_of(a) for v in sup(x)): lv.kind = "junk"
                if lv.kind == "junk": lv.sym = junk(e, lv, nx)
                if lv.kind == "acc": lv.sym = accvars(e, a, f"{uid}.mem")
                memlvs.append(lv)
    finally: e.quiet -= 1
    if not backs:
        st = st0.clone()
        for lv in lvs: st.env[lv.name] = lv.a
        return pass_iter(e, f, loop, st, None)
    # ---------------------------------------------------------------- iterate to a consistent summary
    invs = []; writes = {}; guards_used = []; term = None
    special = None
    alll = lvs + memlvs
    for attempt in range(10):
        e.quiet += 1
        try:
            st = begin(invs, writes); nlin, nbv, nloops = len(st.lin), len(st.bv), len(st.loops)
            mem0 = dict(st.mem); objs0 = e.objs(st)
            outs = pass_iter(e, f, loop, st.clone(), None)
            backs = [(o[1], o[2]) for o in outs if o[0] == "back"]
        finally: e.quiet -= 1
        ok = True
        for lv in lvs + memlvs:
            for b, pv in backs:
                try: n = nextval(lv, b, pv)
                except Unsupported:
                    if lv.ph is not None: raise
                    n = None
                if lv.kind != "junk" and (n is None or not expected(lv, n)):
                    ok = False
                    # demote
                    stp = set()
                    for b2, pv2 in backs:
                        try: n2 = nextval(lv, b2, pv2)
                        except Unsupported: n2 = None
                        stp.add(filstep(lv, n2))
                    if stp == {0, 1} and lv.kind in ("const", "inc") and (isinstance(lv.a, P) or as_lin(lv.a) is not None): lv.kind = "fil"; lv.d = 1; break
                    if lv.kind == "const" and isinstance(lv.a, (T, V)) and isinstance(n, type(lv.a)) and as_lin(lv.a) is None:
                        lv.kind = "acc"; lv.sym = accvars(e, lv.a, f"{uid}.{lv.name}")
                    else: lv.kind = "junk"; lv.sym = junk(e, lv, [n])
                    break
        nw = {}
        for b, pv in backs:
            for oid, lg in b.mem.items():
                o = next((o for o in objs0 if o.id == oid), None)
                if o is None or o.kind == "alloca": continue
                base = mem0.get(oid, ())
                new = lg[len(base):] if lg[:len(base)] == base else None
                if new is None: raise Unsupported("rewritten log")
                if new and any(lv.kind == "fil" for lv in lvs + memlvs) and any(F.t[0][0] in r.off.deep_atoms() for r in new if isinstance(r, W)):
                    if any(not isinstance(r, W) or r.size != 1 or r.off.coef(F.t[0][0]) != 1 for r in new) or len({r.off.id for r in new}) != 1: raise Unsupported("filter write shape")
                    if oid not in fobj: fobj[oid] = FW(new[0].off - F, A(Atom(f"H{uid}", 0))); ok = False
                    elif fobj[oid].off is not new[0].off - F: raise Unsupported("filter write base")
                    continue
                if new and oid in fobj: raise Unsupported("filter and other writes")
                if new: nw.setdefault(oid, {})[id(b)] = new
        nwrites = {}
        for oid, d in nw.items():
            alts = []
            for b, pv in backs:
                rs = []
                for r in d.get(id(b), ()):
                    if not isinstance(r, W): raise Unsupported("nested bulk write in loop")
                    if r.by is None: raise Unsupported("non-byte write in loop")
                    rs.append(W(r.off.subst({kat: A(kb)}), r.size, [subst_idx(x, {kat: A(kb)}) for x in r.by], None, r.ty, r.loc))
                alts.append(rs)
            nwrites[oid] = alts
        wkey = lambda w: {oid: [[(r.off.id, r.size) for r in al] for al in alts] for oid, alts in w.items()}
        if wkey(nwrites) != wkey(writes): ok = False
        # linear guards common to every alternative
        common = None
        for b, pv in backs:
            g = [x for x in b.lin[nlin:] if x[0] in ("ge", "ne", "eq")]
            if common is None: common = g
            else: common = [x for x in common if x in g or (x[0] == "ge" and prove(b.lin, x))]
        ninv = []; term = None
        ninv.append(("ge", k))
        for g in common or []:
            if g[0] == "eq": continue
            x = g[1]
            if kat not in x.deep_atoms(): continue
            if not ({y for y in x.deep_atoms()} <= known_atoms(st0, st, kat)): continue
            if g[0] == "ge":
                h = x.subst({kat: k - 1}); c = x.coef(kat)
                h0 = h.subst({kat: ZERO})
                if prove_ge(st0.lin, h0): q = ("ge", h)
                else: q = ("or", ((("eq", k),), (("ge", h),)))
                if q not in ninv: ninv.append(q)
                if c < 0 and term is None: term = x
            else:
                c = x.coef(kat)
                if c == 0: continue
                y = x if c < 0 else -x; c = abs(c)
                y0 = y.subst({kat: ZERO})
                if prove_ge(st0.lin, y0):
                    r = modl(y0, c)
                    if (not r.t and r.k == 0) or prove(st0.lin, ("eq", r)):
                        q = ("ge", y)
                        if q not in ninv: ninv.append(q)
                        # divisibility is preserved: y(k) = y0 - c*k
                        if term is None: term = y
        if ninv != invs: ok = False
        # a previously used invariant must not silently disappear: restart from the new set
        writes = nwrites; invs = ninv
        if ok and attempt > 0: break
    else: raise Unsupported("loop summary does not stabilise")
    for lv in lvs + memlvs:
        if lv.kind == "junk" and getattr(lv, "track", None): pass
    if special is None and any(lv.kind == "junk" for lv in lvs):
        h = e.cfg.get("loop_hook")
        if h is not None:
            r = h(e, st0, f, loop, prev, lvs, memlvs)
            if r is not None: return r
    # ---------------------------------------------------------------- final pass, obligations on
    st = begin(invs, writes); nlin, nbv, nloops = len(st.lin), len(st.bv), len(st.loops)
    mem0 = dict(st.mem)
    outs = pass_iter(e, f, loop, st, None)
    backs = [(o[1], o[2]) for o in outs if o[0] == "back"]
    S = LoopSum(); S.kb = kb; S.cnt = k; S.name = f"{E_short(f.name)}:{loop.header}"; S.kat = kat
    fwrites = {oid: [] for oid in writes}
    for b, pv in backs:
        for lv in lvs + memlvs:
            if lv.kind == "junk": continue
            e.oblige("loop-inductive", f"{S.name} {lv.name}", expected(lv, nextval(lv, b, pv)), b)
        for g in invs[1:]:
            # the guard behind each invariant holds at the end of the iteration
            h = subst_fact(g, {kat: k + 1})
            good = h in b.lin or (h[0] == "ge" and prove(b.lin, h)) or (h[0] == "or" and prove(b.lin, h[1][1][0]))
            e.oblige("loop-inductive", f"{S.name} invariant {h}", good, b)
        sub = {kat: A(kb)}
        acc = {}
        for lv in lvs + memlvs:
            if lv.kind == "acc":
                for v, n in zip(bytes_of(lv.sym), bytes_of(nextval(lv, b, pv))): acc[v] = subst_idx(n, sub)
        wr = {}
        for oid, lg in b.mem.items():
            if oid in fobj: continue
            if oid in writes or (oid in mem0 and lg is not mem0[oid]):
                o = next((o for o in e.objs(st0) if o.id == oid), None)
                if o is None or o.kind == "alloca": continue
                rs = [W(r.off.subst(sub), r.size, [subst_idx(x, sub) for x in r.by], None, r.ty, r.loc) for r in lg[len(mem0.get(oid, ())):]]
                wr[oid] = rs
                e.oblige("loop-inductive", f"{S.name} writes", oid in writes and [(r.off.id, r.size) for r in rs] in [[(r.off.id, r.size) for r in al] for al in writes[oid]], b)
        S.alts.append(Alt([subst_fact(x, sub) for x in b.lin[nlin:]], [subst_idx(x, sub) for x in b.bv[nbv:]], wr, acc, b.loops[nloops:]))
    for oid in writes: fwrites[oid] = [al.writes.get(oid, []) for al in S.alts]
    for lv in lvs + memlvs:
        if lv.kind == "acc":
            for v, n in zip(bytes_of(lv.sym), bytes_of(lv.a)): S.accs[v] = n
    e.oblige("termination", f"{S.name}: no decreasing linear measure", term is not None, st0, status="unknown")
    flt = filter_summary(e, st0, S, lvs + memlvs, fobj, mem0, backs, k, F, filstep, nbv) if fobj else None
    res = []
    for o in outs:
        if o[0] == "back": continue
        s2 = o[1]
        s2.loops.insert(nloops, S)
        if flt is not None:
            filter_exit(e, s2, S, flt, fobj, st0, k, F)
            if loop.parent is None and len(e.fn_stack) == 1 and not filter_join(e, s2, f, loop, flt, k, F): continue
        # replace the assumed write record by the verified one
        for oid, alts in fwrites.items():
            lg = s2.mem[oid]
            s2.mem[oid] = tuple(LW(kb, k, alts, S) if isinstance(r, LW) and r.kb is kb else r for r in lg)
        res.append(o)
    return res

class FW:
    """bytes [off, off+H) hold the elements kept so far (H = F(k), or one dirty byte more)"""
    __slots__ = ("off", "H")
    def __init__(s, off, H): s.off, s.H = off, H
    def facts(s, k, F): return [("ge", s.H - F), ("ge", F + 1 - s.H), ("ge", k - s.H)]
    def read(s, e, st, off):
        if prove_ge(st.lin, s.off - off - 1) or prove_ge(st.lin, off - s.off - s.H): return None
        raise Unsupported("read of a byte compacted by the running loop")
def filter_summary(e, st0, S, lvs, fobj, mem0, backs, k, F, filstep, nbv):
    """every iteration appends its source byte exactly when the predicate holds"""
    spec = e.cfg.get("filter")
    if spec is None: raise Unsupported("filter loop without a specification")
    if len(fobj) != 1: raise Unsupported("several filtered objects")
    (oid, rec), = fobj.items(); kat = k.t[0][0]
    src = None; plan = []
    for b, pv in backs:
        steps = {filstep(lv, nx) for lv, nx in ((lv, nextv(e, lv, b, pv)) for lv in lvs if lv.kind == "fil")}
        if len(steps) != 1 or None in steps: raise Unsupported("filter step")
        keep = steps.pop() == 1; new = b.mem[oid][len(mem0.get(oid, ())):] 
        if keep:
            if not new: raise Unsupported("kept element not written")
            t = new[-1].by[0]
            if t.op != "v" or t.a[0] != spec["space"] or t.a[1].coef(kat) != 1: raise Unsupported("kept value is not the source byte")
            if src is None: src = t
            if src is not t: raise Unsupported("filter source")
        plan.append((b, keep))
    if src is None: raise Unsupported("filter keeps nothing")
    for b, keep in plan:
        pr = spec["pred"](src); 
        r, m = bvprove(b.bv, pr if keep else bnot1(pr))
        e.oblige("filter", f"{S.name}: {'kept' if keep else 'dropped'} byte {'satisfies' if keep else 'fails'} the predicate", bool(r), b, model=m, status="unknown" if r is None else None)
    return src.a[1] - k
def nextv(e, lv, st, pv):
    if lv.ph is not None:
        for o, l in lv.ph.x:
            if l == pv: return e.operand(st, o, lv.ph.ty)
    obj, off, size, ty = lv.name[1:]
    return e.load(st, P(obj, off), ty, 1)
def filter_exit(e, st, S, s0, fobj, st0, k, F):
    """after the loop the object holds the ghost sequence comp = filter(source), of length start + F"""
    from goals import Goal
    spec = e.cfg["filter"]; (oid, rec), = fobj.items(); o = next(x for x in e.objs(st) if x.id == oid)
    g = Goal(e, st, S.name)
    g.eqL("filter", "the kept elements are placed right after the untouched prefix", rec.off, s0)
    g.eqL("filter", "the whole rest of the source is filtered", s0 + k, spec["n"])
    j = fresh("pj", 0); t = st.clone(); t.lin += [("ge", s0 - j - 1)]
    ok = infeasible(t.lin)
    if not ok:
        try: v = e.read_byte(t, o, st0.mem.get(oid, ()), j); ok = v is var(spec["space"], j)
        except Unsupported: ok = False
    g.oblige("filter", "the prefix of the destination is the prefix of the source", ok)
    g.all_valid(spec["space"], K(0), s0, lambda u: spec["pred"](u[0]), what="the prefix taken over unfiltered has no whitespace")
    st.mem[oid] = ()
    st.extra[("base", oid)] = ("comp", s0 + F)
    st.extra["filtered"] = ("comp", s0 + F, o)
def subst_val(v, m):
    if isinstance(v, I): return I(v.w, v.L.subst(m))
    if isinstance(v, P): return P(v.obj, v.off.subst(m), subst_idx(v.idx, m) if v.idx is not None else None)
    if isinstance(v, T): return subst_idx(v, m)
    if isinstance(v, V): return V(v.w, [subst_val(x, m) for x in v.l])
    if isinstance(v, Agg): return Agg([subst_val(x, m) for x in v.l])
    if isinstance(v, B): return B(v.op, tuple(subst_val(x, m) if isinstance(x, (B, T)) else subst_fact(x, m) for x in v.a))
    return v
def filter_join(e, st, f, loop, s0, k, F):
    """behind the filter only its postcondition is kept (comp, its length N, where it starts); equal states continue once.
    False: an equal state has already been continued."""
    spec = e.cfg["filter"]; n = spec["n"]
    if "_fj" not in e.cfg: e.cfg["_fj"] = (A(Atom("N", 0)), A(Atom("s", 0)), {})
    N, s_, seen = e.cfg["_fj"]
    m = {F.t[0][0]: N - s0}
    if s0.t:
        x = next((x for x, c in s0.t if c == 1 and x.div is None), None)
        if x is None: return True
        y = s_ - (s0 - A(x)); m2 = {x: y}; m = {F.t[0][0]: N - s_, x: y}
        s1 = s_
    else: s1 = s0
    if s0.t: m[k.t[0][0]] = n - s_
    hb = f.blocks[loop.header]
    keep = set(f.live[loop.header]) | {ph.res for ph in hb.phis} | {i.res for i in hb.ins if i.res}
    env = {v: subst_val(x, m) for v, x in st.env.items() if v in keep}
    oid = next(i for i in (k_[1] for k_ in st.extra if isinstance(k_, tuple) and k_[0] == "base"))
    mem = {}; mk = []
    al = {x.id: x for x in e.objs(st) if x.kind == "alloca"}; seen_o = set(); todo = list(env.values())
    while todo:  # allocas that nothing reaches any more are dead
        v = todo.pop()
        if isinstance(v, P):
            if v.obj is not None and v.obj.id not in seen_o:
                seen_o.add(v.obj.id)
                todo += [r.val for r in st.mem.get(v.obj.id, ()) if getattr(r, "val", None) is not None]
        elif isinstance(v, (V, Agg)): todo += list(v.l)
    for o_, lg in st.mem.items():
        if o_ in al and o_ not in seen_o: continue
        nl = []
        for r in lg:
            if not isinstance(r, W): return True
            nl.append(W(r.off.subst(m), r.size, [subst_idx(b, m) for b in r.by] if r.by else None, subst_val(r.val, m) if r.val is not None else None, r.ty, r.loc))
        mem[o_] = tuple(nl); mk.append((o_, tuple((q.off.id, q.size, tuple(b.id for b in q.by) if q.by else None, repr(q.val)) for q in nl)))
    base = set(n.deep_atoms()) | set().union(*[o.size.deep_atoms() for o in e.objs(st)])
    lin = [g for g in st.lin if fact_atoms(g) <= base] + [("ge", N), ("ge", n - N), ("ge", s1), ("ge", N - s1)]
    bv = [g for g in st.bv if all(v.a[0] not in (spec["space"],) and not (isinstance(v.a[0], tuple) and v.a[0][0] == "acc") for v in sup(g))]
    fl = ("comp", N, st.extra["filtered"][2])
    ex = {k_: v for k_, v in st.extra.items() if k_ not in ("filtered", ("base", oid), "aliased")}
    key = (loop.header, tuple(sorted((a, repr(b)) for a, b in env.items())), tuple(sorted(mk)), tuple(sorted(map(str, lin))), tuple(sorted(x.id for x in bv)), tuple(sorted((repr(k_), repr(v)) for k_, v in ex.items())))
    if key in seen: return False
    seen[key] = True
    st.env = env; st.mem = mem; st.lin = lin; st.bv = bv; st.loops = []
    st.extra[("base", oid)] = ("comp", N); st.extra["filtered"] = fl; st.extra.pop("aliased", None)
    return True
def E_short(n): return n[-40:]
def known_atoms(st0, st, kat):
    """atoms that exist before the iteration (loop-invariant) plus k"""
    class All:
        def __ge__(s, o): return True
    s = st.extra.get("_known")
    return AnySet(kat)
class AnySet:
    def __init__(s, kat): s.lim = kat.id; s.kat = kat
    def __ge__(s, o): return all(x.id <= s.lim or (x.div is not None and all(y.id <= s.lim for y in x.div[0].deep_atoms() if y.div is None)) for x in o)
    def __rle__(s, o): return s.__ge__(o)
def junk(e, lv, nx):
    t = lv.ty
    if t.k == "int" and t.n > 1:
        return I(t.n, e.fresh("j", t.n))
    if t.k == "ptr":
        a = lv.a
        if isinstance(a, P) and a.obj is not None: return P(a.obj, A(Atom(f"jp{next(e.nfresh)}")))
        return Undef(t)
    if t.k == "int": return e.junkT(1)
    return e.undef(t)
