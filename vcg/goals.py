"""Postcondition obligations over the final states of an entry: quantified output equality, accept/reject, frame."""
from exec import *
import exec as E_
from loops import bytes_of

class Goal:
    def __init__(s, e, st, name):
        s.e = e; s.st = st; s.name = name
    # -------- forking evaluation of a specification over one final state
    @staticmethod
    def run(e, st, name, fn):
        work = [st]
        n = 0
        while work:
            x = work.pop(); n += 1
            if n > 400: raise Unsupported("specification case explosion")
            g = Goal(e, x, name)
            g.unify_facts()
            try: fn(g)
            except Fork as f:
                for t, s2 in e.split(x.clone(), f.cond): work.append(s2)
            except Dead: pass
    def unify_facts(s):
        """equalities between byte variables of the path facts whose (syntactically different) indexes are provably equal"""
        st = s.st; done = st.extra.get("aliased", frozenset()); vs = []; seen = set()
        for f in st.bv:
            for v in sup(f):
                if v not in seen and isinstance(v.a[1], L): seen.add(v); vs.append(v)
        new = [v for v in vs if v not in done]
        if not new: return
        eqs = []
        for v in new:
            for c in vs:
                if c is v or c.a[0] != v.a[0] or c.w != v.w: continue
                d = v.a[1] - c.a[1]
                if d.t and prove(st.lin, ("eq", d)): eqs.append(eq(v, c)); break
        st.extra["aliased"] = frozenset(seen)
        for x in eqs:
            if x not in st.bv: st.bv.append(x)
    def must(s, b):
        if isinstance(b, bool): return b
        return s.e.must(s.st, b)
    def dead(s): return s.e.path_dead(s.st)
    def oblige(s, kind, what, ok, model=None, status=None, lin=None):
        if not ok and s.dead(): ok = True
        s.e.oblige(kind, f"{s.name}: {what}", ok, s.st, model=model, status=status, lin=lin)
        return ok
    def const(s, L_, lo, hi):
        """case split on the value of a linear expression in [lo,hi]"""
        if not L_.t: return L_.k
        for c in range(lo, hi):
            if s.must(leq(L_ - c)): return c
        return hi
    def proveL(s, f):
        return prove(s.st.lin, f)
    def eqL(s, kind, what, a, b):
        ok = (a - b) is K(0) or prove(s.st.lin, ("eq", a - b))
        return s.oblige(kind, what if ok else f"{what}: {a} != {b}", ok, model=(("ne", a - b),))
    # -------- facts
    def accfacts(s):
        """path facts, closed under the accumulator lemma  phi(acc_final) => phi(acc_init)"""
        out = list(s.st.bv); work = list(out); seen = set(out); cover = []
        owner = {v: S for S in s.st.loops for v in S.accs}
        while work:
            f = work.pop()
            av = [v for v in sup(f) if v in owner]
            if not av: continue
            S = owner[av[0]]
            if any(owner[v] is not S for v in av) or any(v not in owner for v in sup(f)): continue
            nf = bnot1(f); good = True
            for al in S.alts:
                # phi(step) => phi(v)
                st_ = rebuild(f, {v: al.acc[v] for v in av})
                r, _ = bvprove(rel(al.bv, st_, f), OR(bnot1(st_), f))
                if not r: good = False; break
            if not good: continue
            cover.append((S, f, av))
            g = rebuild(f, {v: S.accs[v] for v in av})
            for c in conjuncts(g):
                if c not in seen: seen.add(c); out.append(c); work.append(c)
        return out, cover
    def index_regions(s, pts):
        """pts: list of (kb|None, cnt, [Lin offsets]) -> intervals (lo, hi inclusive, nonempty-condition or None)"""
        iv = []
        for kb, cnt, offs in pts:
            gr = {}
            for o in offs:
                c = o.coef(kb) if kb is not None else 0
                if kb is not None and any(kb in x.div[0].deep_atoms() for x in o.atoms() if x.div is not None): continue
                base = o - (A(kb) * c if c else 0)
                gr.setdefault((c, L(base.t, 0)), set()).add(base.k)
            for (c, base), ks in gr.items():
                ks = sorted(ks); runs = []
                for x in ks:
                    if runs and runs[-1][1] == x - 1: runs[-1][1] = x
                    else: runs.append([x, x])
                for a, b in runs:
                    if kb is None: iv.append((base + a, base + b, None))
                    elif c == 0: iv.append((base + a, base + b, cnt))
                    elif b - a + 1 >= abs(c):
                        if c > 0: iv.append((base + a, base + (cnt - 1) * c + b, cnt))
                        else: iv.append((base + (cnt - 1) * c + a, base + b, cnt))
        return iv
    def covered(s, kind, what, lo, hi, iv):
        """every j in [lo,hi) lies in one of the intervals"""
        j = fresh("j", 0)
        fs = s.st.lin + [("ge", j - lo), ("ge", hi - j - 1)]
        for a, b, cnt in iv:
            alts = [(("ge", a - j - 1),), (("ge", j - b - 1),)]
            if cnt is not None: alts.append((("ge", -cnt),))
            fs = fs + [("or", tuple(alts))]
        r = solver().check(fs, [])
        ok = r == "unsat"
        return s.oblige(kind, what, ok, model=tuple(fs[len(s.st.lin):]), status="unknown" if r == "unknown" else None)
    def inspace(s, space, f): return [v for v in sup(f) if v.a[0] == space]
    # -------- every unit in [lo,hi) satisfies the predicate, on this accepting path
    def all_valid(s, space, lo, hi, valid, unit=1, what="accepted input is well formed", xform=None):
        if s.e.cfg.get("light"): return True
        facts, cover = s.accfacts()
        pts = []; bad = []
        def units(vars_):
            out = {}
            for v in vars_:
                if unit == 1: out[v.a[1]] = [v]
                else:
                    r = modl(v.a[1], unit)
                    if r.t: continue
                    b = v.a[1] - r.k; out[b] = [var(space, b + i) for i in range(unit)]
            return out
        # direct facts
        vs = set()
        for f in facts: vs.update(s.inspace(space, f))
        good = []
        for idx, u in units(vs).items():
            g = valid(u); ok = True
            for c in conjuncts(g):
                r, m = bvprove(facts, c)
                if not r: ok = False; bad.append((idx, r, m)); break
            if ok: good.append(idx)
        if good: pts.append((None, None, [i + t for i in good for t in range(unit)]))
        # loops
        for S in s.st.loops:
            sets = []
            for al in S.alts:
                vs = set(); g = set()
                for f in al.bv: vs.update(s.inspace(space, f))
                for idx, u in units(vs).items():
                    if all(bvprove(al.bv, c)[0] for c in conjuncts(valid(u))): g.add(idx)
                # accumulators
                for S2, phi, av in cover:
                    if S2 is not S: continue
                    st_ = rebuild(phi, {v: al.acc[v] for v in av})
                    for idx, u in units(s.inspace(space, st_)).items():
                        if idx in g: continue
                        v = valid(u)
                        r, m = bvprove(rel(al.bv, st_, v), OR(bnot1(st_), v))
                        if r: g.add(idx)
                        else: bad.append((idx, r, m))
                sets.append(g)
            if sets:
                g = set.intersection(*sets)
                if g: pts.append((S.kb, S.cnt, [i + t for i in g for t in range(unit)]))
        return s.covered("accept", what, lo, hi, s.index_regions(pts))
    # -------- rejecting path: the hypothesis "all units valid" contradicts the path facts
    def inrange(s, idx, lin, hi, unit=1):
        """index provably below the end of the constrained region"""
        return hi is None or prove_ge(lin, hi - idx - unit)
    def loop_lin(s, extra=()):
        return s.st.lin + [f for S in s.st.loops for f in (("ge", A(S.kb)), ("ge", S.cnt - A(S.kb) - 1))] + list(extra)
    def refute(s, space, valid, extra=(), unit=1, what="rejected input is malformed", hi=None):
        if s.e.cfg.get("light"): return True
        st = s.st
        if s.dead(): s.e.oblige("reject", f"{s.name}: {what}", True, st); return True
        owner = {v: S for S in st.loops for v in S.accs}
        hyp = list(extra)
        def hyps(ts, lin=None):
            h = []; seen = set()
            if lin is None: lin = st.lin
            for t in ts:
                for v in sup(t):
                    if v.a[0] != space: continue
                    if unit == 1: k = v.a[1]; u = [v]
                    else:
                        r = modl(v.a[1], unit)
                        if r.t: continue
                        k = v.a[1] - r.k; u = [var(space, k + i) for i in range(unit)]
                    if k in seen: continue
                    seen.add(k)
                    if s.inrange(k, lin, hi, unit): h.extend(conjuncts(valid(u)))
            return h
        def refuted(d, depth=0):
            """is the 1-bit term d impossible under the hypotheses?"""
            if d is FALSE: return True
            if d is TRUE: return False
            parts = disjuncts(d)
            if len(parts) > 1: return all(refuted(p, depth) for p in parts)
            cs = conjuncts(d)
            if len(cs) > 1:
                if any(refuted(c, depth) for c in cs[:64]): return True
            av = [v for v in sup(d) if v in owner]
            h = hyps([d]) + hyp
            base = [f for f in st.bv if not any(v in owner for v in sup(f))]
            if not av:
                r, m = sat([d] + [x for x in related(h, sup(d)) ])
                if r == "unsat": return True
                r, m = sat([d] + related(h + base, sup(d), maxvars=8))
                return r == "unsat"
            if depth > 6: return False
            S = owner[av[0]]
            if any(v in owner and owner[v] is not S for v in sup(d)): return False
            # not d is invariant under valid steps
            for al in S.alts:
                n = rebuild(d, {v: al.acc[v] for v in av})
                lk = st.lin + [("ge", A(S.kb)), ("ge", S.cnt - A(S.kb) - 1)] + list(al.lin)
                if infeasible(lk): continue
                r, m = sat([n, bnot1(d)] + related(hyps([n], lk) + list(al.bv), sup(n)))
                if r != "unsat": return False
            return refuted(rebuild(d, {v: S.accs[v] for v in av}), depth + 1)
        binv = {}
        def bitinv(v, depth=0):
            """bits of an accumulator that keep a constant value over valid iterations: list of facts about v"""
            if v in binv: return binv[v]
            binv[v] = []
            if depth > 4: return []
            S = owner[v]; init = S.accs[v]
            ih = hyps([init]) + hyp
            for u in sup(init):
                if u in owner: ih = ih + bitinv(u, depth + 1)
            cand = []
            for i in range(v.w):
                for c in (0, 1):
                    if sat([eq(ext(init, i, 1), C(1, 1 - c))] + related(ih, sup(init)))[0] == "unsat": cand.append(eq(ext(v, i, 1), C(1, c))); break
            lk = st.lin + [("ge", A(S.kb)), ("ge", S.cnt - A(S.kb) - 1)]
            while cand:
                bad = []
                for al in S.alts:
                    n = al.acc[v]; h = hyps([n], lk + list(al.lin)) + list(al.bv)
                    for u in sup(n):
                        if u in owner and u is not v: h = h + bitinv(u, depth + 1)
                    for c in cand:
                        if c in bad: continue
                        g = rebuild(c, {v: n})
                        if sat([bnot1(g)] + cand + related(h, sup(n)))[0] != "unsat": bad.append(c)
                if not bad: break
                cand = [c for c in cand if c not in bad]
            binv[v] = cand
            return cand
        for f in st.bv:
            if refuted(f): 
                s.e.oblige("reject", f"{s.name}: {what}", True, st); return True
        for f in st.bv:
            av = [v for v in sup(f) if v in owner]
            if av:
                inv = [c for v in av for c in bitinv(v)]
                if inv and sat([f] + inv + related(hyps([f]) + hyp, sup(f)))[0] == "unsat":
                    s.e.oblige("reject", f"{s.name}: {what}", True, st); return True
        allh = hyps(st.bv) + hyp
        done = set()
        for f in st.bv:
            if f in done: continue
            comp = related(st.bv + allh, sup(f)); done.update(comp)
            r, m = sat(comp, timeout=8000)
            if r == "unsat": s.e.oblige("reject", f"{s.name}: {what}", True, st); return True
        s.e.oblige("reject", f"{s.name}: {what}", False, st)
        return False
    # -------- equality of byte terms, aliasing indices that are provably equal
    def unify(s, code, spec, lin):
        cv = [v for v in sup(code)]; m = {}
        for v in sup(spec):
            if v in cv: continue
            for c in cv:
                if c.a[0] != v.a[0] or c.w != v.w: continue
                d = v.a[1] - c.a[1]
                if not d.t: continue
                if prove(lin, ("eq", d)): m[v] = c; break
        return rebuild(spec, m) if m else spec
    def eq_under(s, code, spec, lin, facts, valid, space, hi=None):
        """-> (True|False|None, model)"""
        if code is spec: return True, None
        code = simp_under(code, set(facts))
        spec = s.unify(code, spec, lin)
        g = eq(code, spec)
        if g is TRUE: return True, None
        for c in conjuncts(g):
            h = []
            if valid is not None:
                for v in sup(c):
                    if v.a[0] == space and s.inrange(v.a[1], lin, hi): h.extend(conjuncts(valid([v])))
            r, m = bvprove(list(facts) + h, c)
            if not r: return r, m
        return True, None
    # -------- for all j in [0,m): final content of obj at j equals spec(j)
    def output(s, obj, m, spec, valid=None, space=None, what="output", base=0, check_cover=True, hi=None):
        if s.e.cfg.get("light"): return True
        if not isinstance(base, int) and not base.t: base = base.k
        e, st = s.e, s.st
        log = list(st.mem.get(obj.id, ())); lin = st.lin; pts = []; ok_all = True
        facts, _ = s.accfacts()
        B0 = K(base) if isinstance(base, int) else base
        ivs = {}
        def newer_iv(i):
            """intervals certainly written by records after i"""
            if i not in ivs:
                iv = []
                for r in log[i + 1:]:
                    if isinstance(r, W): iv.append((r.off, r.off + (r.size - 1), None))
                    elif isinstance(r, LW):
                        sets = [set(w.off + t for w in al for t in range(w.size)) for al in r.alts]
                        if sets: iv += s.index_regions([(r.kb, r.cnt, list(set.intersection(*sets)))])
                    elif isinstance(r, (CP, FILL)): iv.append((r.off, r.off + r.len - 1, r.len))
                ivs[i] = iv
            return ivs[i]
        def newer_covers(idx, i, lin2):
            """position idx is overwritten later, or lies outside [base, base+m)"""
            fs = lin2 + [("ge", B0 + m - idx - 1), ("ge", idx - B0)]
            for a, b, cnt in newer_iv(i):
                alts = [(("ge", a - idx - 1),), (("ge", idx - b - 1),)]
                if cnt is not None: alts.append((("ge", -cnt),))
                fs.append(("or", tuple(alts)))
            return infeasible(fs)
        for i in range(len(log) - 1, -1, -1):
            r = log[i]
            if isinstance(r, W):
                pts.append((None, None, [r.off + t for t in range(r.size)]))
                if r.by is None: raise Unsupported("non-byte output")
                for t in range(r.size):
                    idx = r.off + t
                    sp = s.with_lin(lin, lambda: spec(s, idx - base))
                    res, mod = s.eq_under(r.by[t], sp, lin, facts, valid, space, hi)
                    if not res and newer_covers(idx, i, lin): res = True
                    if not s.oblige("output", f"{what}[{idx}] equals specification" if not res else f"{what} byte", bool(res), model=mod, status="unknown" if res is None else None): ok_all = False; break
            elif isinstance(r, LW):
                if prove_ge(lin, -r.cnt): continue
                offs = None
                for ai, al in enumerate(r.alts):
                    q = A(Atom("q", 0)); qa = q.t[0][0]; sub = {r.kb: q}
                    rng = [("ge", q), ("ge", r.cnt - q - 1)]
                    alt = r.sum.alts[ai] if r.sum is not None else None
                    lin2 = lin + rng + ([subst_fact(f, sub) for f in alt.lin] if alt else [])
                    bv2 = facts + ([subst_idx(f, sub) for f in alt.bv] if alt else [])
                    o = set()
                    for wi, w in enumerate(al):
                        for t in range(w.size): o.add(w.off + t)
                        for t in range(w.size):
                            idx = w.off.subst(sub) + t
                            code = subst_idx(w.by[t], sub)
                            # overwritten later in the same iteration, or by the next iteration (all alternatives)
                            def cov(al2, at_, lin3, frm=0, quick=False):
                                for w2 in al2[frm:]:
                                    d = idx - w2.off.subst({r.kb: at_})
                                    if (not d.t and 0 <= d.k < w2.size) or (not quick and d.t and prove_ge(lin3, d) and prove_ge(lin3, K(w2.size - 1) - d)): return True
                                return False
                            def overwritten():
                                if cov(al, q, lin2, wi + 1): return True
                                l3 = lin2 + [("ge", r.cnt - q - 2)]
                                if infeasible(l3) or all(cov(al2, q + 1, l3) for al2 in r.alts):
                                    l4 = lin + [("ge", r.cnt - 1)]
                                    if infeasible(l4) or newer_covers(idx.subst({qa: r.cnt - 1}), i, l4): return True
                                return newer_covers(idx, i, lin2)
                            over = cov(al, q, lin2, wi + 1, True) or cov(al, q + 1, lin2, 0, True)
                            res = over and overwritten()
                            if not res:
                                sp = s.with_lin(lin2, lambda: spec(s, idx - base))
                                res, mod = s.eq_under(code, sp, lin2, bv2, valid, space, hi)
                                if not res and not over and overwritten(): res = True
                            if not s.oblige("output", f"{what}[{w.off}+{t}] (loop {r.kb}) equals specification" if not res else f"{what} byte", bool(res), model=mod, status="unknown" if res is None else None, lin=lin2): ok_all = False; break
                        else: continue
                        break
                    offs = o if offs is None else offs & o
                pts.append((r.kb, r.cnt, list(offs)))
            elif isinstance(r, CP):
                q = A(Atom("t", 0)); rng = [("ge", q), ("ge", r.len - q - 1)]
                lin2 = lin + rng
                if newer_covers(r.off + q, i, lin2):
                    pts.append((("range", r.off, r.len))); continue
                st2 = st.clone(); st2.lin = lin2
                code = e.read_byte(st2, r.obj, r.log, r.soff + q)
                idx = r.off + q
                sp = s.with_lin(lin2, lambda: spec(s, idx - base))
                res, mod = s.eq_under(code, sp, lin2, facts, valid, space, hi)
                if not s.oblige("output", f"{what} copied range equals specification" if not res else f"{what} range", bool(res), model=mod, status="unknown" if res is None else None, lin=lin2): ok_all = False
                pts.append((("range", r.off, r.len)))
            elif isinstance(r, FILL):
                q = A(Atom("t", 0)); lin2 = lin + [("ge", q), ("ge", r.len - q - 1)]
                idx = r.off + q
                if newer_all(s, log, i, r.off, r.len, lin): continue
                sp = s.with_lin(lin2, lambda: spec(s, idx - base))
                res, mod = s.eq_under(r.byte, sp, lin2, facts, valid, space, hi)
                s.oblige("output", f"{what} filled range", bool(res), model=mod)
                pts.append((("range", r.off, r.len)))
            else: raise Unsupported("log record")
        iv = s.index_regions([p for p in pts if p[0] != "range"]) + [(p[1], p[1] + p[2] - 1, p[2]) for p in pts if p[0] == "range"]
        if check_cover:
            s.covered("coverage", f"every {what} position is written" , K(0) + base if isinstance(base, int) else base, (K(base) if isinstance(base, int) else base) + m, iv)
        return ok_all
    def with_lin(s, lin, fn):
        old = s.st; st = old.clone(); st.lin = lin; s.st = st
        try: return fn()
        finally: s.st = old
    # -------- all writes stay in [lo,hi)
    def frame(s, obj, lo, hi, what="write frame"):
        lin = s.st.lin
        for r in s.st.mem.get(obj.id, ()):
            if isinstance(r, W): ok = prove_ge(lin, r.off - lo) and prove_ge(lin, hi - r.off - r.size)
            elif isinstance(r, LW):
                l2 = lin + [("ge", A(r.kb)), ("ge", r.cnt - A(r.kb) - 1)]
                ok = infeasible(l2) or all(prove_ge(l2, w.off - lo) and prove_ge(l2, hi - w.off - w.size) for al in r.alts for w in al)
            elif isinstance(r, (CP, FILL)): ok = prove_ge(lin, r.off - lo) and prove_ge(lin, hi - r.off - r.len)
            else: ok = False
            s.oblige("frame", what, ok)
def rel(facts, *ts):
    v = frozenset().union(*[sup(t) for t in ts])
    return [f for f in facts if sup(f) and not sup(f).isdisjoint(v)]
def newer_all(s, log, i, off, ln, lin): return False

# ------------------------------------------------------------------ pure specifications of the base-N codecs
class Codec:
    def __init__(s, name, bits, alphabet, decode=None):
        s.name = name; s.bits = bits; s.alpha = alphabet.encode() if isinstance(alphabet, str) else bytes(alphabet)
        s.gi = {4: 1, 5: 5, 6: 3}[bits]; s.go = {4: 2, 5: 8, 6: 4}[bits]
        d = [255] * 256
        for i, c in enumerate(s.alpha): d[c] = i
        for c, v in (decode or {}).items(): d[c] = v
        s.dec = tuple(d); s.vtab = tuple(1 if v != 255 else 0 for v in d)
        s.val = tuple(v if v != 255 else 0 for v in d)
    def nchars(s, g, n):
        q = divl(n, s.gi); r = g.const(modl(n, s.gi), 0, s.gi - 1)
        return q * s.go + (-(-8 * r // s.bits)), r
    def nbytes(s, g, n):
        """decoded length, remainder chars, or None if the remainder is impossible"""
        q = divl(n, s.go); r = g.const(modl(n, s.go), 0, s.go - 1)
        extra = r * s.bits // 8; slack = r * s.bits - extra * 8
        if slack >= s.bits: return None, r, 0
        return q * s.gi + extra, r, slack
    def enc_char(s, g, space, n, j, byte=None):
        """term for output character j (j < nchars)"""
        r = g.const(modl(j, s.go), 0, s.go - 1); q = divl(j - r, s.go)
        lo, hi = s.bits * r, s.bits * r + s.bits   # bit range, msb first
        t = []
        for b in range(lo // 8, (hi - 1) // 8 + 1):
            a, z = max(lo, 8 * b), min(hi, 8 * b + 8)
            idx = q * s.gi + b
            if g.must(lge(n - 1 - idx)): by = byte(idx) if byte else var(space, idx)
            else: by = C(8, 0)
            t.append(ext(by, 8 * b + 8 - z, z - a))
        v = cat(list(reversed(t)))
        return tab(s.alpha + bytes(256 - len(s.alpha)), zext(v, 8))
    def valid(s, u): return ext(tab(s.vtab, u[0]), 0, 1)
    def value(s, c): return ext(tab(s.val, c), 0, s.bits)
    def dec_byte(s, g, space, j, ch=None):
        r = g.const(modl(j, s.gi), 0, s.gi - 1); q = divl(j - r, s.gi)
        lo, hi = 8 * r, 8 * r + 8; t = []
        for c in range(lo // s.bits, (hi - 1) // s.bits + 1):
            a, z = max(lo, s.bits * c), min(hi, s.bits * c + s.bits)
            v = s.value(ch(q * s.go + c) if ch else var(space, q * s.go + c))
            t.append(ext(v, s.bits * c + s.bits - z, z - a))
        return cat(list(reversed(t)))
    def trailing_zero(s, space, idx, slack, ch=None):
        if not slack: return TRUE
        return eq(ext(s.value(ch(idx) if ch else var(space, idx)), 0, slack), C(slack, 0))
A64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789"
B64S = Codec("base64", 6, A64 + "+/"); B64U = Codec("base64url", 6, A64 + "-_")
B32 = Codec("base32", 5, "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"); B32H = Codec("base32hex", 5, "0123456789ABCDEFGHIJKLMNOPQRSTUV")
HEX = Codec("hex", 4, "0123456789abcdef", {ord(c): 10 + i for i, c in enumerate("ABCDEF")})
HEXL = Codec("hexlower", 4, "0123456789abcdef", {ord(c): 10 + i for i, c in enumerate("ABCDEF")})
HEXU = Codec("hexupper", 4, "0123456789ABCDEF", {ord(c): 10 + i for i, c in enumerate("abcdef")})
