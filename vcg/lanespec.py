"""Verification of the vector-operation wrappers against lanes.py."""
import re
from specs import *
import lanes as LN
LN.T_()
BY = {o[0]: o for o in LN.OPS}
def parse(w):
    m = re.match(r"v_(sse2|ssse3|sse41|avx2|neon|wasm)_(.*)$", w)
    return m.group(1), BY[m.group(2)]
def operands(args):
    lay, n = LN.layout(args)
    return [cat([var("src", K(off + j)) for j in range(LN.SZ[a])]) for a, off in lay], n
def pres(isa, pre, k, ops): return (pre(*ops) if pre else []) + (k["xpre"](*ops) if isa in LN.CROSS and "xpre" in k else [])
def prove_parts(facts, code, spec):
    """code == spec, piece by piece"""
    if code is spec: return True, None
    step = 8 if code.w % 8 == 0 and code.w > 8 else code.w
    for i in range(0, code.w, step):
        c, s = ext(code, i, step), ext(spec, i, step)
        if c is s: continue
        g = eq(c, s)
        if g is TRUE: continue
        r, m = bvprove(facts, g)
        if not r: return r, m
    return True, None
def prove_bool(facts, code, parts_all):
    """1-bit code == conjunction of parts"""
    cs = conjuncts(code)
    if len(cs) == len(parts_all) and all(c is not FALSE for c in cs):
        key = lambda t: min([v.a[1].k for v in sup(t)] or [-1])
        p = sorted(parts_all, key=key); q = sorted(cs, key=key); ok = True
        for x, y in zip(p, q):
            r, m = bvprove(facts, eq(x, y))
            if not r: ok = False; break
        if ok: return True, None
    return bvprove(facts, eq(code, ANDS(list(parts_all))))
def verify(mod, w):
    """-> Run, after checking wrapper w"""
    isa, (name, expr, args, res, spec, pre, prop, k) = parse(w)
    r = Run(mod, w, {}); e = r.e
    ops, n = operands(args); raw = k.get("raw"); al = k.get("align", 1)
    if raw: n = max(n, raw[0]) if raw[1] == "load" else n
    src = r.buf("src", K(max(n, 1)), "src", False, align=al if raw and raw[1] == "load" else 1)
    outn = sum(LN.SZ[x] if x != "res" else 1 for x in res) if not (raw and raw[1] == "store") else raw[0]
    dst = r.buf("dst", K(max(outn, 1)), "dst0", align=al if raw and raw[1] == "store" else 1)
    prec = [c for p in pres(isa, pre, k, ops) for c in conjuncts(p)]
    r.st.bv += prec
    def post(g, _):
        st = g.st; facts = list(st.bv)
        def byte(j): return e.read_byte(st, dst, st.mem.get(dst.id, ()), K(j))
        def bad(what, ok, m): g.oblige("output", f"{name} at {isa}: {what}", bool(ok), model=m, status="unknown" if ok is None else None)
        if raw:
            for j in range(raw[0]): bad(f"byte {j}", byte(j) is var("src", K(j)), {})
            return
        outs = []; o = 0
        for x in res:
            s = 1 if x == "res" else LN.SZ[x]
            if outs and res[0] == "res" and outs[0] is C(8, 0): outs.append(C(s * 8, 0)); break
            outs.append(cat([byte(o + j) for j in range(s)])); o += s
        if "rel" in k:
            for q in k["rel"](outs, *ops):
                if isinstance(q, tuple) and q[0] == "iff":
                    if q[1] is TRUE:
                        for c in q[2]:
                            ok, m = bvprove(facts, c); bad("accepted byte", ok, m)
                            if not ok: break
                    elif q[1] is FALSE:
                        s_, m = sat(facts + list(q[2])); bad("rejected vector", True if s_ == "unsat" else False if s_ == "sat" else None, m)
                    else:
                        ok, m = prove_bool(facts, q[1], q[2]); bad("verdict", ok, m)
                elif isinstance(q, tuple):
                    if q[1] is FALSE: continue
                    ok, m = bvprove(facts + [c for h in q[2] for c in conjuncts(h)] + (list(conjuncts(q[1])) if q[1] is not TRUE else []), q[3]); bad("decoded byte", ok, m)
                    if not ok: break
                else:
                    ok, m = bvprove(facts, q); bad("lane", ok, m)
                    if not ok: break
            return
        want = spec(*ops); got = cat(outs)
        if res[0] == "bool" and len(res) == 1:
            got1 = ext(got, 0, 1)
            bad("value is a bool", ext(got, 1, 7) is C(7, 0), {})
            c1 = bnot1(got1) if want.neg else got1
            if c1 is TRUE:
                ok, m = True, None
                for c in want.parts:
                    ok, m = bvprove(facts, c)
                    if not ok: break
            elif c1 is FALSE:
                r_, m = sat(facts + list(want.parts)); ok = True if r_ == "unsat" else False if r_ == "sat" else None
            else: ok, m = prove_bool(facts, c1, want.parts)
            bad("verdict", ok, m); return
        ok, m = prove_parts(facts, got, want); bad("lane", ok, m)
    return r.go([P(src, K(0)), P(dst, K(0))], post)

# ------------------------------------------------------------------ the same contract on concrete operands (replay against the real code)
import random, subprocess, time
def shape(w):
    isa, (name, expr, args, res, spec, pre, prop, k) = parse(w)
    _, n = LN.layout(args); raw = k.get("raw")
    if raw: return raw[0], raw[0], 0 if k["align"] > 1 else 1
    return n, sum(LN.SZ[x] if x != "res" else 1 for x in res), 0
def const_ops(args, data): return [C(LN.SZ[a] * 8, int.from_bytes(data[o:o + LN.SZ[a]], "little")) for a, o in LN.layout(args)[0]]
def pre_ok(w, data):
    isa, (name, expr, args, res, spec, pre, prop, k) = parse(w)
    return k.get("raw") is not None or all(p is TRUE for p in pres(isa, pre, k, const_ops(args, data)))
def conforms(w, data, out):
    """does this output meet the contract for these operands? -> None if it does, else what differs"""
    _, (name, expr, args, res, spec, pre, prop, k) = parse(w)
    if k.get("raw"): return None if out == data[:len(out)] else f"expected {data[:len(out)].hex()}"
    ops = const_ops(args, data)
    outs = []; o = 0
    for x in res:
        s = 1 if x == "res" else LN.SZ[x]; outs.append(C(8 * s, int.from_bytes(out[o:o + s], "little"))); o += s
    if "rel" in k:
        for q in k["rel"](outs, *ops):
            if isinstance(q, tuple) and q[0] == "iff":
                if (q[1] is TRUE) != all(c is TRUE for c in q[2]): return "wrong verdict"
            elif isinstance(q, tuple):
                if q[1] is TRUE and all(h is TRUE for h in q[2]) and q[3] is not TRUE: return "wrong decoded byte"
            elif q is not TRUE: return "wrong lane"
        return None
    want = spec(*ops)
    if isinstance(want, LN.Verdict): want = zext(want.term(), 8)
    got = cat(outs)
    return None if got is want else f"expected {want.a[0].to_bytes(want.w // 8, 'little').hex() if isc(want) else want}"
def samples(w, rng, count, fixed=()):
    """operands satisfying the precondition; fixed: (index, value) pairs kept"""
    n, _, _ = shape(w); isa, o = parse(w); pre = o[5] or isa in LN.CROSS and o[7].get("xpre"); out = []
    pal = [0, 1, 0x7f, 0x80, 0xff, 0x30, 0x39, 0x3a, 0x40, 0x41, 0x46, 0x47, 0x5a, 0x5b, 0x60, 0x61, 0x66, 0x67, 0x7a, 0x7b, 0x0f, 0x10]
    for q in range(count):
        mode = 0 if q == 0 and fixed else rng.randrange(5)
        b = bytearray({0: lambda: 0, 1: lambda: rng.randrange(256), 2: lambda: rng.choice(pal), 3: lambda: rng.choice((0, 255)), 4: lambda: rng.choice(b"0123456789abcdefABCDEF")}[mode]() for _ in range(n))
        if pre and not pre_ok(w, bytes(b)):
            if o[0].find("mask8x") >= 0: b = bytearray(rng.choice((0, 255)) for _ in range(n))
            elif "swizzle" in o[0]: b[n // 2:] = bytes(x & 0x8f for x in b[n // 2:])
            elif "merge_bits" in o[0]: b = bytearray(x & 15 for x in b)
            elif "alsw" in o[0]:
                lay, _ = LN.layout(o[2])
                for j, (a, off) in enumerate(lay):
                    if j and j % 2: b[off:off + 16] = bytes(x & 15 for x in b[off:off + 16])
                b[lay[2][1]] |= 0x80
        for i, v in fixed:
            if i < n: b[i] = v
        if pre and not pre_ok(w, bytes(b)): continue
        if mode == 1 and n >= 32 and rng.random() < .5 and not fixed: b[n // 2:] = b[:n - n // 2]; 
        if pre and not pre_ok(w, bytes(b)): continue
        out.append(bytes(b))
    return out
def native_run(binary, cases, end=None):
    """cases: [(wrapper, data)] -> [(wrapper, data, out | None, problem | None)]; a crash ends the batch and is attributed to the case it happened in"""
    res = []; i = 0; dead = set()
    while i < len(cases) and (end is None or time.time() < end):
        if cases[i][0] in dead: i += 1; continue
        cases = cases[:i] + [c for c in cases[i:] if c[0] not in dead] if dead else cases
        inp = "".join(f"{w} {d.hex() or '00'} {shape(w)[1]} {shape(w)[2]}\n" for w, d in cases[i:])
        p = subprocess.run(binary if isinstance(binary, list) else [binary], input=inp, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        ls = p.stdout.splitlines()
        for (w, d), l in zip(cases[i:], ls):
            out = bytes.fromhex(l.rstrip("!")); res.append((w, d, out, "wrote outside the result" if l.endswith("!") else conforms(w, d, out)))
        i += len(ls)
        if p.returncode != 0 and i < len(cases): res.append((*cases[i], None, f"the operation does not return (exit {p.returncode})")); dead.add(cases[i][0]); i += 1
        elif p.returncode == 0: break
    return res
