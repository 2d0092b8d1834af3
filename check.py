#!/opt/veriftools/pyvenv/bin/python3
"""check.py PROPERTY [--thorough]: verify the contracts of one property on the IR of /repo's current source."""
import sys, os, json, time, subprocess, signal, fcntl, re, pickle, tempfile, select, shutil
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "vcg")); sys.setrecursionlimit(20000)
T0 = time.time()
BUILD = os.path.join(HERE, "build"); os.makedirs(BUILD, exist_ok=True)
JOBS = int(os.environ.get("VERIF_JOBS", "8"))
TASK_S = 400; TOTAL_S = 560
import props
from specs import *
import specs

def build_ir(kind):
    """the IR of the harness + /repo's crates, rebuilt from the current tree"""
    spec = props.IRS[kind]
    out = os.path.join(BUILD, f"{kind}.{os.getpid()}.ll"); env = dict(os.environ)
    if "target" in spec:      # another architecture
        sr = os.path.join(BUILD, "sysroot-" + spec["target"]); env.update(X_TARGET=spec["target"], X_SYSROOT=sr)
        p = subprocess.run([os.path.join(HERE, "tools/xsysroot.sh"), spec["target"], sr], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode: print(p.stdout[-3000:]); print(f"ERROR: cannot prepare the standard library for {spec['target']}", flush=True); os._exit(3)
    with open(os.path.join(BUILD, f"lock.{kind}"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        p = subprocess.run([os.path.join(HERE, spec.get("script", "harness/build_ir.sh")), out, spec["tf"], spec["feats"], os.path.join(BUILD, "t_" + kind)] + spec.get("args", []), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print(p.stdout[-3000:]); print(f"ERROR: cannot build the IR '{kind}' from /repo", flush=True); os._exit(3)
    txt = open(out).read(); os.unlink(out)
    return parse_module(txt), len(txt)

# ------------------------------------------------------------------ one task, in a forked child
def concretise(f, unit_n=1):
    """numbers for the length atoms and bytes for the input variables, from the state of a failed obligation"""
    lin = list(f.lin); extra = []; bvm = {}
    if isinstance(f.model, dict): bvm = dict(f.model)
    elif f.model: extra = list(f.model)
    ats = set()
    for x in lin + extra: ats |= fact_atoms(x)
    for b in list(f.bv) + list(bvm):
        for v in sup(b):
            if isinstance(v.a[1], L): ats |= v.a[1].deep_atoms()
    at = {a.name: a for a in ats if a.name in ("n", "d")}
    m = None; s = z3.Solver(); s.set("timeout", 4000)
    kn = set()
    sv = Solver(); sv.s = s
    for x in lin + extra:
        for a in fact_atoms(x): sv.declare(a, kn)
        s.add(zfact(x))
    for a in ats: sv.declare(a, kn)
    for lim in (40, 80, 160, 400, 2000, 60000, None):
        s.push()
        if lim is not None:
            for a in ats:
                if a.div is None and a.name != "d": s.add(a.zz() <= lim)
            if "d" in at: s.add(at["d"].zz() <= 4 * lim + 64)
        r = s.check(); mm = s.model() if r == z3.sat else None
        s.pop()
        if mm is not None: m = mm; break
    if m is None: return None
    val = lambda e: m.eval(zlin(e), model_completion=True).as_long()
    if not bvm or True:
        facts = [b for b in f.bv if sup(b)]
        pin = [eq(v, C(v.w, x)) for v, x in bvm.items() if isinstance(x, int)]
        # equal indexes under the model denote the same byte
        byix = {}; al = []
        for b in facts + pin:
            for v in sup(b):
                if isinstance(v.a[1], L) and v.a[0] in ("src", "data"):
                    k = (v.a[0], val(v.a[1]))
                    if k in byix and byix[k] is not v: al.append(eq(v, byix[k]))
                    else: byix[k] = v
        r, mod = sat(facts + pin + al, timeout=6000)
        if r != "sat":
            r, mod = sat(pin + al, timeout=3000)
        if r == "sat": bvm = {**bvm, **mod}
    by = {}
    for v, x in bvm.items():
        if v.op == "v" and v.a[0] in ("src", "data", "dst0") and isinstance(v.a[1], L) and v.w == 8:
            if v.a[0] != "dst0": by[val(v.a[1])] = int(x)
    return {"n": val(A(at["n"])) if "n" in at else None, "d": val(A(at["d"])) if "d" in at else None, "bytes": sorted(by.items())[:4000]}

def run_one(mod, t, entry, fn):
    import exec as X
    r = {"task": t["id"], "fails": [], "exc": None}
    t0 = time.time(); e = None
    try:
        if fn is None:
            R = Run(mod, entry, dict(t.get("cfg", {}))); e = R.e; e.deadline = time.time() + TASK_S
            specs.CONTRACTS[entry](R); r["npaths"] = R.npaths
        else: e = fn(); r["npaths"] = 1
    except (Unsupported, PathLimit, NeedSymbolic, RecursionError, MemoryError) as ex: r["exc"] = f"{type(ex).__name__}: {str(ex)[:400]}"
    except Exception as ex:
        import traceback; r["exc"] = f"internal {type(ex).__name__}: {str(ex)[:200]} {traceback.format_exc()[-600:]}"
    if e is not None:
        r.update(obl=dict(e.obl), assumptions=sorted(map(str, e.assumptions)), used_fns=sorted(map(str, e.used_fns)), summaries=e.summaries, unrolled=e.unrolled, steps=e.steps)
        for f in e.fail[:60]:
            c = None
            if fn is not None:
                if isinstance(f.model, dict): c = {"n": None, "d": None, "bytes": [(v.a[1].k, x) for v, x in f.model.items() if v.op == "v" and v.a[0] == "src"]}
            elif len(r["fails"]) < 24:
                try: c = concretise(f)
                except Exception as ex: c = None
            r["fails"].append({"kind": f.kind, "what": f.what[:400], "status": f.status, "where": f.where, "model": c, "entry": entry})
        r["nfail"] = len(e.fail)
        if not r["exc"] and (not r.get("npaths") or not sum(e.obl.values())): r["exc"] = "vacuous: no final state reached, or no obligation generated"
    r["time"] = round(time.time() - t0, 2)
    return r
def run_task(mod, t):
    if "wrappers" in t:
        import lanespec
        parts = [run_one(mod, t, w, lambda w=w: lanespec.verify(mod, w)) for w in t["wrappers"]]
        r = {"task": t["id"], "fails": sum((p["fails"] for p in parts), []), "exc": None, "und": [(w, p["exc"]) for w, p in zip(t["wrappers"], parts) if p["exc"]], "clean": [w for w, p in zip(t["wrappers"], parts) if not p["exc"] and not p.get("nfail")]}
        for k in ("npaths", "summaries", "unrolled", "steps", "nfail"): r[k] = sum(p.get(k) or 0 for p in parts)
        r["obl"] = {}
        for p in parts:
            for k, v in p.get("obl", {}).items(): r["obl"][k] = r["obl"].get(k, 0) + v
        for k in ("assumptions", "used_fns"): r[k] = sorted(set().union(*[set(p.get(k, [])) for p in parts]))
        r["time"] = round(sum(p["time"] for p in parts), 2)
    elif "lemma" in t:
        import lemma
        r = run_one(mod, t, t["entry"], lambda: lemma.verify(mod, t["lemma"]))
    else:
        r = run_one(mod, t, t["entry"], None)
    r["z3"] = [Stats.z3q, round(Stats.z3t, 2), BStats.z3q, round(BStats.z3t, 2), BStats.enum, round(BStats.enumt, 2), Stats.quick]
    return r

def run_tasks(mods, tasks):
    """up to JOBS forked children; longest first"""
    todo = sorted(tasks, key=lambda t: -props.cost(t)); live = {}; out = []
    while todo or live:
        while todo and len(live) < JOBS and time.time() - T0 < TOTAL_S:
            t = todo.pop(0); rf, wf = os.pipe(); pid = os.fork()
            if pid == 0:
                os.close(rf)
                try:
                    signal.signal(signal.SIGTERM, signal.SIG_DFL)
                    res = run_task(mods[t["ir"]], t)
                    with os.fdopen(wf, "wb") as w: pickle.dump(res, w)
                except BaseException as ex:
                    sys.stderr.write(f"task {t['id']}: {ex!r}\n")
                os._exit(0)
            os.close(wf); live[rf] = (pid, t, time.time(), bytearray())
        if todo and time.time() - T0 >= TOTAL_S:
            for t in todo: out.append({"task": t["id"], "fails": [], "exc": "total time budget exhausted", "time": 0})
            todo = []
        if not live: continue
        rd, _, _ = select.select(list(live), [], [], 1.0)
        for fd in rd:
            pid, t, ts, buf = live[fd]; b = os.read(fd, 1 << 20)
            if b: buf.extend(b); continue
            os.close(fd); os.waitpid(pid, 0); del live[fd]
            try: res = pickle.loads(bytes(buf))
            except Exception: res = {"task": t["id"], "fails": [], "exc": "worker ended without a result", "time": round(time.time() - ts, 2)}
            out.append(res)
        for fd, (pid, t, ts, buf) in list(live.items()):
            if time.time() - ts > TASK_S + 30 or time.time() - T0 > TOTAL_S + 20:
                os.kill(pid, signal.SIGKILL); os.waitpid(pid, 0); os.close(fd); del live[fd]
                out.append({"task": t["id"], "fails": [], "exc": "time budget exhausted", "time": round(time.time() - ts, 2)})
    return out

# ------------------------------------------------------------------ native replay
ISAS = ["avx2", "sse4.1", "ssse3", "sse2"]
def cmdl(b): return b if isinstance(b, list) else [b]
class Native:
    bins = {}; calls = 0; err = None
    @classmethod
    def get(c, key="native"):
        """(binary, environment) of the replay program; native_par links the real rayon, with base64-simd's `parallel` feature (nightly);
        native@X is built without run-time detection, for the compilation target of the IR kind X"""
        if key in c.bins: return c.bins[key]
        if key in ("wasm_ops", "native@wasm", "native@wasmf"):
            if not shutil.which("node"): c.bins[key] = None; return None
            crate = "wasm_ops" if key == "wasm_ops" else "native_wasm"; key_ = key; tf = props.IRS["vops_wasm" if key == "wasm_ops" else key.split("@")[1]]["tf"]; key = crate
            b = os.path.join(BUILD, f"{key}.{os.getpid()}.wasm")
            with open(os.path.join(BUILD, "lock." + key), "w") as lk:
                fcntl.flock(lk, fcntl.LOCK_EX)
                p = subprocess.run([os.path.join(HERE, "tools/wasm_build.sh"), crate, b, BUILD, tf], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode: print("WASM build failed: " + p.stdout[-400:]); c.bins[key_] = None; return None
            import atexit; atexit.register(lambda: os.path.exists(b) and os.unlink(b))
            c.bins[key_] = (["node", os.path.join(HERE, crate, "run.js"), b], dict(os.environ)); return c.bins[key_]
        crate, _, var = key.partition("@"); td = os.path.join(BUILD, key)
        env = dict(os.environ, RUSTUP_TOOLCHAIN="nightly-2025-06-20" if crate == "native_par" else "stable-x86_64-unknown-linux-gnu"); env.pop("RUSTFLAGS", None)
        if var and props.IRS[var]["tf"]: env["RUSTFLAGS"] = "-C target-feature=" + props.IRS[var]["tf"]
        with open(os.path.join(BUILD, "lock." + key), "w") as lk:
            fcntl.flock(lk, fcntl.LOCK_EX)
            p = subprocess.run(["cargo", "build", "-q", "--offline", "--target-dir", td] + (["--no-default-features"] if var else []), cwd=os.path.join(HERE, crate), env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode: c.err = p.stdout[-1500:]; print("NATIVE build failed: " + c.err[-400:]); c.bins[key] = None; return None
            b = os.path.join(BUILD, f"{key}.{os.getpid()}.bin"); shutil.copy(os.path.join(td, "debug", crate), b)
        import atexit; atexit.register(lambda: os.path.exists(b) and os.unlink(b))
        e = dict(os.environ)
        if crate == "native":
            nm = subprocess.run(["nm", b], stdout=subprocess.PIPE, text=True).stdout
            a = int(re.search(r"^(\w+) \w hx_anchor$", nm, re.M).group(1), 16); m = re.search(r"^(\w+) \w \S*std_detect6detect5cache5CACHE$", nm, re.M)
            e.update(CACHE_OFF=str(int(m.group(1), 16) - a if m else 0), CACHE_LEN="24")
        c.bins[key] = (b, e); return c.bins[key]
    @classmethod
    def many(c, cmds, timeout):
        """run native commands in parallel; -> list of (cmd, mismatch fields or None)"""
        ent = lambda k: k[4] if k[0] == "fuzz" else k[2]
        key = lambda k: props.native_crate(ent(k)) + (k[1] if k[1][0] == "@" else "")
        cmds = [k for k in cmds if k[1] == "avx2" or props.native_crate(ent(k)) == "native"]
        cmds = [k for k in cmds if c.get(key(k))]
        timeout = min(timeout, max(5, 820 - (time.time() - T0)))
        out = []; live = []; todo = list(cmds); end = time.time() + timeout
        while todo or live:
            while todo and len(live) < JOBS and time.time() < end:
                k = todo.pop(0); f = tempfile.TemporaryFile(); b, env = c.get(key(k))
                live.append((k, subprocess.Popen(cmdl(b) + [k[0], props.IRS[k[1][1:]]["level"] if k[1][0] == "@" else k[1]] + k[2:], stdout=f, stderr=subprocess.DEVNULL, env=env), f, time.time()))
            if time.time() >= end: todo = []
            for x in list(live):
                k, p, f, ts = x
                if p.poll() is None:
                    if time.time() - ts > timeout + 40 or time.time() - T0 > 860: p.kill()
                    else: continue
                p.wait(); f.seek(0); s = f.read().decode("utf8", "replace"); f.close(); live.remove(x)
                mm = [l.split("\t")[1:] for l in s.splitlines() if l.startswith("MISMATCH\t")]
                q = re.search(r"CALLS (\d+)", s); c.calls += int(q.group(1)) if q else 1
                if mm and k[1][0] == "@": mm[0][1] = k[1]
                out.append((k, mm[0] if mm else None))
            time.sleep(0.01)
        return out

def msg_class(m):
    if re.search(r"SIGSEGV|SIGBUS|modified|outside|not start at", m): return {"memory", "func"}
    if re.search(r"abort", m): return {"memory", "panic", "func"}
    if re.search(r"panicked|timeout|SIGFPE|SIGILL|does not return|signal", m): return {"panic", "func"}
    return {"func"}

def take_lanes(hit, rs):
    Native.calls += len(rs)
    for w, d, out, bad in rs:
        if bad: hit.setdefault(w, []).append([w, w.split("_")[1], "0", d.hex(), f"operands {d.hex()}: result {out.hex() if out is not None else 'none'}: {bad}"])

def foreign(task): return "confirm" in props.IRS.get(task.partition("@")[2], ())
def foreign_confirm(mods, fails, rel):
    """Counterexamples for another architecture cannot run here.  One counts when the contract also fails with the lengths and bytes of the
    counterexample fixed (nothing is then abstracted: every loop is unrolled), while the same run on this machine's code does not fail."""
    out = {}; det = None; tried = {}
    for f in fails:
        e = f["entry"]; c = f["model"]
        if e in out or c is None or tried.get(e, 0) >= 3 or (c["n"] or 0) > 2000 or time.time() - T0 > 800: continue
        tried[e] = tried.get(e, 0) + 1
        if det is None: det = build_ir("det")[0]
        rs = [forked(lambda: run_one(m, {"id": e, "cfg": {"pin": c}}, e, None), 60) for m in (mods[f["task"].split("@")[1]], det)]
        bad = lambda r: [q for q in r["fails"] if rel(q["kind"]) and q["status"] != "unknown"]
        if None in rs or rs[1]["exc"] or rs[1].get("nfail") or not bad(rs[0]): continue
        out[e] = f"n={c['n']} d={c['d']} bytes={c['bytes'][:200]}: [{bad(rs[0])[0]['kind']}] {bad(rs[0])[0]['what'][:200]}"
    return out
def forked(fn, limit):
    rf, wf = os.pipe(); pid = os.fork()
    if pid == 0:
        try:
            os.close(rf); signal.alarm(limit)
            with os.fdopen(wf, "wb") as w: pickle.dump(fn(), w)
        finally: os._exit(0)
    os.close(wf)
    with os.fdopen(rf, "rb") as r: b = r.read()
    os.waitpid(pid, 0)
    try: return pickle.loads(b)
    except Exception: return None

def main():
    prop = sys.argv[1]; thorough = "--thorough" in sys.argv or os.environ.get("VERIF_TIER") == "thorough" and "--quick" not in sys.argv
    seed = int(os.environ.get("VERIF_SEED", "1"))
    props.PROP = prop; P_ = props.PROPS[prop]; tasks = props.tasks(prop, thorough)
    mods = {}; sizes = {}
    from concurrent.futures import ThreadPoolExecutor
    irs = list(dict.fromkeys(t["ir"] for t in tasks))
    with ThreadPoolExecutor(4) as ex:
        for ir, x in zip(irs, ex.map(build_ir, irs)): mods[ir], sizes[ir] = x
    missing = [t for t in tasks if "wrappers" not in t and "lemma" not in t and not ("@" + t["entry"]) in mods[t["ir"]].funcs]
    tasks = [t for t in tasks if t not in missing]
    tb = time.time() - T0
    res = run_tasks(mods, tasks); bytask = {t["id"]: t for t in tasks}
    rel = P_["kinds"]; cls = P_["cls"]
    ivars = {}        # entry -> compilation targets (without run-time detection) with something to replay
    fails = []; und = [{"task": t["id"], "entry": t["entry"], "why": "entry not present in the IR"} for t in missing]
    for r in res:
        t = bytask[r["task"]]
        if r["exc"]: und.append({"task": t["id"], "entry": t["entry"], "why": r["exc"]})
        var = "@" + t["ir"] if "level" in props.IRS[t["ir"]] else None
        if var: ivars.setdefault(t["entry"], set())
        for w, why in r.get("und", ()): und.append({"task": w, "entry": w, "why": why})
        for f in r["fails"]:
            if not rel(f["kind"]): continue
            if f["status"] == "unknown": und.append({"task": t["id"], "entry": f["entry"], "why": f"undecided obligation {f['kind']}: {f['what'][:200]}"})
            else: fails.append({**f, "task": t["id"], "var": var})
        if var and (r["exc"] or r["fails"]): ivars[t["entry"]].add(var)
    # -------- replay
    viol = []; tn = time.time(); spurious = []
    natent = props.native_entries()
    NOREPLAY = ("isa-guard", "dispatch-store", "race", "align")
    hit = {}          # entry -> mismatch
    rentries = list(dict.fromkeys([f["entry"] for f in fails if f["kind"] not in NOREPLAY] + [u["entry"] for u in und]))
    rentries = [e for e in rentries if props.native_name(e) in natent]
    def take(rs):
        for k, mm in rs:
            if mm and (msg_class(mm[4]) & cls): hit.setdefault(mm[0], []).append(mm)
    lentries = [e for e in rentries if e.startswith("v_")]; rentries = [e for e in rentries if e not in lentries]
    if lentries:
        import lanespec, random
        rng = random.Random(seed); cases = []
        for w in lentries:
            for f in fails:
                if f["entry"] == w and f["model"] is not None and f["kind"] not in NOREPLAY:
                    f["replayed"] = True; cases += [(w, d) for d in lanespec.samples(w, rng, 12, f["model"]["bytes"])]
            cases += [(w, d) for d in lanespec.samples(w, rng, 40 if len(lentries) > 200 else 400)]
            for f in fails:
                if f["entry"] == w and f["kind"] not in NOREPLAY: f["replayed"] = True
        for cr in sorted(set(props.native_crate(w) for w, _ in cases)):
            bn = Native.get(cr)
            if bn: take_lanes(hit, lanespec.native_run(bn[0], [c for c in cases if props.native_crate(c[0]) == cr], time.time() + 200))
    if rentries:
        cmds = []; per = {}
        for f in fails:
            c = f["model"]
            if f["kind"] in NOREPLAY or c is None or props.native_name(f["entry"]) not in natent: continue
            if per.get((f["entry"], f["kind"]), 0) >= 3: continue
            u = props.unit(f["entry"])
            if c["n"] is not None and c["n"] * u > 60000: continue
            per[(f["entry"], f["kind"])] = per.get((f["entry"], f["kind"]), 0) + 1
            f["replayed"] = True
            for isa in ISAS if not f["var"] else [f["var"]]:
                cmds.append(["case", isa, props.native_name(f["entry"]), str(c["n"] * u) if c["n"] is not None else "-", str(c["d"]) if c["d"] is not None else "-", str(seed), "60", ",".join(f"{i}:{v}" for i, v in c["bytes"] if i >= 0)])
        take(Native.many(cmds[:400], 60))
        need = [e for e in rentries if props.native_name(e) not in hit]
        if need:
            budget = 90 if not thorough else 240
            each = max(0.5, min(20.0, budget * JOBS / (4 * len(need))))
            take(Native.many([["fuzz", isa, str(seed), f"{each:.2f}", props.native_name(e)] for e in need for isa in (ISAS if prop not in ("C25", "C26") else []) + sorted(ivars.get(e, ()))], budget + 60))
    ws = [w for t in tasks for w in t.get("wrappers", ()) if w in natent]
    if thorough and ws:      # every operation on random operands as well (also validates the models of the machine instructions)
        import lanespec, random
        rng = random.Random(seed + 7)
        for cr in sorted(set(map(props.native_crate, ws))):
            bn = Native.get(cr)
            if bn: take_lanes(hit, lanespec.native_run(bn[0], [(w, d) for w in ws if props.native_crate(w) == cr for d in lanespec.samples(w, rng, 30)], time.time() + 250))
    if thorough and (prop in ("C25", "C26") or not ws) and P_.get("func", True):
        es = [e for e in dict.fromkeys(t["entry"] for t in tasks if "wrappers" not in t) if props.native_name(e) in natent and props.native_name(e) not in hit]
        each = max(1.0, min(30.0, 200.0 * JOBS / (4 * max(1, len(es)))))
        take(Native.many([["fuzz", isa, str(seed + 7), f"{each:.2f}", props.native_name(e)] for e in es for isa in ({"C25": ["@wasm"], "C26": ["@wasmf"]}.get(prop, ISAS))], 260))
    guard = [e for e in dict.fromkeys(f["entry"] for f in fails if f["kind"] in ("isa-guard", "dispatch-store")) if props.native_name(e) in natent and props.native_crate(e) == "native"]
    traced = []       # the instructions really executed when detection reports a lower level (single-stepped)
    gk = list(dict.fromkeys((lv, e) for e in guard[:24] for f in fails if f["entry"] == e and f["kind"] in ("isa-guard", "dispatch-store") for lv in ([f["var"]] if f["var"] else ["avx"] + ISAS[1:])))
    traced = [mm for k, mm in Native.many([["trace", lv, props.native_name(e), str(seed)] for lv, e in gk], 120) if mm]
    if prop == "C18":    # a functional deviation is a dispatch matter only when the instruction-set levels differ
        for e, ms in list(hit.items()):
            keep = []
            for mm in ms:
                rs = Native.many([["exact", i, mm[0], mm[2], mm[3]] for i in ISAS + [mm[1]] * (mm[1][0] == "@")], 30)
                bad = sorted({k[1] for k, x in rs if x})
                if bad and len(bad) < len(rs): mm[4] = f"results differ between instruction-set levels (deviates at {','.join(bad)}): " + mm[4]; keep.append(mm)
            if keep: hit[e] = keep
            else: del hit[e]
    for mm in traced: hit.setdefault(mm[0], []).append(mm)
    known = json.load(open(os.path.join(HERE, "known-findings.json")))["findings"]
    rdir = os.path.join(HERE, "replays"); os.makedirs(rdir, exist_ok=True)
    def emit(name, data, nff):
        for k in known:
            if k["property"] == prop and k.get("entry") == data["entry"] and re.search(k["match"], data.get("what", "")):
                print(f"KNOWN-FINDING: property={prop} {k['what']}"); return
        p = os.path.join(rdir, f"{prop}-{name}.json"); json.dump(data, open(p, "w"), indent=1)
        viol.append(p); print(f"  {data['what']}"[:600]); print(f"VIOLATION property={prop} replay={p}" + (" no-failing-input-found" if nff else ""))
    for e, ms in hit.items():
        mm = ms[0]; ob = [f for f in fails if props.native_name(f["entry"]) == e][:6]
        emit(e, {"property": prop, "entry": e, "isa": mm[1], "d": mm[2], "input_hex": mm[3], "what": f"{e} at {mm[1]}: {mm[4]}"[:700],
            "failed_obligations": ob, "rerun": f"{HERE}/check.py --replay {rdir}/{prop}-{e}.json"}, False)
    done = set()
    confirmed = foreign_confirm(mods, [f for f in fails if foreign(f["task"]) and props.native_name(f["entry"]) not in hit], rel)
    for f in fails:
        if props.native_name(f["entry"]) in hit: continue
        if foreign(f["task"]):
            if f["entry"] not in confirmed: spurious.append(f)
            elif f["entry"] not in done:
                done.add(f["entry"])
                emit(f["entry"] + "-" + f["task"].split("@")[1], {"property": prop, "entry": f["entry"], "what": f"{f['entry']} on {props.IRS[f['task'].split('@')[1]]['target']}: failed obligation [{f['kind']}] {f['what']} ({f['where']}); confirmed at the concrete size of the counterexample (no loop abstraction): {confirmed[f['entry']]}",
                    "failed_obligations": [g for g in fails if g["entry"] == f["entry"]][:10]}, True)
            continue
        if prop == "C18" and f["kind"] not in NOREPLAY or prop == "C20": spurious.append(f); continue    # C20: only a broken round trip counts
        if f["kind"] in NOREPLAY or not f.get("replayed") and not any(g.get("replayed") and g["entry"] == f["entry"] and g["kind"] == f["kind"] for g in fails) or props.native_name(f["entry"]) not in natent:
            key = (f["entry"], f["kind"])
            if key in done: continue
            done.add(key)
            emit(f"{f['entry']}-{f['kind']}", {"property": prop, "entry": f["entry"], "what": f"{f['entry']}: failed obligation [{f['kind']}] {f['what']} ({f['where']})", "failed_obligations": [g for g in fails if g["entry"] == f["entry"]][:10]}, True)
        else: spurious.append(f)
    for f in spurious[:20]: print(f"UNDECIDED {f['entry']}: obligation [{f['kind']}] {f['what'][:160]}: the verifier's counterexample does not fail on the real code; bounded native check found nothing")
    for u in und[:20]: print(f"UNDECIDED {u['task']}: {u['why'][:300]}; bounded native check {'found nothing' if props.native_name(u['entry']) not in hit else 'failed'}")
    # -------- evidence
    obl = {}
    for r in res:
        for k, v in r.get("obl", {}).items():
            if rel(k): obl[k] = obl.get(k, 0) + v
    total = sum(obl.values()); nf = len(fails) + sum(1 for u in und if u["why"].startswith("undecided"))
    z = [sum(r.get("z3", [0] * 7)[i] for r in res) for i in range(7)]
    fns = sorted(set().union(*[set(r.get("used_fns", [])) for r in res]) if res else [])
    proved = [r["task"] for r in res if not r["exc"] and not r.get("und") and not any(rel(f["kind"]) for f in r["fails"])]
    ev = {"property": prop, "tier": "thorough" if thorough else "quick", "seed": seed, "level": "proof", "wall_s": round(time.time() - T0, 2), "violations": len(viol),
        "coverage": {"obligations": total, "discharged": total - nf, "checker_cmd": f"/verif/check.py {prop}", "trusted_base": props.TRUSTED,
            "obligations_by_kind": obl, "entries_under_contract": sorted(set().union(*[set(t.get("wrappers", [t["entry"]])) for t in tasks])), "tasks": len(tasks), "tasks_fully_discharged": len(proved),
            "undecided_bounded": und[:200], "counterexamples_not_reproduced": [f"{f['entry']}: [{f['kind']}] {f['what'][:120]}" for f in spurious[:50]],
            "functions_executed": fns, "paths": sum(r.get("npaths", 0) for r in res), "loops_summarised_by_invariant": sum(r.get("summaries", 0) for r in res),
            "back_ends": {"z3_lia_queries": z[0], "z3_lia_s": round(z[1], 2), "z3_bv_queries": z[2], "z3_bv_s": round(z[3], 2), "complete_enumeration_queries": z[4], "complete_enumeration_s": round(z[5], 2), "syntactic_linear": z[6]},
            "native_calls": Native.calls, "ir_bytes": sizes, "ir_build_s": round(tb, 2), "task_seconds": {r["task"]: r["time"] for r in sorted(res, key=lambda r: -r["time"])[:12]}},
        "assumptions": props.ASSUMPTIONS + sorted(set().union(*[set(r.get("assumptions", [])) for r in res]) if res else [])}
    if P_.get("extra"): ev["coverage"]["note"] = P_["extra"]
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    print(f"{prop}: {len(tasks)} contract tasks, {total - nf}/{total} obligations discharged, {len(proved)} fully, {len(und)} undecided, {len(viol)} violations, {time.time() - T0:.1f}s")
    sys.exit(1 if viol else 0)

def replay(path):
    d = json.load(open(path))
    if "input_hex" in d and d["entry"].startswith("v_"):
        import lanespec
        b, env = Native.get(props.native_crate(d["entry"])); r = lanespec.native_run(b, [(d["entry"], bytes.fromhex(d["input_hex"]))])[0]
        print(d["entry"], r[1].hex(), "->", r[2].hex() if r[2] is not None else None, r[3] or "HOLDS"); sys.exit(1 if r[3] else 0)
    if "input_hex" not in d: print("no failing input recorded; obligations:", json.dumps(d["failed_obligations"], indent=1)[:3000]); sys.exit(2)
    v = d["isa"] if d["isa"][0] == "@" else ""
    b, env = Native.get(props.native_crate(d["entry"]) + v)
    p = subprocess.run(cmdl(b) + ["tracex" if "instruction (bytes" in d["what"] else "exact", props.IRS[v[1:]]["level"] if v else d["isa"], d["entry"], d["d"], d["input_hex"]], env=env)
    sys.exit(p.returncode)
if __name__ == "__main__":
    if sys.argv[1] == "--replay": replay(sys.argv[2])
    else: main()
