"""Which contracts decide which property, on which IR."""
import re, os, shutil
from specs import CONTRACTS
IRS = {"det": {"tf": "", "feats": "detect"}, "par": {"tf": "", "feats": "detect", "args": ["par"]},
    # s_*: without run-time detection, for four compilation targets (level: what that target guarantees)
    "s_base": {"tf": "", "feats": "", "level": "sse2"}, "s_ssse3": {"tf": "+ssse3", "feats": "", "level": "ssse3"},
    "s_sse41": {"tf": "+sse4.1", "feats": "", "level": "sse4.1"}, "s_avx2": {"tf": "+avx2", "feats": "", "level": "avx2"},
    "vops": {"tf": "", "feats": "", "script": "vops/build_ir.sh"},
    # other architectures, cross-compiled: the codecs and the vector operations on AArch64 (NEON) and on WebAssembly (simd128)
    "neon": {"tf": "", "feats": "", "target": "aarch64-unknown-linux-gnu", "confirm": True}, "vops_neon": {"tf": "", "feats": "", "target": "aarch64-unknown-linux-gnu", "script": "vops/build_ir.sh"},
    "wasm": {"tf": "+simd128", "feats": "", "target": "wasm32-unknown-unknown", "level": "wasm"},
    "wasmf": {"tf": "", "feats": "", "target": "wasm32-unknown-unknown", "level": "wasmf"},
    "i686": {"tf": "", "feats": "detect", "target": "i686-unknown-linux-gnu", "confirm": True}, "ppc64": {"tf": "", "feats": "", "target": "powerpc64-unknown-linux-gnu", "confirm": True},
    "vops_wasm": {"tf": "+simd128", "feats": "", "target": "wasm32-unknown-unknown", "script": "vops/build_ir.sh"}}   # par: base64-simd with its `parallel` feature
GUARD = ("isa-guard", "dispatch-store", "race", "align")
MEM = ("bounds", "align", "write-frame", "frame", "overlap", "uninit", "use-after-free", "unreachable", "assume")
PANIC = ("panic", "overflow", "termination", "assume", "unreachable")
functional = lambda k: k not in GUARD and k != "frame"
PAR = [e for e in CONTRACTS if e.endswith("_par")]
ALL = [e for e in CONTRACTS if e not in PAR]
def pick(rx): return [e for e in CONTRACTS if re.fullmatch(rx, e)]
STATIC = r"(b64s|b64f|b32s|hexl?|hexu|uuid|uuidx|uni|nat)_(enc|encs|dec|inp|chk|parse|psimple|phyph|f\w+|ascii|from_ascii|utf32|swap\w+|exec|d[sh]\w?)"
def func(rx): return {"static": True, "entries": lambda: pick(rx), "kinds": functional, "cls": {"func"}, "light": False}
HEAP = r".*_(ebb|ebs|evc|est|eav|eas|dbb|dvc|dav)"
C20RX = r"b(64|32)(s|u|h|sn|un|hn)_(encs?|dec|inp)|b64f_(dec|inp)|hex[lu]_encs?|hex_(dec|inp)|uuidx?_(parse|psimple|phyph|f\w+|d[sh]\w?)|" + HEAP
XKINDS = lambda k: k not in ("isa-guard", "dispatch-store", "race", "frame")
PROPS = {
    "C01": func(r"b64(s|u|sn|un)_encs?"),
    "C02": func(r"b64(s|u|sn|un)_dec"),
    "C03": func(r"b64(s|u|sn|un)_(inp|chk|dlen)"),
    "C04": func(r"b64f_(dec|inp)"),
    "C05": func(r"hex[lu]_(enc|encs|encr)"),
    "C06": func(r"hex_(dec|decr|inp|inpr|chk|chkr)"),
    "C07": func(r"b32(s|h|sn|hn)_encs?"),
    "C08": func(r"b32(s|h|sn|hn)_dec"),
    "C09": func(r"b32(s|h|sn|hn)_(inp|chk|dlen)"),
    "C10": func(r"uuidx?_(parse|psimple|phyph)"),
    "C11": func(r"uuid_(fsimple|fhyph)_[lu]|uuid_d[sh][lu]?"),
    "C12": func(r"uni_(ascii|from_ascii)"),
    "C13": func(r"uni_utf32"),
    "C14": func(r"uni_swap.*"),
    "C17": func(HEAP),
    "C22": func(r"b64.*_par"),
    "C23": func(r".*_(elen|edlen|dlen)"),
    "C20": {"entries": lambda: [e for e in ALL if re.fullmatch(C20RX, e)], "kinds": functional, "cls": {"func", "panic"}, "light": False, "lemmas": True},
    "C19": {"lanes": "C19", "kinds": lambda k: True, "cls": {"memory", "func", "panic"}, "light": False},
    "C21": {"lanes": "C21", "kinds": lambda k: True, "cls": {"memory", "func", "panic"}, "light": False},
    "C24": {"xarch": ["neon"], "kinds": XKINDS, "cls": {"func", "memory", "panic"}, "light": False},
    "C25": {"xarch": ["wasm"], "kinds": XKINDS, "cls": {"func", "memory", "panic"}, "light": False},
    "C26": {"xarch": ["i686", "ppc64", "wasmf"], "kinds": XKINDS, "cls": {"func", "memory", "panic"}, "light": False},
    "C15": {"entries": lambda: ALL + PAR, "kinds": lambda k: k in MEM, "cls": {"memory"}, "light": True},
    "C16": {"entries": lambda: ALL + PAR, "kinds": lambda k: k in PANIC, "cls": {"panic"}, "light": True},
    "C18": {"entries": lambda: ALL, "kinds": lambda k: k in GUARD and k != "align" or functional(k), "cls": {"func"}, "light": False, "func": True},
}
XARCH = r"(b64\w*|b32\w*|hexl?|hexu|uuid|uuidx|uni)_(encs?|encr|decr?|inpr?|chkr?|dlen|elen|edlen|parse|psimple|phyph|f\w+|ascii|from_ascii|utf32|swap\w+|d[sh]\w?)"
def lane_tasks(ws, ir, tag, n):
    slow = [w for w in ws if re.search("hex_decode|alsw_|reduce", w)]; ws = [w for w in ws if w not in slow]
    return [{"id": w, "entry": w, "ir": ir, "cfg": {}, "wrappers": [w]} for w in slow] + [{"id": f"{tag}-{i}", "entry": ws[i], "ir": ir, "cfg": {}, "wrappers": ws[i::n]} for i in range(n) if ws[i::n]]
def tasks(prop, thorough=False):
    p = PROPS[prop]; out = []
    if "xarch" in p:
        import lanes
        for a in p["xarch"]:
            for e in ALL:
                if a == "ppc64" and e == "uni_utf32": continue      # what "little-endian" u32 values are on a big-endian machine is not specified
                if re.fullmatch(XARCH, e) or thorough and re.fullmatch(HEAP, e): out.append({"id": e + "@" + a, "entry": e, "ir": a, "cfg": {}})
        if len(p["xarch"]) > 1: return out
        return out + lane_tasks(lanes.wrappers(None, [a]), "vops_" + a, a, 12)
    if "lanes" in p:
        import lanes
        ws = lanes.wrappers(p["lanes"]); slow = [w for w in ws if re.search("hex_decode", w)]; ws = [w for w in ws if w not in slow]; n = 40
        for i in range(n):
            if ws[i::n]: out.append({"id": f"{p['lanes']}-{i}", "entry": ws[i], "ir": "vops", "cfg": {}, "wrappers": ws[i::n]})
        return [{"id": w, "entry": w, "ir": "vops", "cfg": {}, "wrappers": [w]} for w in slow] + out
    for e in p["entries"]():
        cfg = {"light": True} if p["light"] or prop == "C18" and re.fullmatch(HEAP, e) else {}
        out.append({"id": e, "entry": e, "ir": "par" if e in PAR else "det", "cfg": cfg})
    rx = STATIC if prop == "C18" else ".*" if thorough and p.get("static") else None
    for k in [k for k in IRS if "level" in IRS[k]] if rx else []:
        for e in p["entries"]():
            if e not in PAR and re.fullmatch(rx, e): out.append({"id": e + "@" + k, "entry": e, "ir": k, "cfg": {"light": True} if not thorough or p["light"] else {}})
    if p.get("lemmas"):
        from lemma import LEMMAS
        out += [{"id": "lemma-" + k, "entry": v[0], "ir": "det", "cfg": {}, "lemma": k} for k, v in LEMMAS.items()]
    return out
def cost(t):
    e = t["entry"]; c = 1
    if "level" in IRS[t["ir"]]: return cost({**t, "ir": "det"}) / (4 if not t["cfg"] else 20)
    if "wrappers" in t: return 5 if "32x2" in e else 2
    if re.match(r"b64f_", e): c = 80 + 40 * (e == "b64f_dvc")
    elif e in PAR: c = 50
    elif re.match(r"b32[sh]n?_d(bb|vc)", e): c = 40
    elif re.match(r"b32[sh]n?_dav", e): c = 85
    elif re.match(r"b64.*_dav", e): c = 28
    elif re.match(r"b64.*_(ea|db|dv)", e): c = 15
    elif re.match(r"b32[sh]_(dec|inp)", e): c = 33
    elif re.match(r"b32[sh]n_(dec|inp)", e): c = 15
    elif re.match(r"b64.*_(dec|inp)", e): c = 13
    elif re.match(r"b32", e): c = 5
    elif re.match(r"b64|hex_(dec|inp)|uuid", e): c = 3
    return c
PROP = None
def native_name(e):
    """the operation a counterexample for entry e is replayed through: for the round-trip property, encoder and decoder of the variant together"""
    if PROP != "C20" or e.startswith("c20_"): return e
    v = e.split("_")[0]
    return "c20_" + ("hex" if v.startswith("hex") else "uuid" if v.startswith("uuid") else v)
def unit(e): return 4 if "32" in e and e.startswith("uni_") else 2 if e.startswith("uni_swap16") else 1
_nat = None
def native_crate(e): return "wasm_ops" if e.startswith("v_wasm_") else "native_ops" if e.startswith("v_") else "native_par" if e in PAR else "native"
def native_entries():
    global _nat
    if _nat is None:
        s = "".join(open(os.path.join(os.path.dirname(__file__), f"../{d}/src/main.rs")).read() for d in ("native", "native_par"))
        import lanes
        _nat = set(lanes.wrappers()) | (set(lanes.wrappers(None, ["wasm"])) if shutil.which("node") else set()) | set(re.findall(r"\b((?:b64|b32|hex|uuid|uni|nat|c20)\w*_\w+)", s))
    return _nat
TRUSTED = ["rustc front end and code generation (the verified text is the LLVM IR rustc emits for /repo's sources, before LLVM's optimiser)",
    "LLVM's inliner, SROA, early-cse, instsimplify and simplifycfg passes (applied to that IR before verification)",
    "the verification-condition generator in /verif/vcg (symbolic execution, loop summarisation, term rewriting)",
    "z3 4.x (python z3-solver) for linear integer and bit-vector obligations; numpy for complete enumeration",
    "semantics of the x86 intrinsics as modelled in vcg/exec.py (pshufb, pmaddubsw, pmovmskb, ...); C24/C25: of the NEON (tbl, urhadd, ...) and WebAssembly (swizzle, avgr, bitmask, ...) intrinsics"]
ASSUMPTIONS = ["slices have at most isize::MAX bytes, distinct buffers do not overlap (Rust reference guarantees)",
    "std_detect reports only features the CPU has, monotonically (avx2 => sse4.1 => ssse3)", "objects lie in the lower half of the address space (C25: below 2 GiB)"]
