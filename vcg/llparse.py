"""Parser for the textual LLVM IR that rustc + opt emit (LLVM 23)."""
import re

class Ty:
    __slots__ = ("k", "n", "elems", "packed"); PSIZE = 8
    def __init__(s, k, n=0, elems=None, packed=False): s.k, s.n, s.elems, s.packed = k, n, elems, packed
    def __repr__(s):
        if s.k == "int": return f"i{s.n}"
        if s.k == "vec": return f"<{s.n} x {s.elems}>"
        if s.k == "arr": return f"[{s.n} x {s.elems}]"
        if s.k == "struct": return "{" + ", ".join(map(repr, s.elems)) + "}"
        return s.k
    def __eq__(a, b): return isinstance(b, Ty) and repr(a) == repr(b)
    def __hash__(s): return hash(repr(s))
    def size(s):
        if s.k == "int": return {1: 1, 8: 1, 16: 2, 32: 4, 64: 8, 128: 16}.get(s.n, (s.n + 7) // 8)
        if s.k == "ptr": return s.PSIZE
        if s.k == "double": return 8
        if s.k == "float": return 4
        if s.k == "vec": return (s.n * s.elems.bits() + 7) // 8
        if s.k == "arr": return s.n * s.elems.size()
        if s.k == "struct":
            o = 0
            for e in s.elems:
                if not s.packed:
                    a = e.align(); o = (o + a - 1) // a * a
                o += e.size()
            if not s.packed:
                a = s.align(); o = (o + a - 1) // a * a
            return o
        raise ParseError(f"size of {s}")
    def bits(s):
        if s.k == "int": return s.n
        if s.k == "ptr": return 8 * s.PSIZE
        return s.size() * 8
    def align(s):
        if s.k == "int": return min(16, s.size())
        if s.k == "ptr": return s.PSIZE
        if s.k == "double": return 8
        if s.k == "vec": return s.size()
        if s.k == "arr": return s.elems.align()
        if s.k == "struct": return 1 if s.packed else max([e.align() for e in s.elems] or [1])
        return 4
    def offset(s, i):
        o = 0
        for j, e in enumerate(s.elems):
            if not s.packed:
                a = e.align(); o = (o + a - 1) // a * a
            if j == i: return o
            o += e.size()

INT = {n: Ty("int", n) for n in (1, 8, 16, 32, 64, 128)}
PTR = Ty("ptr"); VOID = Ty("void"); I1, I8, I32, I64 = INT[1], INT[8], INT[32], INT[64]

class ParseError(Exception): pass

TOK = re.compile(r'''\s*(?:
 (?P<str>c?"(?:[^"\\]|\\.)*")
|(?P<loc>%(?:"[^"]*"|[-A-Za-z0-9_.$]+))
|(?P<glob>@(?:"[^"]*"|[-A-Za-z0-9_.$]+))
|(?P<meta>!(?:[-A-Za-z0-9_.]+)?)
|(?P<attr>\#\d+)
|(?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?)
|(?P<hex>0x[0-9A-Fa-fKMLH]+)
|(?P<id>[A-Za-z_][A-Za-z0-9_.]*)
|(?P<p>\.\.\.|[\[\](){}<>,=*:|])
)''', re.X)

def tokenize(s):
    out = []; i = 0; n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m or m.end() == i:
            if s[i:].strip() == "": break
            if s[i:].lstrip().startswith(";"): break
            raise ParseError("tok: " + s[i:i+60])
        out.append((m.lastgroup, m.group(m.lastgroup))); i = m.end()
    return out

class TS:
    __slots__ = ("t", "i", "mod")
    def __init__(s, t, mod): s.t, s.i, s.mod = t, 0, mod
    def peek(s, k=0): return s.t[s.i + k][1] if s.i + k < len(s.t) else None
    def kind(s): return s.t[s.i][0] if s.i < len(s.t) else None
    def next(s): v = s.t[s.i][1]; s.i += 1; return v
    def eat(s, v):
        if s.peek() == v: s.i += 1; return True
        return False
    def expect(s, v):
        if not s.eat(v): raise ParseError(f"expected {v} got {s.peek()} in {[x[1] for x in s.t][max(0,s.i-8):s.i+8]}")
    def end(s): return s.i >= len(s.t)

def parse_type(ts):
    v = ts.next()
    if v == "ptr":
        if ts.peek() == "addrspace": ts.next(); ts.expect("("); ts.next(); ts.expect(")")
        return PTR
    if v == "void": return VOID
    if re.fullmatch(r"i\d+", v):
        n = int(v[1:]); return INT.get(n) or Ty("int", n)
    if v in ("double", "float", "half", "label", "metadata", "token", "opaque", "x86_amx"): return Ty(v)
    if v == "[":
        n = int(ts.next()); ts.expect("x"); e = parse_type(ts); ts.expect("]"); return Ty("arr", n, e)
    if v == "<":
        if ts.peek() == "{":
            ts.next(); el = []
            while not ts.eat("}"):
                el.append(parse_type(ts)); ts.eat(",")
            ts.expect(">"); return Ty("struct", 0, el, True)
        n = int(ts.next()); ts.expect("x"); e = parse_type(ts); ts.expect(">"); return Ty("vec", n, e)
    if v == "{":
        el = []
        while not ts.eat("}"):
            el.append(parse_type(ts)); ts.eat(",")
        return Ty("struct", 0, el)
    if v.startswith("%"):
        t = ts.mod.types.get(v)
        if isinstance(t, str):
            t = ts.mod.types[v] = parse_type(TS(tokenize(t), ts.mod))
        if t is None: raise ParseError("type " + v)
        return t
    raise ParseError(f"type? {v} {[x[1] for x in ts.t][:12]}")

# operands: ("loc",name) ("const",ty,int) ("glob",name) ("undef",ty) ("poison",ty) ("zero",ty) ("agg",ty,[ops])
#           ("bytes",ty,bytes) ("expr",op,...) ("null",)
def parse_operand(ts, ty):
    k = ts.kind(); v = ts.next()
    if k == "loc": return ("loc", v)
    if k == "glob": return ("glob", v)
    if k == "num":
        if ty.k != "int": return ("float", v)
        return ("const", ty, int(v) & ((1 << ty.n) - 1))
    if k == "hex": return ("float", v)
    if v == "true": return ("const", I1, 1)
    if v == "false": return ("const", I1, 0)
    if v == "null": return ("null",)
    if v in ("undef", "poison"): return (v, ty)
    if v == "zeroinitializer": return ("zero", ty)
    if v == "splat":
        ts.expect("("); t = parse_type(ts); o = parse_operand(ts, t); ts.expect(")")
        return ("agg", ty, [o] * ty.n)
    if v in ("<", "[", "{"):
        packed = False
        if v == "<" and ts.peek() == "{": ts.next(); packed = True
        close = {"<": ">", "[": "]", "{": "}"}[v] if not packed else "}"
        el = []
        while not ts.eat(close):
            t = parse_type(ts); el.append(parse_operand(ts, t)); ts.eat(",")
        if packed: ts.expect(">")
        return ("agg", ty, el)
    if k == "str":
        return ("bytes", ty, unescape(v))
    if v in ("inttoptr", "ptrtoint", "bitcast", "trunc", "zext", "addrspacecast"):
        ts.expect("("); t = parse_type(ts); o = parse_operand(ts, t); ts.expect("to"); t2 = parse_type(ts); ts.expect(")")
        return ("expr", v, t, o, t2)
    if v == "getelementptr":
        while ts.peek() in ("inbounds", "nuw", "nusw", "inrange"): 
            if ts.next() == "inrange":
                while ts.next() != ")": pass
        ts.expect("("); t = parse_type(ts); ts.expect(","); ops = []
        while True:
            t2 = parse_type(ts); ops.append((t2, parse_operand(ts, t2)))
            if not ts.eat(","): break
        ts.expect(")")
        return ("expr", "gep", t, ops)
    if v in ("sub", "add", "xor"):
        while ts.peek() in ("nuw", "nsw"): ts.next()
        ts.expect("("); t = parse_type(ts); a = parse_operand(ts, t); ts.expect(","); t2 = parse_type(ts); b = parse_operand(ts, t2); ts.expect(")")
        return ("expr", v, t, a, b)
    if v == "asm":
        sd = []
        while ts.peek() in ("sideeffect", "alignstack", "inteldialect", "unwind"): sd.append(ts.next())
        a = ts.next(); ts.expect(","); c = ts.next()
        return ("asm", a, c)
    if v == "none": return ("none",)
    raise ParseError(f"operand? {v}")

def unescape(v):
    v = v[1:] if v.startswith("c") else v
    v = v[1:-1]; out = bytearray(); i = 0
    while i < len(v):
        if v[i] == "\\":
            if v[i+1] == "\\": out.append(92); i += 2
            else: out.append(int(v[i+1:i+3], 16)); i += 3
        else: out.append(ord(v[i])); i += 1
    return bytes(out)

class Ins:
    __slots__ = ("op", "res", "ty", "a", "x", "flags", "line")
    def __init__(s, op, res, ty=None, a=None, x=None, flags=(), line=""): s.op, s.res, s.ty, s.a, s.x, s.flags, s.line = op, res, ty, a, x, flags, line
    def __repr__(s): return s.line

class Block:
    __slots__ = ("name", "ins", "phis", "term", "preds")
    def __init__(s, n): s.name, s.ins, s.phis, s.term, s.preds = n, [], [], None, []

class Func:
    def __init__(s, name): s.name = name; s.params = []; s.ret = VOID; s.blocks = {}; s.entry = None; s.attrs = None; s.inline_attrs = ""; s.body = None
class Glob:
    def __init__(s, name, ty, init, const, align): s.name, s.ty, s.init, s.const, s.align = name, ty, init, const, align
class Module:
    def __init__(s): s.funcs = {}; s.decls = {}; s.globals = {}; s.types = {}; s.attrs = {}; s.aliases = {}; s.pbits = 64; s.be = False

PATTRS = {"noundef", "nonnull", "noalias", "nofree", "readonly", "readnone", "writeonly", "immarg", "zeroext", "signext", "inreg", "returned", "nocapture", "noreturn", "nest", "swiftself", "allocptr", "allocalign", "writable", "dead_on_unwind", "dead_on_return", "nofpclass"}
def skip_attrs(ts):
    """Skip parameter/return attributes; return dict of interesting ones."""
    out = {}
    while not ts.end():
        v = ts.peek()
        if v == "align":
            ts.next()
            if ts.eat("("): out["align"] = int(ts.next()); ts.expect(")")
            else: out["align"] = int(ts.next())
        elif v in ("dereferenceable", "dereferenceable_or_null", "captures", "range", "memory", "initializes", "byval", "sret", "elementtype", "nofpclass", "byref", "preallocated", "inalloca", "vscale_range", "allocsize") and ts.peek(1) == "(":
            ts.next(); ts.next(); d = 1; toks = []
            while d:
                t = ts.next()
                if t == "(": d += 1
                elif t == ")": d -= 1
                toks.append(t)
            out[v] = toks[:-1]
        elif v in PATTRS: ts.next(); out[v] = True
        elif ts.kind() == "str" and ts.peek(1) != "(":
            ts.next()
            if ts.eat("="): ts.next()
        else: break
    return out

LINKAGE = {"private", "internal", "available_externally", "linkonce", "weak", "common", "appending", "extern_weak", "linkonce_odr", "weak_odr", "external", "dso_local", "dso_preemptable", "hidden", "protected", "default", "local_unnamed_addr", "unnamed_addr", "thread_local", "externally_initialized", "dllimport", "dllexport", "fastcc", "ccc", "coldcc", "tailcc", "preserve_mostcc", "preserve_allcc", "preserve_nonecc"}

def parse_module(text):
    m = Module(); lines = text.split("\n"); i = 0; n = len(lines)
    for ln in lines:
        if ln.startswith("%") and " = type " in ln:
            mm = re.match(r'(%"[^"]*"|%[^ ]+) = type (.*)', ln)
            m.types[mm.group(1)] = mm.group(2)
    while i < n:
        ln = lines[i]
        if ln.startswith("define "):
            f = parse_header(ln[7:], m); body = []
            i += 1
            while lines[i] != "}":
                body.append(lines[i]); i += 1
            f.body = body; m.funcs[f.name] = f
        elif ln.startswith("declare "):
            f = parse_header(ln[8:], m); m.decls[f.name] = f
        elif ln.startswith("target datalayout"): m.pbits = 32 if "-p:32:32" in ln else 64; m.be = "\"E-" in ln
        elif ln.startswith("@"): parse_global(ln, m)
        elif ln.startswith("attributes "):
            mm = re.match(r"attributes (#\d+) = \{(.*)\}", ln)
            m.attrs[mm.group(1)] = mm.group(2)
        elif ln.startswith("%"):
            mm = re.match(r'(%"[^"]*"|%[^ ]+) = type (.*)', ln)
            m.types[mm.group(1)] = mm.group(2)
        i += 1
    return m

def parse_header(ln, m):
    ln = re.sub(r"![a-z_A-Z0-9.]+ !?\S+", "", ln)
    ts = TS(tokenize(ln.rstrip("{ ")), m)
    while True:
        skip_attrs(ts)
        if ts.peek() in LINKAGE: ts.next(); continue
        if ts.peek() == "cc": ts.next(); ts.next(); continue
        break
    ret = parse_type(ts); name = ts.next(); f = Func(name); f.ret = ret
    ts.expect("(")
    while not ts.eat(")"):
        if ts.eat("..."): continue
        t = parse_type(ts); at = skip_attrs(ts); nm = None
        if ts.kind() == "loc": nm = ts.next()
        f.params.append((t, nm, at)); ts.eat(",")
    rest = [x[1] for x in ts.t[ts.i:]]
    for r in rest:
        if r.startswith("#"): f.attrs = r
    # unnamed params are numbered
    c = 0; np = []
    for t, nm, at in f.params:
        if nm is None: nm = f"%{c}"; c += 1
        elif re.fullmatch(r"%\d+", nm): c = int(nm[1:]) + 1
        np.append((t, nm, at))
    f.params = np; f.nextnum = c
    return f

def parse_global(ln, m):
    ln = re.sub(r", ![a-z_A-Z0-9.]+ !\S+", "", ln)
    ts = TS(tokenize(ln), m); name = ts.next(); ts.expect("=")
    const = False; ext = False
    while True:
        v = ts.peek()
        if v in LINKAGE:
            if v == "external": ext = True
            if v == "thread_local" and ts.peek(1) == "(":
                while ts.next() != ")": pass
                continue
            ts.next(); continue
        if v == "addrspace": ts.next(); ts.next(); ts.next(); ts.next(); continue
        break
    v = ts.next()
    if v == "alias": 
        t = parse_type(ts); ts.expect(","); t2 = parse_type(ts); m.aliases[name] = parse_operand(ts, t2); return
    if v not in ("constant", "global"): raise ParseError("global " + ln[:80])
    const = v == "constant"; t = parse_type(ts); init = None
    if not ext and not ts.end() and ts.peek() != ",":
        init = parse_operand(ts, t)
    al = 1
    while not ts.end():
        if ts.next() == "align": al = int(ts.next())
    m.globals[name] = Glob(name, t, init, const, al)

BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr"}
CAST = {"zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "ptrtoaddr", "addrspacecast"}
FLAGS = {"nuw", "nsw", "exact", "disjoint", "nneg", "inbounds", "nusw", "samesign", "volatile", "atomic", "tail", "musttail", "notail", "fast"}

def parse_body(f, m):
    if f.blocks: return
    cur = None; num = f.nextnum
    text = f.body; i = 0
    first = True
    while i < len(text):
        ln = text[i]; i += 1
        s = ln.strip()
        if not s or s.startswith(";"): continue
        if not ln.startswith(" "):
            mm = re.match(r'("[^"]*"|[-A-Za-z0-9_.$]+):', ln)
            if not mm: raise ParseError("label " + ln[:80])
            nm = "%" + mm.group(1); cur = Block(nm); f.blocks[nm] = cur
            if f.entry is None: f.entry = nm
            continue
        if cur is None:
            nm = f"%{num}"; cur = Block(nm); f.blocks[nm] = cur; f.entry = nm
        # multi-line switch
        if s.startswith("switch ") and not s.rstrip().endswith("]"):
            while not text[i].strip().startswith("]"):
                s += " " + text[i].strip(); i += 1
            s += " ]"; i += 1
        # strip metadata attachments
        s0 = s
        if "!" in s and " asm " not in s:
            s = re.sub(r", ![-a-zA-Z_.0-9]+ (?:!\d+|!\{[^}]*\}|![A-Za-z]+\([^)]*\))", "", s)
            s = re.sub(r"metadata !\d+", "metadata 0", s)
        elif "!" in s:
            s = re.sub(r", !srcloc !\d+.*$", "", s)
            s = re.sub(r", !noalias !\d+", "", s)
        try: ins = parse_ins(s, m)
        except Exception as e:
            raise ParseError(f"{e} in: {s0[:200]}")
        ins.line = s0
        if ins.op == "phi": cur.phis.append(ins)
        elif ins.op in ("br", "condbr", "switch", "ret", "unreachable", "invoke", "resume"):
            cur.term = ins
            cur.ins.append(ins)
        else: cur.ins.append(ins)
    for b in f.blocks.values():
        for t in succs(b): f.blocks[t].preds.append(b.name)

def succs(b):
    t = b.term
    if t is None: return []
    if t.op == "br": return [t.x]
    if t.op == "condbr": return [t.x[0], t.x[1]]
    if t.op == "switch": return [t.x[0]] + [l for _, l in t.x[1]]
    if t.op == "invoke": return [t.x["normal"], t.x["unwind"]]
    return []

def parse_ins(s, m):
    ts = TS(tokenize(s), m); res = None
    if ts.kind() == "loc" and ts.peek(1) == "=":
        res = ts.next(); ts.next()
    op = ts.next()
    flags = []
    while ts.peek() in FLAGS and op not in ("call",): flags.append(ts.next())
    if op in BIN:
        t = parse_type(ts); a = parse_operand(ts, t); ts.expect(","); b = parse_operand(ts, t)
        return Ins(op, res, t, [a, b], None, flags)
    if op in CAST:
        t = parse_type(ts); a = parse_operand(ts, t); ts.expect("to"); t2 = parse_type(ts)
        return Ins(op, res, t2, [a], t, flags)
    if op == "icmp":
        p = ts.next(); t = parse_type(ts); a = parse_operand(ts, t); ts.expect(","); b = parse_operand(ts, t)
        return Ins(op, res, t, [a, b], p, flags)
    if op == "select":
        t = parse_type(ts); c = parse_operand(ts, t); ts.expect(","); t1 = parse_type(ts); a = parse_operand(ts, t1); ts.expect(","); t2 = parse_type(ts); b = parse_operand(ts, t2)
        return Ins(op, res, t1, [c, a, b], t, flags)
    if op == "phi":
        t = parse_type(ts); inc = []
        while True:
            ts.expect("["); a = parse_operand(ts, t); ts.expect(","); l = ts.next(); ts.expect("]"); inc.append((a, l))
            if not ts.eat(","): break
        return Ins(op, res, t, None, inc)
    if op == "load":
        if ts.peek() in ("atomic", "volatile"): flags.append(ts.next())
        t = parse_type(ts); ts.expect(","); t2 = parse_type(ts); p = parse_operand(ts, t2); al = None
        while not ts.end():
            if ts.next() == "align": al = int(ts.next())
        return Ins(op, res, t, [p], al, flags)
    if op == "store":
        if ts.peek() in ("atomic", "volatile"): flags.append(ts.next())
        t = parse_type(ts); v = parse_operand(ts, t); ts.expect(","); t2 = parse_type(ts); p = parse_operand(ts, t2); al = None
        while not ts.end():
            if ts.next() == "align": al = int(ts.next())
        return Ins(op, res, t, [v, p], al, flags)
    if op == "getelementptr":
        t = parse_type(ts); ts.expect(","); t2 = parse_type(ts); p = parse_operand(ts, t2); idx = []
        while ts.eat(","):
            t3 = parse_type(ts); idx.append((t3, parse_operand(ts, t3)))
        return Ins(op, res, t, [p], idx, flags)
    if op == "alloca":
        t = parse_type(ts); al = 1; cnt = None
        while not ts.end():
            if ts.eat(","):
                if ts.eat("align"): al = int(ts.next())
                else: ct = parse_type(ts); cnt = parse_operand(ts, ct)
            else: ts.next()
        return Ins(op, res, t, [cnt] if cnt else [], al)
    if op == "br":
        if ts.eat("label"): return Ins("br", None, None, None, ts.next())
        t = parse_type(ts); c = parse_operand(ts, t); ts.expect(","); ts.expect("label"); a = ts.next(); ts.expect(","); ts.expect("label"); b = ts.next()
        return Ins("condbr", None, t, [c], (a, b))
    if op == "switch":
        t = parse_type(ts); v = parse_operand(ts, t); ts.expect(","); ts.expect("label"); d = ts.next(); ts.expect("["); cs = []
        while not ts.eat("]"):
            t2 = parse_type(ts); c = parse_operand(ts, t2); ts.expect(","); ts.expect("label"); cs.append((c[2], ts.next()))
        return Ins("switch", None, t, [v], (d, cs))
    if op == "ret":
        t = parse_type(ts)
        if t.k == "void": return Ins("ret", None, t, [])
        return Ins("ret", None, t, [parse_operand(ts, t)])
    if op == "unreachable": return Ins("unreachable", None)
    if op == "extractvalue":
        t = parse_type(ts); a = parse_operand(ts, t); ix = []
        while ts.eat(","): ix.append(int(ts.next()))
        return Ins(op, res, t, [a], ix)
    if op == "insertvalue":
        t = parse_type(ts); a = parse_operand(ts, t); ts.expect(","); t2 = parse_type(ts); b = parse_operand(ts, t2); ix = []
        while ts.eat(","): ix.append(int(ts.next()))
        return Ins(op, res, t, [a, b], ix)
    if op == "extractelement":
        t = parse_type(ts); a = parse_operand(ts, t); ts.expect(","); t2 = parse_type(ts); b = parse_operand(ts, t2)
        return Ins(op, res, t, [a, b])
    if op == "insertelement":
        t = parse_type(ts); a = parse_operand(ts, t); ts.expect(","); t1 = parse_type(ts); e = parse_operand(ts, t1); ts.expect(","); t2 = parse_type(ts); b = parse_operand(ts, t2)
        return Ins(op, res, t, [a, e, b])
    if op == "shufflevector":
        t = parse_type(ts); a = parse_operand(ts, t); ts.expect(","); t1 = parse_type(ts); b = parse_operand(ts, t1); ts.expect(","); t2 = parse_type(ts); mk = parse_operand(ts, t2)
        return Ins(op, res, t, [a, b], (t2, mk))
    if op == "freeze":
        t = parse_type(ts); return Ins(op, res, t, [parse_operand(ts, t)])
    if op in ("tail", "musttail", "notail"): op = ts.next()
    if op in ("call", "invoke"):
        while ts.peek() in FLAGS or ts.peek() in LINKAGE or ts.peek() in ("nnan", "ninf", "nsz"): ts.next()
        while True:
            skip_attrs(ts)
            if ts.peek() in LINKAGE: ts.next(); continue
            break
        t = parse_type(ts)
        if ts.peek() == "(":  # function type
            d = 0
            while True:
                v = ts.next()
                if v == "(": d += 1
                if v == ")":
                    d -= 1
                    if d == 0: break
        callee = parse_operand(ts, PTR); ts.expect("("); args = []
        while not ts.eat(")"):
            ta = parse_type(ts)
            at = skip_attrs(ts)
            if ta.k == "metadata":
                ts.next(); args.append((ta, None, at))
            else: args.append((ta, parse_operand(ts, ta), at))
            ts.eat(",")
        x = {"callee": callee, "args": args}
        if op == "invoke":
            while ts.peek() != "to": ts.next()
            ts.next(); ts.expect("label"); x["normal"] = ts.next(); ts.expect("unwind"); ts.expect("label"); x["unwind"] = ts.next()
        return Ins(op, res, t, None, x)
    if op in ("atomicrmw", "cmpxchg", "fence"):
        return Ins(op, res, None, None, s)
    return Ins("unsupported", res, None, None, s)

if __name__ == "__main__":
    import sys, time
    t = time.time(); m = parse_module(open(sys.argv[1]).read())
    for f in m.funcs.values(): parse_body(f, m)
    print(len(m.funcs), len(m.globals), time.time() - t)
    from collections import Counter
    c = Counter(i.op for f in m.funcs.values() for b in f.blocks.values() for i in b.ins)
    print(c)
    for f in m.funcs.values():
        for b in f.blocks.values():
            for i in b.ins:
                if i.op in ("unsupported", "atomicrmw", "cmpxchg", "fence"): print(i.line)
