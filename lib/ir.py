"""LLVM IR text: types, instructions, CFG, dominators and natural loops."""
import re

class Ty:
    def __init__(s, k, **kw): s.k = k; s.__dict__.update(kw)
class Mod:
    def __init__(m): m.types = {}; m.globals = {}; m.funcs = {}; m.dbg = {}; m.decls = set()

class P:
    """tiny cursor over one line"""
    TOK = re.compile(r'\s*(c"(?:[^"\\]|\\.)*"|"(?:[^"\\]|\\.)*"|%"[^"]+"|@"[^"]+"|%[-\w.$]+|@[-\w.$]+|![-\w.]*|#\d+|\.\.\.|-?\d+\.\d+e[+-]?\d+|-?\d+|[A-Za-z_][\w.]*|<\{|\}>|[\[\](){}<>,=*|:])')
    def __init__(s, txt): s.t = txt; s.toks = s.TOK.findall(txt); s.i = 0
    def peek(s, d=0): return s.toks[s.i + d] if s.i + d < len(s.toks) else None
    def next(s): r = s.toks[s.i]; s.i += 1; return r
    def eat(s, x):
        if s.peek() == x: s.i += 1; return True
        return False
    def need(s, x):
        if not s.eat(x): raise ValueError("expected %s at %s in %s" % (x, s.toks[s.i:s.i+5], s.t))

ATTR = {"noundef", "zeroext", "signext", "nonnull", "nocapture", "readonly", "writeonly", "immarg", "noalias", "returned", "inreg", "nofree", "nsw", "nuw", "exact",
        "inbounds", "tail", "notail", "musttail", "dso_local", "local_unnamed_addr", "unnamed_addr", "internal", "private", "constant", "global", "external", "common", "hidden",
        "volatile", "fastcc", "ccc", "disjoint", "nneg", "samesign", "readnone", "dead_on_unwind", "weak", "linkonce_odr", "available_externally", "nuw,nsw", "allocptr"}
def attrs(p):
    a = {}
    while True:
        x = p.peek()
        if x in ATTR: p.next()
        elif x == "align": p.next(); p.eat("("); p.next(); p.eat(")")
        elif x in ("byval", "sret", "elementtype", "byref", "preallocated", "inalloca"):
            p.next(); p.need("("); a[x] = ptype(p); p.need(")")
        elif x in ("dereferenceable", "dereferenceable_or_null", "memory", "captures", "range"):
            p.next(); p.need("("); d = 1
            while d:
                y = p.next()
                if y == "(": d += 1
                if y == ")": d -= 1
        elif x and x.startswith("#"): p.next()
        else: return a
def ptype(p):
    x = p.next()
    if x == "ptr": return Ty("ptr")
    if x == "void": return Ty("void")
    if x == "metadata": return Ty("meta")
    if x == "label": return Ty("label")
    if re.fullmatch(r"i\d+", x): return Ty("int", w=int(x[1:]))
    if x in ("float", "double", "x86_fp80"): return Ty("float")
    if x == "[":
        n = int(p.next()); p.need("x"); t = ptype(p); p.need("]"); return Ty("arr", n=n, e=t)
    if x == "<{" or x == "{":
        fs = []
        end = "}>" if x == "<{" else "}"
        while not p.eat(end):
            fs.append(ptype(p)); p.eat(",")
        return Ty("struct", f=fs, packed=(x == "<{"))
    if x == "<":
        n = int(p.next()); p.need("x"); t = ptype(p); p.need(">"); return Ty("vec", n=n, e=t)
    if x[0] == "%": return Ty("named", n=x[1:].strip('"'))
    if x == "opaque": return Ty("opaque")
    raise ValueError("type %s in %s" % (x, p.t))

def resolve(m, t):
    while t.k == "named": t = m.types[t.n]
    return t
def align(m, t):
    t = resolve(m, t)
    if t.k == "int": return max(1, min(16, (t.w + 7) // 8)) if t.w != 128 else 16
    if t.k == "ptr": return 8
    if t.k in ("arr", "vec"): return align(m, t.e)
    if t.k == "struct": return 1 if t.packed else max([align(m, x) for x in t.f] + [1])
    if t.k == "float": return 8
    raise ValueError(t.k)
def sizeof(m, t):
    t = resolve(m, t)
    if t.k == "int":
        b = (t.w + 7) // 8
        r = 1
        while r < b: r *= 2
        return r
    if t.k == "ptr": return 8
    if t.k in ("arr", "vec"): return t.n * sizeof(m, t.e)
    if t.k == "struct":
        o = 0
        for x in t.f:
            if not t.packed: a = align(m, x); o = (o + a - 1) // a * a
            o += sizeof(m, x)
        a = align(m, t)
        return (o + a - 1) // a * a
    if t.k == "float": return 8
    if t.k == "opaque": return 0
    raise ValueError(t.k)
def fieldoff(m, t, i):
    t = resolve(m, t); o = 0
    for j, x in enumerate(t.f):
        if not t.packed: a = align(m, x); o = (o + a - 1) // a * a
        if j == i: return o, x
        o += sizeof(m, x)
    raise ValueError("field")

# operand values: ("reg",name) ("int",v) ("null",) ("undef",) ("glob",name) ("gep",...) ("zero",)
def pval(p, ty):
    x = p.next()
    if x[0] == "%": return ("reg", x[1:].strip('"'))
    if x[0] == "@": return ("glob", x[1:].strip('"'))
    if x in ("true", "false"): return ("int", 1 if x == "true" else 0)
    if x == "null": return ("null",)
    if x in ("undef", "poison"): return ("undef",)
    if x == "zeroinitializer": return ("zero",)
    if re.fullmatch(r"-?\d+", x): return ("int", int(x))
    if x.startswith('c"'):
        return ("bytes", cstr(x[2:-1]))
    if x == "getelementptr":
        attrs(p); p.need("("); t = ptype(p); p.need(","); bt = ptype(p); b = pval(p, bt); idx = []
        while p.eat(","):
            attrs(p); it = ptype(p); idx.append(pval(p, it))
        p.need(")")
        return ("cgep", t, b, idx)
    if x in ("inttoptr", "ptrtoint", "bitcast"):
        p.need("("); t = ptype(p); v = pval(p, t); p.need("to"); ptype(p); p.need(")")
        return ("cast", x, v)
    if x in ("[", "{", "<{"):
        es = []
        while p.peek() not in ("]", "}", "}>"):
            t = ptype(p); es.append((t, pval(p, t))); p.eat(",")
        p.next()
        return ("agg", es)
    raise ValueError("value %s in %s" % (x, p.t))
def cstr(s):
    out = bytearray(); i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i+1] == "\\": out.append(92); i += 2
            else: out.append(int(s[i+1:i+3], 16)); i += 3
        else: out.append(ord(s[i])); i += 1
    return bytes(out)
def constbytes(m, t, v):
    """constant initialiser -> bytes, or None when it contains pointers"""
    t = resolve(m, t)
    if v[0] == "zero": return bytes(sizeof(m, t))
    if v[0] == "undef": return bytes(sizeof(m, t))
    if v[0] == "bytes": return v[1]
    if v[0] == "int": return (v[1] & ((1 << (8 * sizeof(m, t))) - 1)).to_bytes(sizeof(m, t), "little")
    if v[0] == "null": return bytes(8)
    if v[0] == "agg":
        if t.k == "arr":
            b = b""
            for et, ev in v[1]:
                x = constbytes(m, et, ev)
                if x is None: return None
                b += x
            return b
        b = bytearray(sizeof(m, t))
        for i, (et, ev) in enumerate(v[1]):
            o, _ = fieldoff(m, t, i); x = constbytes(m, et, ev)
            if x is None: return None
            b[o:o + len(x)] = x
        return bytes(b)
    return None

class Ins:
    __slots__ = ("op", "res", "ty", "a", "line", "dbg", "txt")
class Fn: pass
class Blk: pass

def parse(text):
    m = Mod()
    lines = text.split("\n")
    i = 0
    loc = {}
    for l in lines:
        if l.startswith("!"):
            mm = re.match(r"!(\d+) = (?:distinct )?!DI(Location|Subprogram|LexicalBlock)\w*\((.*)\)", l)
            if mm:
                d = dict(re.findall(r"(\w+): ([^,]+)", mm.group(3)))
                m.dbg[mm.group(1)] = (mm.group(2), d)
    while i < len(lines):
        l = lines[i]
        if l.startswith("%") and " = type " in l:
            n, r = l.split(" = type ", 1)
            m.types[n[1:].strip('"')] = ptype(P(r))
        elif l.startswith("@"):
            n, r = l.split(" = ", 1)
            p = P(r)
            ext = "external" in r.split()[:3]
            isconst = " constant " in " " + r
            attrs(p)
            while p.peek() in ("thread_local",): p.next()
            try:
                t = ptype(p)
                v = None if ext else pval(p, t)
                m.globals[n[1:].strip('"')] = (t, v, isconst)
            except Exception:
                m.globals[n[1:].strip('"')] = (Ty("opaque"), None, isconst)
        elif l.startswith("declare"):
            mm = re.search(r"@([-\w.$]+)\(", l)
            if mm: m.decls.add(mm.group(1))
        elif l.startswith("define"):
            f = Fn()
            p = P(l[6:])
            f.internal = " internal " in l
            attrs(p)
            f.ret = ptype(p)
            f.name = p.next()[1:].strip('"')
            p.need("(")
            f.params = []
            while not p.eat(")"):
                if p.eat("..."): f.vararg = True; p.eat(","); continue
                t = ptype(p); a = attrs(p)
                nm = p.next()[1:] if p.peek() and p.peek()[0] == "%" else str(len(f.params))
                f.params.append((nm, t, a)); p.eat(",")
            mm = re.search(r"!dbg !(\d+)", l)
            f.sp = mm.group(1) if mm else None
            f.blocks = {}; f.order = []
            cur = Blk(); cur.ins = []; cur.name = str(len(f.params)); f.entry = None
            first = True
            i += 1
            while lines[i] != "}":
                x = lines[i]
                if x.strip() == "" or x.lstrip().startswith(";"): i += 1; continue
                mm = re.match(r'^("?[-\w.$]+"?):', x)
                if mm:
                    cur = Blk(); cur.name = mm.group(1).strip('"'); cur.ins = []
                    f.blocks[cur.name] = cur; f.order.append(cur.name)
                    if first: f.entry = cur.name; first = False
                else:
                    if first:
                        f.blocks[cur.name] = cur; f.order.append(cur.name); f.entry = cur.name; first = False
                    while x.count("[") > x.count("]") and x.strip().startswith("switch"):
                        i += 1; x += " " + lines[i]
                    ins = pinst(m, x)
                    if ins is not None: cur.ins.append(ins)
                i += 1
            m.funcs[f.name] = f
            analyse(f)
        i += 1
    return m

BIN = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr"}
def pinst(m, x):
    dm = re.search(r", !dbg !(\d+)", x)
    dbg = dm.group(1) if dm else None
    core = re.sub(r",? ?![a-zA-Z.]+ ![\w]+", "", x)
    ins = Ins(); ins.res = None; ins.dbg = dbg; ins.txt = x.strip(); ins.line = 0
    if dbg and dbg in m.dbg: ins.line = int(m.dbg[dbg][1].get("line", "0"))
    p = P(core)
    if p.peek(1) == "=":
        ins.res = p.next()[1:].strip('"'); p.next()
    op = p.next()
    while op in ("tail", "notail", "musttail"): op = p.next()
    ins.op = op
    if op in BIN:
        attrs(p); t = ptype(p); a = pval(p, t); p.need(","); b = pval(p, t); ins.ty = t; ins.a = (a, b)
    elif op == "icmp":
        attrs(p); c = p.next(); t = ptype(p); a = pval(p, t); p.need(","); b = pval(p, t); ins.ty = t; ins.a = (c, a, b)
    elif op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast"):
        attrs(p); t = ptype(p); a = pval(p, t); p.need("to"); t2 = ptype(p); ins.ty = t2; ins.a = (t, a)
    elif op == "freeze":
        t = ptype(p); ins.ty = t; ins.a = (t, pval(p, t))
    elif op == "select":
        ct = ptype(p); c = pval(p, ct); p.need(","); t = ptype(p); a = pval(p, t); p.need(","); ptype(p); b = pval(p, t); ins.ty = t; ins.a = (c, a, b)
    elif op == "alloca":
        attrs(p); t = ptype(p); n = None
        if p.eat(",") and p.peek() != "align":
            nt = ptype(p); n = (nt, pval(p, nt))
        ins.ty = t; ins.a = (n,)
    elif op == "load":
        attrs(p); t = ptype(p); p.need(","); pt = ptype(p); ins.ty = t; ins.a = (pval(p, pt),)
    elif op == "store":
        attrs(p); t = ptype(p); v = pval(p, t); p.need(","); pt = ptype(p); ins.ty = t; ins.a = (v, pval(p, pt))
    elif op == "getelementptr":
        attrs(p); t = ptype(p); p.need(","); bt = ptype(p); b = pval(p, bt); idx = []
        while p.eat(","):
            attrs(p); it = ptype(p); idx.append((it, pval(p, it)))
        ins.ty = t; ins.a = (b, idx)
    elif op == "phi":
        t = ptype(p); inc = []
        while True:
            p.need("["); v = pval(p, t); p.need(","); l = p.next()[1:].strip('"'); p.need("]"); inc.append((v, l))
            if not p.eat(","): break
        ins.ty = t; ins.a = inc
    elif op == "br":
        if p.eat("label"): ins.a = (None, p.next()[1:].strip('"'))
        else:
            ptype(p); c = pval(p, None); p.need(","); p.need("label"); a = p.next()[1:].strip('"'); p.need(","); p.need("label"); b = p.next()[1:].strip('"')
            ins.a = (c, a, b)
        ins.ty = None
    elif op == "switch":
        t = ptype(p); c = pval(p, t); p.need(","); p.need("label"); d = p.next()[1:].strip('"'); p.need("["); cs = []
        while not p.eat("]"):
            ptype(p); v = pval(p, t); p.need(","); p.need("label"); cs.append((v, p.next()[1:].strip('"')))
        ins.ty = t; ins.a = (c, d, cs)
    elif op == "ret":
        t = ptype(p); ins.ty = t; ins.a = None if t.k == "void" else pval(p, t)
    elif op == "unreachable": ins.a = None; ins.ty = None
    elif op == "call":
        attrs(p); rt = ptype(p); attrs(p)
        if p.peek() == "(":          # function type of a vararg callee
            d = 0
            while True:
                y = p.next()
                if y == "(": d += 1
                if y == ")":
                    d -= 1
                    if d == 0: break
        if p.peek()[0] == "%": callee = ("reg", p.next()[1:])
        elif p.peek()[0] == "@": callee = ("glob", p.next()[1:].strip('"'))
        else: raise ValueError("callee: " + x)
        if callee[1].startswith("llvm.dbg") : return None
        p.need("("); args = []
        while not p.eat(")"):
            t = ptype(p); a = attrs(p); args.append((t, pval(p, t), a)); p.eat(",")
        ins.ty = rt; ins.a = (callee, args)
    elif op in ("extractvalue", "insertvalue", "fadd", "fmul", "va_arg", "asm", "invoke", "cmpxchg", "atomicrmw", "fence", "sitofp", "uitofp", "fptosi", "fptoui"):
        ins.ty = None; ins.a = None
    else: raise ValueError("instruction: " + x)
    return ins

def succs(b):
    t = b.ins[-1]
    if t.op == "br": return [t.a[1]] if t.a[0] is None else [t.a[1], t.a[2]]
    if t.op == "switch": return [t.a[1]] + [l for _, l in t.a[2]]
    return []

class Loop: pass
def analyse(f):
    f.succ = {n: list(dict.fromkeys(succs(b))) for n, b in f.blocks.items()}
    f.pred = {n: [] for n in f.blocks}
    for n, ss in f.succ.items():
        for s in ss: f.pred[s].append(n)
    # reverse post order
    seen, rpo = set(), []
    st = [(f.entry, iter(f.succ[f.entry]))]; seen.add(f.entry)
    while st:
        n, it = st[-1]
        for s in it:
            if s not in seen: seen.add(s); st.append((s, iter(f.succ[s]))); break
        else: rpo.append(n); st.pop()
    rpo.reverse(); f.rpo = rpo
    ix = {n: i for i, n in enumerate(rpo)}
    idom = {f.entry: f.entry}
    ch = True
    while ch:
        ch = False
        for n in rpo[1:]:
            new = None
            for p in f.pred[n]:
                if p not in idom: continue
                if new is None: new = p
                else:
                    a, b = p, new
                    while a != b:
                        while ix[a] > ix[b]: a = idom[a]
                        while ix[b] > ix[a]: b = idom[b]
                    new = a
            if idom.get(n) != new: idom[n] = new; ch = True
    f.idom = idom; f.ix = ix
    def dom(a, b):
        while True:
            if a == b: return True
            if b == f.entry: return False
            b = idom[b]
    loops = {}
    for n in rpo:
        for s in f.succ[n]:
            if s in ix and ix[s] <= ix[n]:
                if not dom(s, n): raise ValueError("irreducible control flow in " + f.name)
                L = loops.get(s)
                if L is None: L = Loop(); L.head = s; L.body = {s}; L.latches = []; loops[s] = L
                L.latches.append(n)
                st = [n]
                while st:
                    x = st.pop()
                    if x in L.body: continue
                    L.body.add(x); st += [p for p in f.pred[x] if p in ix]
    f.loops = loops
    ls = sorted(loops.values(), key=lambda L: len(L.body))
    for L in ls:
        L.parent = None
        for M in ls:
            if M is not L and L.head in M.body and len(M.body) > len(L.body): L.parent = M; break
        L.exits = [(n, s) for n in rpo if n in L.body for s in f.succ[n] if s not in L.body]
        L.ord = ix[L.head]
    f.looplist = sorted(ls, key=lambda L: L.ord)
