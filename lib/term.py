"""Hash-consed terms: bit-vectors, booleans, uninterpreted functions and the algebra of
scalars and group elements, with a light simplifier and a translation to z3."""
import z3

class T:
    __slots__ = ("op", "args", "w", "id", "_fv", "_z")
    def __repr__(s): return show(s)
    def __bool__(s): raise TypeError("term used as bool: " + show(s))

_tab = {}
_n = [0]
def mk(op, args, w):
    assert op not in ("add","sub","mul") or args[0].w==args[1].w==w, (op,[show(x) for x in args],w)
    k = (op, args, w)
    t = _tab.get(k)
    if t is None:
        t = T(); t.op = op; t.args = args; t.w = w; t._fv = None; t._z = None
        _n[0] += 1; t.id = _n[0]
        _tab[k] = t
    return t

def show(t, d=6):
    if not isinstance(t, T): return str(t)
    if t.op == "c": return (("%d" if t.args[0] < 1000 else "0x%x") % t.args[0]) if t.w else str(bool(t.args[0]))
    if t.op == "v": return t.args[0]
    if d == 0: return ".."
    if t.op == "ext": return "%s[%d:%d]" % (show(t.args[0], d - 1), t.args[2], t.args[1])
    return "%s(%s)" % (t.op, ",".join(show(a, d - 1) for a in t.args))

def const(v, w): return mk("c", (v & ((1 << w) - 1),), w)
TRUE = mk("c", (1,), 0); FALSE = mk("c", (0,), 0)
def boolc(b): return TRUE if b else FALSE
def var(n, w): return mk("v", (n,), w)
_fresh = [0]
def reset_fresh(): _fresh[0] = 0
def fresh(n, w):
    _fresh[0] += 1
    return var("%s!%d" % (n, _fresh[0]), w)
def isc(t): return t.op == "c"
def cv(t): return t.args[0]
def sv(t):
    v = t.args[0]
    return v - (1 << t.w) if v >> (t.w - 1) else v
def mask(w): return (1 << w) - 1

def uf(name, w, *args): return mk("uf", (name,) + args, w)

# ---------- booleans
def neg(a):
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == "not": return a.args[0]
    if a.op == "and": return mkor(*[neg(x) for x in a.args])
    if a.op == "or": return mkand(*[neg(x) for x in a.args])
    return mk("not", (a,), 0)
def conj(a):
    """set of conjuncts"""
    if a is TRUE: return frozenset()
    if a.op == "and": return frozenset(a.args)
    return frozenset((a,))
def mkand(*xs):
    s = set()
    for x in xs:
        if x is FALSE: return FALSE
        s |= conj(x)
    for x in s:
        if x.op == "not" and x.args[0] in s: return FALSE
        if x.op == "or" :
            # unit simplification
            pass
    # drop or-clauses already satisfied / reduce with units
    ch = True
    while ch:
        ch = False
        for x in list(s):
            if x.op == "or":
                ys = []
                sat = False
                for y in x.args:
                    cs = conj(y)
                    if cs <= (s - {x}): sat = True; break
                    if any((neg(c) in s) for c in cs): continue
                    ys.append(y)
                if sat: s.discard(x); ch = True; continue
                if len(ys) != len(x.args):
                    s.discard(x); r = mkor(*ys)
                    if r is FALSE: return FALSE
                    s |= conj(r); ch = True
            elif x.op == "not" and x.args[0] in s: return FALSE
    if not s: return TRUE
    if len(s) == 1: return next(iter(s))
    return mk("and", tuple(sorted(s, key=lambda t: t.id)), 0)
def mkor(*xs):
    s = []
    for x in xs:
        if x is TRUE: return TRUE
        if x is FALSE: continue
        for y in (x.args if x.op == "or" else (x,)):
            if y not in s: s.append(y)
    if not s: return FALSE
    # factor common conjuncts and merge complementary pairs
    ch = True
    while ch and len(s) > 1:
        ch = False
        for i in range(len(s)):
            for j in range(i + 1, len(s)):
                a, b = conj(s[i]), conj(s[j])
                if a <= b: s.pop(j); ch = True; break
                if b <= a: s.pop(i); ch = True; break
                ra, rb = a - b, b - a
                if len(ra) == 1 and len(rb) == 1 and neg(next(iter(ra))) is next(iter(rb)):
                    r = mkand(*(a & b)); s.pop(j); s.pop(i); s.insert(i, r); ch = True
                    if r is TRUE: return TRUE
                    break
                if len(ra) == 1 and neg(next(iter(ra))) in rb:
                    s[j] = mkand(*(b - {neg(next(iter(ra)))})); ch = True; break
                if len(rb) == 1 and neg(next(iter(rb))) in ra:
                    s[i] = mkand(*(a - {neg(next(iter(rb)))})); ch = True; break
            if ch: break
    if any(x.op == "or" for x in s) and len(s) > 1:
        return mkor(*[y for x in s for y in (x.args if x.op == "or" else (x,))])
    if len(s) == 1: return s[0]
    common = frozenset.intersection(*[conj(x) for x in s])
    if common:
        rest = mkor(*[mkand(*(conj(x) - common)) for x in s])
        return mkand(rest, *common)
    return mk("or", tuple(sorted(set(s), key=lambda t: t.id)), 0)
def imp(a, b): return mkor(neg(a), b)

def eq(a, b):
    if a is b: return TRUE
    if a.w == 0:
        if a is TRUE: return b
        if b is TRUE: return a
        if a is FALSE: return neg(b)
        if b is FALSE: return neg(a)
        return mkor(mkand(a, b), mkand(neg(a), neg(b)))
    if isc(a): a, b = b, a
    if isc(a) and isc(b): return boolc(cv(a) == cv(b))
    if isc(b):
        if a.op == "ite":
            x, y = eq(a.args[1], b), eq(a.args[2], b)
            if isc(x) or isc(y): return mkor(mkand(a.args[0], x), mkand(neg(a.args[0]), y))
        if a.op == "zext":
            iw = a.args[0].w
            if cv(b) >> iw: return FALSE
            return eq(a.args[0], const(cv(b), iw))
        if a.op == "sext":
            iw = a.args[0].w; v = cv(b) & mask(iw)
            s = v | ((mask(a.w) ^ mask(iw)) if v >> (iw - 1) else 0)
            if s != cv(b): return FALSE
            return eq(a.args[0], const(v, iw))
        if a.op == "bvor" and any(isc(q) and cv(q) & ~cv(b) & mask(a.w) for q in a.args): return FALSE
        if a.op == "add" and isc(a.args[1]): return eq(a.args[0], const(cv(b) - cv(a.args[1]), a.w))
        if a.op == "ext" and a.args[1] == 0 and urange(a.args[0])[1] <= mask(a.w): return eq(a.args[0], const(cv(b), a.args[0].w))
        if a.op == "b2i":
            if cv(b) == 0: return neg(a.args[0])
            if cv(b) == 1: return a.args[0]
            return FALSE
    if a.op == "zext" and b.op == "zext" and a.args[0].w == b.args[0].w: return eq(a.args[0], b.args[0])
    for x, y in ((a, b), (b, a)):
        if x.op == "zext" and y.op in ("add", "ext") and urange(y)[1] <= mask(x.args[0].w): return eq(x.args[0], trunc(y, x.args[0].w))
    if a.op == "add" and b.op == "add" and isc(a.args[1]) and a.args[1] is b.args[1]: return eq(a.args[0], b.args[0])
    # constants on the side where they are small
    x, cx = (a.args[0], cv(a.args[1])) if a.op == "add" and isc(a.args[1]) else (a, 0)
    y, cy = (b.args[0], cv(b.args[1])) if b.op == "add" and isc(b.args[1]) else (b, 0)
    if (cx or cy) and not isc(b):
        d = (cx - cy) & mask(a.w)
        if d > mask(a.w) >> 1: x, y, d = y, x, -d & mask(a.w)
        a, b = add(x, const(d, x.w)), y
    if a.op == "ite" and b.op == "ite" and a.args[0] is b.args[0]:
        c = a.args[0]
        return mkor(mkand(c, eq(a.args[1], b.args[1])), mkand(neg(c), eq(a.args[2], b.args[2])))
    if a.id > b.id: a, b = b, a
    if isc(a): a, b = b, a
    return mk("eq", (a, b), 0)
def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a.w == 0: return mkor(mkand(c, a), mkand(neg(c), b))
    if c.op == "not": return ite(c.args[0], b, a)
    if a.op == "ite" and a.args[0] is c: a = a.args[1]
    if b.op == "ite" and b.args[0] is c: b = b.args[2]
    if a is b: return a
    if b.op == "ite" and b.args[1] is a: return ite(mkor(c, b.args[0]), a, b.args[2])
    if b.op == "ite" and b.args[2] is a: return ite(mkand(neg(c), b.args[0]), b.args[1], a)
    if a.w == 1 and isc(a) and isc(b): return b2i(c, 1) if cv(a) else b2i(neg(c), 1)
    if isc(a) and c.op == "eq" and isc(c.args[1]) and cv(c.args[1]) == cv(a) and (c.args[0] is b or (b.op == "zext" and b.args[0] is c.args[0])): return b
    return mk("ite", (c, a, b), a.w)
def b2i(c, w):
    if isc(c): return const(cv(c), w)
    return mk("b2i", (c,), w)

def _rng(t):
    return ranges(t)
def ult(a, b):
    if isc(a) and isc(b): return boolc(cv(a) < cv(b))
    if a is b: return FALSE
    if isc(b) and cv(b) == 0: return FALSE
    la, ha = urange(a); lb, hb = urange(b)
    if ha < lb: return TRUE
    if la >= hb: return FALSE
    if isc(b) and cv(b) == 1: return eq(a, const(0, a.w))
    if a.op == "zext" and b.op == "zext" and a.args[0].w == b.args[0].w: return ult(a.args[0], b.args[0])
    if a.op == "zext" and isc(b) and cv(b) <= mask(a.args[0].w): return ult(a.args[0], const(cv(b), a.args[0].w))
    if b.op == "zext" and isc(a) and cv(a) <= mask(b.args[0].w): return ult(const(cv(a), b.args[0].w), b.args[0])
    if isc(a) and cv(a) == 0: return neg(eq(b, const(0, b.w)))
    if isc(a) and b.op == "add" and isc(b.args[1]) and cv(b.args[1]) <= cv(a) and urange(b.args[0])[1] + cv(b.args[1]) <= mask(b.w): return ult(const(cv(a) - cv(b.args[1]), a.w), b.args[0])
    if (a.op == "zext" or b.op == "zext"):
        # narrow to the smallest common width
        def iw(x): return x.args[0].w if x.op == "zext" else (cv(x).bit_length() if isc(x) else x.w)
        m = max(iw(a), iw(b), 1)
        if m < a.w: return ult(trunc(a, m), trunc(b, m))
    return mk("ult", (a, b), 0)
def ule(a, b): return neg(ult(b, a))
def slt(a, b):
    if isc(a) and isc(b): return boolc(sv(a) < sv(b))
    if a is b: return FALSE
    h = 1 << (a.w - 1)
    if urange(a)[1] < h and urange(b)[1] < h: return ult(a, b)
    if isc(b) and cv(b) == 0 and a.op == "zext": return FALSE
    la, ha = srange(a); lb, hb = srange(b)
    if ha < lb: return TRUE
    if la >= hb: return FALSE
    if a.op in ("ite",) and (isc(b)):
        x, y = slt(a.args[1], b), slt(a.args[2], b)
        if isc(x) or isc(y): return mkor(mkand(a.args[0], x), mkand(neg(a.args[0]), y))
    return mk("slt", (a, b), 0)
def sle(a, b): return neg(slt(b, a))

# ---------- ranges (unsigned); variables may carry registered bounds
VR = {}
VRN = {}            # ranges of uninterpreted functions by name
_ur = {}
def urange(t):
    r = _ur.get(t)
    if r is not None: return r
    r = _urange(t)
    if t.op in ("c", "zext", "ite", "ext") or t in VR: _ur[t] = r
    return r
def _urange(t):
    m = mask(t.w)
    if t.op == "c": return (cv(t), cv(t))
    if t in VR: return VR[t]
    if t.op == "zext": return urange(t.args[0])
    if t.op == "b2i": return (0, 1)
    if t.op == "uf" and t.args[0] in VRN: return VRN[t.args[0]]
    if t.op == "ite":
        a, b = urange(t.args[1]), urange(t.args[2])
        return (min(a[0], b[0]), max(a[1], b[1]))
    if t.op == "add":
        a, b = urange(t.args[0]), urange(t.args[1])
        if a[1] + b[1] <= m: return (a[0] + b[0], a[1] + b[1])
        if isc(t.args[1]):
            c = cv(t.args[1]) - (m + 1)
            if a[0] + c >= 0: return (a[0] + c, a[1] + c)
        return (0, m)
    if t.op == "sub":
        a, b = urange(t.args[0]), urange(t.args[1])
        if a[0] - b[1] >= 0: return (a[0] - b[1], a[1] - b[0])
        return (0, m)
    if t.op == "mul":
        a, b = urange(t.args[0]), urange(t.args[1])
        if a[1] * b[1] <= m: return (a[0] * b[0], a[1] * b[1])
        return (0, m)
    if t.op == "and": return (0, m)
    if t.op == "bvand":
        a, b = urange(t.args[0]), urange(t.args[1])
        return (0, min(a[1], b[1]))
    if t.op == "lshr" and isc(t.args[1]): return (urange(t.args[0])[0] >> cv(t.args[1]), urange(t.args[0])[1] >> cv(t.args[1]))
    if t.op == "shl" and isc(t.args[1]):
        a = urange(t.args[0])
        if a[1] << cv(t.args[1]) <= m: return (a[0] << cv(t.args[1]), a[1] << cv(t.args[1]))
    if t.op == "udiv" and isc(t.args[1]) and cv(t.args[1]):
        a = urange(t.args[0]); return (a[0] // cv(t.args[1]), a[1] // cv(t.args[1]))
    if t.op == "ext" and t.args[1] == 0:
        a = urange(t.args[0])
        if a[1] <= m: return a
    if t.op == "count": return (0, min(m, urange(t.args[1])[1], cmax(t.args[0], t.args[2])))
    if t.op == "isum":
        k = urange(t.args[1])[1]; b = urange(t.args[2])
        if k * b[1] <= m: return (0, k * b[1])
    return (0, m)
def srange(t):
    lo, hi = urange(t); h = 1 << (t.w - 1)
    if hi < h: return (lo, hi)
    if t.op == "sext":
        return srange(t.args[0])
    if t.op == "add" and isc(t.args[1]):
        a = srange(t.args[0]); c = sv(t.args[1])
        if -h <= a[0] + c and a[1] + c < h: return (a[0] + c, a[1] + c)
    if t.op == "sub":
        a, b = srange(t.args[0]), srange(t.args[1])
        if -h <= a[0] - b[1] and a[1] - b[0] < h: return (a[0] - b[1], a[1] - b[0])
    if t.op == "c": return (sv(t), sv(t))
    if t.op == "ite":
        a, b = srange(t.args[1]), srange(t.args[2]); return (min(a[0], b[0]), max(a[1], b[1]))
    return (-h, h - 1)

# ---------- bit-vectors
def add(a, b):
    if isc(a): a, b = b, a
    if isc(a) and isc(b): return const(cv(a) + cv(b), a.w)
    if isc(b):
        if cv(b) == 0: return a
        if a.op == "add" and isc(a.args[1]): return add(a.args[0], const(cv(a.args[1]) + cv(b), a.w))
        if a.op == "ite" and isc(a.args[1]) and isc(a.args[2]): return ite(a.args[0], add(a.args[1], b), add(a.args[2], b))
        if a.op == "sub" and isc(a.args[0]): return sub(const(cv(a.args[0]) + cv(b), a.w), a.args[1])
    else:
        if b.op == "add" and isc(b.args[1]): return add(add(a, b.args[0]), b.args[1])
        if a.op == "add" and isc(a.args[1]): return add(add(a.args[0], b), a.args[1])
        if b.op == "sub" and b.args[1] is a: return b.args[0]
        if a.op == "sub" and a.args[1] is b: return a.args[0]
        if a.id > b.id: a, b = b, a
    return mk("add", (a, b), a.w)
def sub(a, b):
    if isc(b): return add(a, const(-cv(b), a.w))
    if a is b: return const(0, a.w)
    if a.op == "add":
        if a.args[0] is b: return a.args[1]
        if a.args[1] is b: return a.args[0]
        if isc(a.args[1]): return add(sub(a.args[0], b), a.args[1])
    if b.op == "add" and isc(b.args[1]): return add(sub(a, b.args[0]), const(-cv(b.args[1]), a.w))
    return mk("sub", (a, b), a.w)
def mul(a, b):
    if isc(a): a, b = b, a
    if isc(b):
        if isc(a): return const(cv(a) * cv(b), a.w)
        if cv(b) == 0: return b
        if cv(b) == 1: return a
        if a.op == "mul" and isc(a.args[1]): return mul(a.args[0], const(cv(a.args[1]) * cv(b), a.w))
        if a.op == "add" and isc(a.args[1]): return add(mul(a.args[0], b), const(cv(a.args[1]) * cv(b), a.w))
    else:
        if a.op == "mul" and isc(a.args[1]): return mul(mul(a.args[0], b), a.args[1])
        if b.op == "mul" and isc(b.args[1]): return mul(mul(a, b.args[0]), b.args[1])
        if a.id > b.id: a, b = b, a
    return mk("mul", (a, b), a.w)
def udiv(a, b):
    if isc(a) and isc(b) and cv(b): return const(cv(a) // cv(b), a.w)
    if isc(b) and cv(b) == 1: return a
    return mk("udiv", (a, b), a.w)
def urem(a, b):
    if isc(a) and isc(b) and cv(b): return const(cv(a) % cv(b), a.w)
    return mk("urem", (a, b), a.w)
def sdiv(a, b):
    if srange(a)[0] >= 0 and srange(b)[0] >= 0: return udiv(a, b)
    return mk("sdiv", (a, b), a.w)
def srem(a, b):
    if srange(a)[0] >= 0 and srange(b)[0] >= 0: return urem(a, b)
    return mk("srem", (a, b), a.w)
def bvand(a, b):
    if isc(a): a, b = b, a
    if isc(a) and isc(b): return const(cv(a) & cv(b), a.w)
    if a is b: return a
    if isc(b):
        v = cv(b)
        if v == 0: return b
        if v == mask(a.w): return a
        if v & (v + 1) == 0: return zext(trunc(a, v.bit_length()), a.w)
    return mk("bvand", (a, b) if a.id < b.id or isc(b) else (b, a), a.w)
def bvor(a, b):
    if isc(a): a, b = b, a
    if isc(a) and isc(b): return const(cv(a) | cv(b), a.w)
    if a is b: return a
    if isc(b) and cv(b) == 0: return a
    if isc(b) and cv(b) == mask(a.w): return b
    # disjoint pieces become a concatenation
    r = _orcat(a, b)
    if r is not None: return r
    return mk("bvor", (a, b) if a.id < b.id or isc(b) else (b, a), a.w)
def _orcat(a, b):
    for x, y in ((a, b), (b, a)):
        if x.op == "shl" and isc(x.args[1]):
            s = cv(x.args[1])
            if urange(y)[1] < (1 << s) and s < a.w:
                return concat(trunc(x.args[0], a.w - s), trunc(y, s))
    return None
def bvxor(a, b):
    if isc(a): a, b = b, a
    if isc(a) and isc(b): return const(cv(a) ^ cv(b), a.w)
    if a is b: return const(0, a.w)
    if isc(b) and cv(b) == 0: return a
    return mk("bvxor", (a, b) if a.id < b.id or isc(b) else (b, a), a.w)
def shl(a, b):
    if isc(b):
        s = cv(b)
        if s == 0: return a
        if s >= a.w: return const(0, a.w)
        if isc(a): return const(cv(a) << s, a.w)
    return mk("shl", (a, b), a.w)
def lshr(a, b):
    if isc(b):
        s = cv(b)
        if s == 0: return a
        if s >= a.w: return const(0, a.w)
        if a.op == "mul" and isc(a.args[1]) and cv(a.args[1]) == 1 << s and urange(a.args[0])[1] << s <= mask(a.w): return a.args[0]
        return zext(extract(a, s, a.w - s), a.w)
    return mk("lshr", (a, b), a.w)
def ashr(a, b):
    if isc(b):
        s = cv(b)
        if s == 0: return a
        if srange(a)[0] >= 0: return lshr(a, b)
        return sext(extract(a, s, a.w - s), a.w)
    return mk("ashr", (a, b), a.w)
def zext(a, w):
    if w == a.w: return a
    if isc(a): return const(cv(a), w)
    if a.op == "zext": return zext(a.args[0], w)
    if a.op == "ext" and a.args[1] == 0 and urange(a.args[0])[1] <= mask(a.w):
        x = a.args[0]
        return trunc(x, w) if x.w >= w else zext(x, w)
    if a.op == "b2i": return b2i(a.args[0], w)
    if w <= 64 and a.op == "add" and isc(a.args[1]) and urange(a.args[0])[1] + cv(a.args[1]) <= mask(a.w): return add(zext(a.args[0], w), const(cv(a.args[1]), w))
    if a.op == "ite" and isc(a.args[1]) and isc(a.args[2]): return ite(a.args[0], zext(a.args[1], w), zext(a.args[2], w))
    return mk("zext", (a,), w)
def sext(a, w):
    if w == a.w: return a
    if isc(a): return const(sv(a), w)
    if srange(a)[0] >= 0: return zext(a, w)
    if a.op == "sext": return sext(a.args[0], w)
    if a.op == "ite" and isc(a.args[1]) and isc(a.args[2]): return ite(a.args[0], sext(a.args[1], w), sext(a.args[2], w))
    return mk("sext", (a,), w)
def trunc(a, w): return extract(a, 0, w)
def extract(a, lo, w):
    if lo == 0 and w == a.w: return a
    if isc(a): return const(cv(a) >> lo, w)
    if a.op == "ext": return extract(a.args[0], a.args[1] + lo, w)
    if a.op == "zext":
        x = a.args[0]
        if lo >= x.w: return const(0, w)
        if lo + w <= x.w: return extract(x, lo, w)
        return zext(extract(x, lo, x.w - lo), w)
    if a.op == "sext" and lo + w <= a.args[0].w: return extract(a.args[0], lo, w)
    if a.op == "cat":
        p = 0; out = []
        for x in a.args:                 # low first
            s, e = max(lo, p), min(lo + w, p + x.w)
            if s < e: out.append(extract(x, s - p, e - s))
            p += x.w
        return cat(out)
    if a.op == "init" :
        if lo % 8 == 0 and w % 8 == 0:
            return mk("init", (a.args[0], add(a.args[1], const(lo // 8, 64))), w)
    if a.op == "ite" and (isc(a.args[1]) or isc(a.args[2])):
        return ite(a.args[0], extract(a.args[1], lo, w), extract(a.args[2], lo, w))
    if a.op == "b2i" and lo == 0: return b2i(a.args[0], w)
    if lo == 0 and a.op in ("add", "mul", "sub"):
        x, y = trunc(a.args[0], w), trunc(a.args[1], w)
        return {"add": add, "mul": mul, "sub": sub}[a.op](x, y)
    if lo == 0 and a.op in ("bvand", "bvor", "bvxor"):
        x, y = trunc(a.args[0], w), trunc(a.args[1], w)
        return {"bvand": bvand, "bvor": bvor, "bvxor": bvxor}[a.op](x, y)
    if a.op == "shl" and isc(a.args[1]):
        s = cv(a.args[1])
        if lo >= s: return extract(a.args[0], lo - s, w)
        if lo + w <= s: return const(0, w)
    return mk("ext", (a, lo, w), w)
def concat(hi, lo): return cat([lo, hi])
def cat(xs):
    """low part first"""
    out = []
    for x in xs:
        for y in (x.args if x.op == "cat" else (x,)):
            if y.op == "zext":
                parts = [y.args[0], const(0, y.w - y.args[0].w)]
            else: parts = [y]
            for z in parts:
                if out:
                    p = out[-1]
                    if isc(p) and isc(z): out[-1] = const(cv(p) | (cv(z) << p.w), p.w + z.w); continue
                    if p.op == "ext" and z.op == "ext" and p.args[0] is z.args[0] and p.args[1] + p.w == z.args[1]:
                        out[-1] = extract(p.args[0], p.args[1], p.w + z.w); continue
                    if p.op == "bvxor" and z.op == "bvxor":
                        m = None
                        for u, v in ((z.args[0], z.args[1]), (z.args[1], z.args[0])):
                            c0, c1 = cat([p.args[0], u]), cat([p.args[1], v])
                            if c0.op != "cat" and c1.op != "cat": m = bvxor(c0, c1); break
                        if m is not None: out[-1] = m; continue
                    if p.op == "init" and z.op == "init" and p.args[0] == z.args[0] and add(p.args[1], const(p.w // 8, 64)) is z.args[1]:
                        out[-1] = mk("init", p.args, p.w + z.w); continue
                out.append(z)
    if len(out) == 1: return out[0]
    w = sum(x.w for x in out)
    if len(out) == 2 and isc(out[1]) and cv(out[1]) == 0: return zext(out[0], w)
    return mk("cat", tuple(out), w)
def init(obj, off, w): return mk("init", (obj, off), w)
CANON64 = [lambda t: t]

def bswap(x): return cat(list(reversed([extract(x, i, 8) for i in range(0, x.w, 8)])))

# ---------- free variables / substitution
_EMPTY = frozenset()
BIND = {"sum", "prod", "count", "isum"}        # (var, bound, body)
def fv(t):
    if t._fv is not None: return t._fv
    if t.op == "v": r = frozenset((t,))
    elif t.op in BIND: r = fv(t.args[1]) | (fv(t.args[2]) - {t.args[0]})
    elif t.op == "c": r = _EMPTY
    else:
        r = _EMPTY
        for a in t.args:
            if isinstance(a, T):
                f = fv(a)
                if f: r = r | f
    t._fv = r
    return r
REBUILD = {}
def subst(t, m, memo=None):
    """simultaneous substitution of variables (or arbitrary terms keyed by identity)"""
    if memo is None: memo = {}
    keys = frozenset(m)
    onlyvars = all(k.op == "v" for k in m)
    return _subst(t, m, memo, keys if onlyvars else None)
def _subst(t, m, memo, vs):
    if t in m: return m[t]
    if vs is not None and not (fv(t) & vs): return t
    r = memo.get(t)
    if r is not None: return r
    if t.op in BIND:
        v, K, b = t.args
        r = rebuild(t.op, (v, _subst(K, m, memo, vs), _subst(b, m, memo, vs)), t.w)
    else:
        args = tuple(_subst(a, m, memo, vs) if isinstance(a, T) else a for a in t.args)
        r = t if args == t.args else rebuild(t.op, args, t.w)
    memo[t] = r
    return r
def rebuild(op, a, w):
    f = REBUILD.get(op)
    if f is not None: return f(a, w)
    return mk(op, a, w)
REBUILD["init"] = lambda a, w: mk("init", (a[0], CANON64[0](a[1])), w)
REBUILD.update({
    "not": lambda a, w: neg(a[0]), "and": lambda a, w: mkand(*a), "or": lambda a, w: mkor(*a), "eq": lambda a, w: eq(*a), "ite": lambda a, w: ite(*a),
    "ult": lambda a, w: ult(*a), "slt": lambda a, w: slt(*a), "add": lambda a, w: add(*a), "sub": lambda a, w: sub(*a), "mul": lambda a, w: mul(*a),
    "udiv": lambda a, w: udiv(*a), "urem": lambda a, w: urem(*a), "bvand": lambda a, w: bvand(*a), "bvor": lambda a, w: bvor(*a), "bvxor": lambda a, w: bvxor(*a),
    "shl": lambda a, w: shl(*a), "lshr": lambda a, w: lshr(*a), "ashr": lambda a, w: ashr(*a), "zext": lambda a, w: zext(a[0], w), "sext": lambda a, w: sext(a[0], w),
    "ext": lambda a, w: extract(*a), "cat": lambda a, w: cat(list(a)), "b2i": lambda a, w: b2i(a[0], w),
    "sum": lambda a, w: binder("sum", a[0], a[1], a[2], w), "prod": lambda a, w: binder("prod", a[0], a[1], a[2], w),
    "count": lambda a, w: binder("count", a[0], a[1], a[2], w), "isum": lambda a, w: binder("isum", a[0], a[1], a[2], w)})

def bdepth(t, memo={}):
    r = memo.get(t)
    if r is not None: return r
    d = 0
    for a in t.args:
        if isinstance(a, T): d = max(d, bdepth(a))
    if t.op in BIND: d += 1
    memo[t] = d
    return d
INR = []
CMAX = {}       # name of a sequence -> how often a value can occur in it (stated by a contract)
def cmax(v, body):
    if body.op == "eq":
        for a in body.args:
            if a.op == "uf" and a.args[0] in CMAX and a.args[1:] == (v,) and not any(v in fv(b) for b in body.args if b is not a): return CMAX[a.args[0]]
    return 1 << 64
def binder(op, v, K, body, w):
    """alpha-canonical binder: the bound variable is renamed by nesting depth"""
    K0 = K
    if isc(K0):
        if cv(K0) == 0: return const({"sum": 0, "prod": 1, "count": 0, "isum": 0}[op], w)
    if op in ("count", "isum") and not isc(K): v, body = INR[0](v, K, body)
    if op == "count":
        if body is FALSE: return const(0, w)
        if body is TRUE: return trunc(K, w) if K.w >= w else zext(K, w)
    if op == "isum":
        if isc(body) and cv(body) == 0: return const(0, w)
        if v not in fv(body): return mul(trunc(K, w) if K.w >= w else zext(K, w), body)
    d = bdepth(body) + 1
    c = var("b!%d" % d, v.w)
    if c is not v: body = subst(body, {v: c})
    if op == "count" and w < 64 and cmax(c, body) <= mask(w): return trunc(mk(op, (c, K, body), 64), w)
    return mk(op, (c, K, body), w)
def lam_apply(t, x): return subst(t.args[2], {t.args[0]: x})

# ---------- z3
_ufs = {}
_mem = {}
BYTES = z3.DeclareSort("Bytes")
def zsort(w): return BYTES if w < 0 else (z3.BitVecSort(w) if w else z3.BoolSort())
def z3uf(name, ws, w):
    k = (name, ws, w)
    f = _ufs.get(k)
    if f is None:
        f = z3.Function(name + "/" + "_".join(map(str, ws)), *[zsort(x) for x in ws], zsort(w))
        _ufs[k] = f
    return f
def z(t):
    if t._z is None: t._z = _z(t)
    return t._z
def _z(t):
    o, a = t.op, t.args
    if o == "c": return z3.BitVecVal(a[0], t.w) if t.w else z3.BoolVal(bool(a[0]))
    if o == "v": return z3.BitVec(a[0], t.w) if t.w else z3.Bool(a[0])
    if o == "not": return z3.Not(z(a[0]))
    if o == "and": return z3.And(*[z(x) for x in a])
    if o == "or": return z3.Or(*[z(x) for x in a])
    if o == "eq": return z(a[0]) == z(a[1])
    if o == "ite": return z3.If(z(a[0]), z(a[1]), z(a[2]))
    if o == "ult": return z3.ULT(z(a[0]), z(a[1]))
    if o == "slt": return z(a[0]) < z(a[1])
    if o == "add": return z(a[0]) + z(a[1])
    if o == "sub": return z(a[0]) - z(a[1])
    if o == "mul": return z(a[0]) * z(a[1])
    if o == "udiv": return z3.UDiv(z(a[0]), z(a[1]))
    if o == "urem": return z3.URem(z(a[0]), z(a[1]))
    if o == "sdiv": return z(a[0]) / z(a[1])
    if o == "srem": return z3.SRem(z(a[0]), z(a[1]))
    if o == "bvand": return z(a[0]) & z(a[1])
    if o == "bvor": return z(a[0]) | z(a[1])
    if o == "bvxor": return z(a[0]) ^ z(a[1])
    if o == "shl": return z(a[0]) << z(a[1])
    if o == "lshr": return z3.LShR(z(a[0]), z(a[1]))
    if o == "ashr": return z(a[0]) >> z(a[1])
    if o == "zext": return z3.ZeroExt(t.w - a[0].w, z(a[0]))
    if o == "sext": return z3.SignExt(t.w - a[0].w, z(a[0]))
    if o == "ext": return z3.Extract(a[1] + a[2] - 1, a[1], z(a[0]))
    if o == "cat": return z3.Concat(*[z(x) for x in reversed(a)])
    if o == "b2i": return z3.If(z(a[0]), z3.BitVecVal(1, t.w), z3.BitVecVal(0, t.w))
    if o == "init":
        f = z3uf("mem:" + a[0], (64,), 8)
        off = z(a[1])
        bs = [f(z3.simplify(off + i)) for i in range(t.w // 8)]
        return bs[0] if len(bs) == 1 else z3.Concat(*reversed(bs))
    if o == "uf":
        xs = [z(x) for x in a[1:] if isinstance(x, T)]
        nm = a[0] + "".join("," + str(x) for x in a[1:] if not isinstance(x, T))
        if not xs: return z3.BitVec(nm, t.w) if t.w else z3.Bool(nm)
        return z3uf(nm, tuple(x.w for x in a[1:] if isinstance(x, T)), t.w)(*xs)
    if t.w < 0:
        if o in ("pieces", "bytes", "slice", "fill") and all(x.w != 0 or True for x in a if isinstance(x, T)):
            xs = [z(x) for x in a if isinstance(x, T)]
            nm = "%s/%s/%s" % (o, ",".join(str(x) for x in a if not isinstance(x, T)), ",".join(str(x.w) for x in a if isinstance(x, T)))
            if not xs: return z3.Const(nm, BYTES)
            return z3uf(nm, tuple(x.w for x in a if isinstance(x, T)), t.w)(*xs)
        return z3.Const("t%d" % t.id, BYTES)
    # algebra / binders are opaque; one function symbol per term shape over its free variables
    fvs = sorted(fv(t), key=lambda x: x.args[0])
    nm = "t%d" % t.id
    return z3.BitVec(nm, t.w) if t.w else z3.Bool(nm)

def subterms(t, seen=None):
    if seen is None: seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        for a in x.args:
            if isinstance(a, T): st.append(a)
    return seen
