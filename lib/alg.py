"""Integer polynomials for offsets and the scalar field / group algebra.

Field elements are terms of sort F (width -1): op 'F' with args (c1, mono1, c2, mono2, ...),
always normalised.  Group elements are represented through their discrete logarithm."""
from term import *
import term as T_

L = 2**252 + 27742317777372353535851937790883648493
FW = -1

# ------------------------------------------------------------------ integer polynomials
# dict {tuple(sorted atoms): int}
def p_const(c): return {(): c} if c else {}
def p_atom(t): return {(t,): 1}
def p_add(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        x = r.get(m, 0) + s * c
        if x: r[m] = x
        else: r.pop(m, None)
    return r
def p_mul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n, key=lambda t: t.id))
            x = r.get(k, 0) + c * d
            if x: r[k] = x
            else: r.pop(k, None)
    return r
def p_scale(a, s): return {m: c * s for m, c in a.items()} if s else {}
def p_isconst(a): return not a or (len(a) == 1 and () in a)
def p_cval(a): return a.get((), 0)
_ip = {}
NONNEG = [None]     # optional prover for polynomial inequalities
def ipoly(t):
    """exact unsigned value"""
    r = _ip.get(t)
    if r is None:
        r = _ipoly(t)
        if not (len(r) == 1 and (t,) in r and t.op in ("sub", "add", "mul")): _ip[t] = r
    return r
def _ipoly(t):
    m = mask(t.w)
    o, a = t.op, t.args
    if o == "c": return p_const(cv(t))
    if o == "zext": return ipoly(a[0])
    if o == "add":
        x, y = urange(a[0]), urange(a[1])
        if x[1] + y[1] <= m: return p_add(ipoly(a[0]), ipoly(a[1]))
        if isc(a[1]):
            c = cv(a[1]) - (m + 1)
            d = p_add(ipoly(a[0]), p_const(c))
            if x[0] + c >= 0 or (NONNEG[0] and c > -2**20 and NONNEG[0](d)): return d
    if o == "sub":
        x, y = urange(a[0]), urange(a[1])
        d = p_add(ipoly(a[0]), ipoly(a[1]), -1)
        if x[0] >= y[1] or (NONNEG[0] and NONNEG[0](d)): return d
    if o == "mul":
        x, y = urange(a[0]), urange(a[1])
        if x[1] * y[1] <= m: return p_mul(ipoly(a[0]), ipoly(a[1]))
    if o == "shl" and isc(a[1]):
        if urange(a[0])[1] << cv(a[1]) <= m: return p_scale(ipoly(a[0]), 1 << cv(a[1]))
    if o == "ext" and a[1] == 0 and urange(a[0])[1] <= m: return ipoly(a[0])
    if o == "sext":
        h = 1 << (a[0].w - 1)
        if urange(a[0])[1] < h: return ipoly(a[0])
    return p_atom(t)
def spoly(t):
    """exact signed value, or None"""
    if t.op == "c": return p_const(sv(t))
    if srange(t)[0] >= 0: return ipoly(t)
    h = 1 << (t.w - 1)
    if t.op in ("add", "sub", "mul"):
        x, y = srange(t.args[0]), srange(t.args[1])
        px, py = spoly(t.args[0]), spoly(t.args[1])
        if px is None or py is None: return None
        if t.op == "add" and -h <= x[0] + y[0] and x[1] + y[1] < h: return p_add(px, py)
        if t.op == "sub" and -h <= x[0] - y[1] and x[1] - y[0] < h: return p_add(px, py, -1)
        if t.op == "mul":
            cs = [i * j for i in x for j in y]
            if -h <= min(cs) and max(cs) < h: return p_mul(px, py)
        return None
    if t.op == "sext": return spoly(t.args[0])
    return None
_mp = {}
def mpoly(t):
    """value of a 64 bit term modulo 2^64, coefficients centred"""
    r = _mp.get(t)
    if r is None:
        r = cen(_mpoly(t))
        if not any(x.op in ("zext", "sext") or (x.op in ("add", "sub", "mul") and x.w < 64) for m in r for x in m): _mp[t] = r
    return r
def cen(p):
    r = {}
    for m, c in p.items():
        c &= (1 << 64) - 1
        if c >> 63: c -= 1 << 64
        if c: r[m] = c
    return r
def _mpoly(t):
    o, a = t.op, t.args
    if o == "c": return p_const(cv(t))
    if o == "add": return p_add(mpoly(a[0]), mpoly(a[1]))
    if o == "sub": return p_add(mpoly(a[0]), mpoly(a[1]), -1)
    if o == "mul": return p_mul(mpoly(a[0]), mpoly(a[1]))
    if o == "shl" and isc(a[1]): return p_scale(mpoly(a[0]), 1 << cv(a[1]))
    if o == "zext": return ipoly(a[0])
    if o == "sext":
        s = spoly(a[0])
        if s is not None: return s
        return p_atom(t)
    return p_atom(t)
def p_range(p):
    lo = hi = 0
    for m, c in p.items():
        a, b = 1, 1
        for t in m:
            if t.op == "sext": x = srange(t)
            else: x = urange(t)
            cs = [a * x[0], a * x[1], b * x[0], b * x[1]]
            a, b = min(cs), max(cs)
        if c >= 0: lo += c * a; hi += c * b
        else: lo += c * b; hi += c * a
    return lo, hi
def z64(t):
    return zext(t, 64) if t.w < 64 else t
def p_term(p):
    """64 bit term of a polynomial"""
    r = const(0, 64)
    for m, c in sorted(p.items(), key=lambda x: (len(x[0]), [t.id for t in x[0]])):
        x = const(c, 64)
        for t in m: x = mul(x, z64(t)) if t.w <= 64 else mul(x, trunc(t, 64))
        r = add(r, x)
    return r
def p_key(p): return tuple(sorted(((tuple(t.id for t in m), c) for m, c in p.items())))
def canon64(t): return p_term(mpoly(t))
T_.CANON64[0] = canon64

# ------------------------------------------------------------------ field polynomials
# dict {mono: coef}, mono = tuple of (atom, expkey, exppoly)
CANCEL = []         # atoms cancelled against their inverse by the last m_norm
def ekey(p): return p_key(p)
def m_norm(lst):
    """list of (atom, exppoly) -> mono"""
    d = {}
    for a, e in lst:
        if a in d:
            n = p_add(d[a], e)
            if a.op == "find": n = p_const(1)
            elif not n and e: CANCEL.append(a)
            d[a] = n
        else: d[a] = e
    return tuple((a, p_key(e)) for a, e in sorted(d.items(), key=lambda x: x[0].id) if e), {a: e for a, e in d.items() if e}
def nonzero(a):
    """atoms that are never zero"""
    if a.op == "fconst": return True
    if a.op == "fint": return urange(a.args[0])[0] > 0
    if a.op == "fval": return a.args[0].op == "uf" and a.args[0].args[0].startswith("rnd:")
    return False
class FP:
    """field polynomial"""
    __slots__ = ("d",)
    def __init__(s, d): s.d = d        # {monokey: (coef, {atom: exp})}
def f_const(c):
    c %= L
    return FP({(): (c, {})}) if c else FP({})
def f_atom(a, e=None):
    k, d = m_norm([(a, e if e is not None else p_const(1))])
    return FP({k: (1, d)})
def f_add(a, b, s=1):
    r = dict(a.d)
    for k, (c, m) in b.d.items():
        x = ((r[k][0] if k in r else 0) + s * c) % L
        if x: r[k] = (x, m)
        else: r.pop(k, None)
    return FP(r)
def f_mul(a, b):
    r = {}
    for k, (c, m) in a.d.items():
        for k2, (c2, m2) in b.d.items():
            if k and k2:
                del CANCEL[:]
                kk, mm = m_norm(list(m.items()) + list(m2.items()))
                if CANCEL:
                    # x * x^-1 is 1 unless x is zero (the inverse of zero is zero)
                    cs = [x for x in CANCEL if not nonzero(x)]; del CANCEL[:]
                    if cs:
                        y = FP({kk: (c * c2 % L, mm)})
                        for x in cs: y = f_mul(y, f_add(f_const(1), find(fzero(f_atom(x))), -1))
                        r = f_add(FP(r), y).d
                        continue
                # complementary indicators
                if any(x.op == "find" and mk("find", (neg(x.args[0]),), FW) in mm for x in mm): continue
            elif k: kk, mm = k, m
            else: kk, mm = k2, m2
            x = ((r[kk][0] if kk in r else 0) + c * c2) % L
            if x: r[kk] = (x, mm)
            else: r.pop(kk, None)
    return FP(r)
def f_isconst(a): return not a.d or (len(a.d) == 1 and () in a.d)
def f_cval(a): return a.d[()][0] if a.d else 0
def f_inv(a):
    if f_isconst(a): return f_const(pow(f_cval(a), L - 2, L))
    if len(a.d) == 1:
        (k, (c, m)), = a.d.items()
        kk, mm = m_norm([(x, e if x.op == "find" else p_scale(e, -1)) for x, e in m.items()])
        return FP({kk: (pow(c, L - 2, L), mm)})
    return f_atom(mk("fgrp", (F(a),), FW), p_const(-1))
def f_pow(a, e):
    """e: integer polynomial"""
    if p_isconst(e):
        n = p_cval(e)
        if n == 0: return f_const(1)
        if n < 0: return f_pow(f_inv(a), p_const(-n))
        if n <= 300 or len(a.d) <= 1:
            if len(a.d) == 1:
                (k, (c, m)), = a.d.items()
                kk, mm = m_norm([(x, ex if x.op == "find" else p_scale(ex, n)) for x, ex in m.items()])
                return FP({kk: (pow(c, n, L), mm)})
            r = f_const(1)
            for _ in range(n): r = f_mul(r, a)
            return r
    if len(a.d) == 1:
        (k, (c, m)), = a.d.items()
        if not any(x.op == "find" for x in m):
            kk, mm = m_norm([(x, p_mul(ex, e)) for x, ex in m.items()])
            r = FP({kk: (1, mm)})
            if c != 1: r = f_mul(r, f_atom(mk("fconst", (c,), FW), e))
            return r
    return f_atom(mk("fgrp", (F(a),), FW), e)
_f2t = {}
def F(a):
    """FP -> term"""
    items = []
    for k, (c, m) in sorted(a.d.items(), key=lambda x: [(q.id, w) for q, w in x[0]]):
        ma = []
        for x, e in sorted(m.items(), key=lambda y: y[0].id): ma += [x, p_term(e)]
        items += [c, mk("mono", tuple(ma), FW)]
    t = mk("F", tuple(items), FW)
    if t not in _f2t: _f2t[t] = a
    return t
def FPof(t):
    if t.op == "F":
        r = _f2t.get(t)
        if r is None: r = _fp_rebuild(t.args); _f2t[t] = r
        return r
    return f_atom(t)
def _fp_rebuild(args):
    r = f_const(0)
    for i in range(0, len(args), 2):
        c, mo = args[i], args[i + 1]
        x = f_const(c)
        for j in range(0, len(mo.args), 2):
            a, e = mo.args[j], mo.args[j + 1]
            x = f_mul(x, f_pow(FPof(a), mpoly(e)))
        r = f_add(r, x)
    return r
REBUILD["F"] = lambda a, w: F(_fp_rebuild(a))
REBUILD["mono"] = lambda a, w: mk("mono", a, w)
def fint(t):
    p = ipoly(t)
    r = f_const(0)
    for m, c in p.items():
        x = f_const(c)
        for a in m: x = f_mul(x, f_atom(mk("fint", (a,), FW)))
        r = f_add(r, x)
    return r
REBUILD["fint"] = lambda a, w: F(fint(a[0]))
def find(c):
    if c is TRUE: return f_const(1)
    if c is FALSE: return f_const(0)
    if c.op == "not": return f_add(f_const(1), f_atom(mk("find", (c.args[0],), FW)), -1)
    return f_atom(mk("find", (c,), FW))
REBUILD["find"] = lambda a, w: F(find(a[0]))
def fgrp(t):
    a = FPof(t)
    if len(a.d) <= 1: return a
    return f_atom(mk("fgrp", (t,), FW))
REBUILD["fgrp"] = lambda a, w: F(fgrp(a[0]))
def f_ite(c, a, b):
    i = find(c)
    return f_add(f_mul(i, f_add(a, b, -1)), b)
def fs(t):
    """scalar value of 32 bytes"""
    if t.op == "senc": return FPof(t.args[0])
    if isc(t): return f_const(cv(t))
    if t.op == "zext" and t.args[0].w <= 252: return fint(t.args[0])
    if t.op == "ite": return f_ite(t.args[0], fs(t.args[1]), fs(t.args[2]))
    return f_atom(mk("fval", (t,), FW))
REBUILD["fval"] = lambda a, w: F(fs(a[0]))
def fp(t):
    if t.op == "penc": return FPof(t.args[0])
    if isc(t) and cv(t) == 0: return f_const(0)
    if t.op == "ite": return f_ite(t.args[0], fp(t.args[1]), fp(t.args[2]))
    return f_atom(mk("fdlog", (t,), FW))
REBUILD["fdlog"] = lambda a, w: F(fp(a[0]))
def senc(a):
    if f_isconst(a): return const(f_cval(a), 256)
    if len(a.d) == 1:
        (k, (c, m)), = a.d.items()
        if c == 1 and len(m) == 1:
            (x, e), = m.items()
            if x.op == "fint" and p_isconst(e) and p_cval(e) == 1 and x.args[0].w <= 252: return zext(x.args[0], 256)
            if x.op == "fval" and p_isconst(e) and p_cval(e) == 1 and x.args[0].op == "uf" and x.args[0].args[0].startswith("rnd:"): return x.args[0]
    return mk("senc", (F(a),), 256)
REBUILD["senc"] = lambda a, w: senc(FPof(a[0]))
def penc(a):
    if f_isconst(a) and f_cval(a) == 0: return const(0, 256)
    if len(a.d) == 1:
        (k, (c, m)), = a.d.items()
        if c == 1 and len(m) == 1:
            (x, e), = m.items()
            if x.op == "fdlog" and p_isconst(e) and p_cval(e) == 1 and pvalid(x.args[0]) is TRUE: return x.args[0]
    return mk("penc", (F(a),), 256)
REBUILD["penc"] = lambda a, w: penc(FPof(a[0]))
def pvalid(t):
    if t.op == "penc": return TRUE
    if isc(t) and cv(t) == 0: return TRUE
    if t.op == "ite": return ite(t.args[0], pvalid(t.args[1]), pvalid(t.args[2]))
    if t.op == "uf" and t.args[0] == "r255map": return TRUE
    return mk("pvalid", (t,), 0)
REBUILD["pvalid"] = lambda a, w: pvalid(a[0])
def fzero(a):
    if f_isconst(a): return boolc(f_cval(a) == 0)
    if len(a.d) == 1:
        (k, (c, m)), = a.d.items()
        if any(nonzero(x) for x in m):
            k, m = m_norm([(x, e) for x, e in m.items() if not nonzero(x)])
            if not m: return FALSE
            c = 1; a = FP({k: (c, m)})
        if len(m) > 1 or any(not (p_isconst(e) and p_cval(e) == 1) for e in m.values()):
            if all(p_isconst(e) for e in m.values()): return mkor(*[fzero(f_atom(x)) for x in m])
        else:
            x, = m
            if nonzero(x): return FALSE
            if x.op == "find": return neg(x.args[0])
            if x.op == "fgrp": return fzero(FPof(x.args[0]))
            if x.op == "fint": return eq(x.args[0], const(0, x.args[0].w))
            if c != 1: return fzero(f_atom(x))
    elif len(a.d) == 2 and () in a.d:
        (k, (c, m)), = [i for i in a.d.items() if i[0] != ()]
        if len(m) == 1:
            x, = m
            if x.op == "find":
                r = a.d[()][0]
                # r + c*[cond]
                if (r + c) % L == 0: return x.args[0]
                return FALSE
    if a.d:
        # normalise the leading coefficient
        c0 = min(a.d.items(), key=lambda x: [(q.id, w) for q, w in x[0]])[1][0]
        if c0 != 1:
            i = pow(c0, L - 2, L)
            a = FP({k: (c * i % L, m) for k, (c, m) in a.d.items()})
    return mk("fzero", (F(a),), 0)
REBUILD["fzero"] = lambda a, w: fzero(FPof(a[0]))
REBUILD["pow"] = None
del REBUILD["pow"]

# ---- sums and products over a range
_bv = [0]
def openb(t):
    _bv[0] += 1
    v = var("o!%d" % _bv[0], t.args[0].w)
    return v, t.args[1], subst(t.args[2], {t.args[0]: v})
def f_dep(m, v):
    return [x for x, e in m.items() if v in fv(x) or any(v in fv(t) for mm in e for t in mm)]
PERM = {}           # uf name -> bound term K of a permutation of [0,K)
def unperm(v, K, body):
    """body depends on v only through one permutation application: reindex"""
    for t in subterms(body):
        if t.op == "uf" and t.args[0] in PERM and len(t.args) == 2 and v in fv(t):
            if canon64(z64(PERM[t.args[0]])) is not canon64(z64(K)): continue
            if t.args[1] is not v and not (t.args[1].op in ("zext", "ext") and t.args[1].args[0] is v): continue
            _bv[0] += 1
            n = var("o!%d" % _bv[0], v.w)
            r = trunc(z64(n), t.w) if t.w < n.w else (zext(n, t.w) if t.w > n.w else n)
            if v.w < 64: VR[n] = VR.get(v, (0, mask(v.w)))
            b2 = subst(body, {t: r})
            if v not in fv(b2): return n, b2
    return None
def inrange(v, K, a, t=None):
    """the body simplified with the knowledge v < K"""
    raw = t is not None
    if raw: a = t
    else: t = F(a)
    if v.op == "v" and v.args[0].startswith("q!"): return v, a
    n = var("q!%d" % K.id, 64)
    if n in fv(t): return v, a
    hi = min(urange(K)[1] - 1, mask(v.w))
    if hi < 0: return v, a
    VR[n] = (0, hi)
    t = subst(t, {v: trunc(n, v.w) if v.w < 64 else n})
    m = {}
    for x in subterms(t):
        if x.op == "ult" and n in fv(x.args[0]):
            # y - x - 1 >= K - 1 - n >= 0
            d = p_add(p_add(ipoly(x.args[1]), ipoly(x.args[0]), -1), p_add(ipoly(K), ipoly(n), -1), -1)
            if p_isconst(d) and p_cval(d) >= 0: m[x] = TRUE
    if m: t = subst(t, m)
    return n, t if raw else FPof(t)
def inrange_t(v, K, t):
    n, a = inrange(v, K, None, t)
    return n, a
def f_sum(v, K, a):
    """sum over v in [0,K) of the polynomial a"""
    if isc(K):
        r = f_const(0)
        for i in range(cv(K)): r = f_add(r, FPof(subst(F(a), {v: const(i, v.w)})))
        return r
    u = unperm(v, K, F(a))
    if u: v, a = u[0], FPof(u[1])
    v, a = inrange(v, K, a)
    r = f_const(0)
    for k, (c, m) in a.d.items():
        dep = f_dep(m, v)
        out = FP({}) ; ko, mo = m_norm([(x, e) for x, e in m.items() if x not in dep]); out = FP({ko: (c, mo)})
        if not dep: r = f_add(r, f_mul(out, fint(K))); continue
        ki, mi = m_norm([(x, e) for x, e in m.items() if x in dep])
        # factors such as x^(v+c): split off x^c
        sp = []
        for x, e in mi.items():
            cc = e.get((), 0)
            if cc and v not in fv(x) and not p_isconst(e): sp.append((x, cc))
        if sp:
            for x, cc in sp:
                mi = dict(mi); mi[x] = p_add(mi[x], p_const(cc), -1)
                b = x
                out = f_mul(out, f_pow(FPof(b.args[0]) if b.op == "fgrp" else f_atom(b), p_const(cc)))
            ki, mi = m_norm(list(mi.items()))
        body = FP({ki: (1, mi)})
        at = binder("sum", v, K, F(body), FW)
        r = f_add(r, f_mul(out, f_atom(at)))
    return r
def f_prod(v, K, a):
    if isc(K):
        r = f_const(1)
        for i in range(cv(K)): r = f_mul(r, FPof(subst(F(a), {v: const(i, v.w)})))
        return r
    u = unperm(v, K, F(a))
    if u: v, a = u[0], FPof(u[1])
    v, a = inrange(v, K, a)
    if v not in fv(F(a)): return f_pow(a, ipoly(K))
    if len(a.d) == 1:
        (k, (c, m)), = a.d.items()
        r = f_pow(f_const(c), ipoly(K)) if c != 1 else f_const(1)
        for x, e in m.items():
            one = FP({m_norm([(x, e)])[0]: (1, m_norm([(x, e)])[1])})
            if not f_dep({x: e}, v): r = f_mul(r, f_pow(one, ipoly(K)))
            else: r = f_mul(r, f_atom(binder("prod", v, K, F(one), FW)))
        return r
    return f_atom(binder("prod", v, K, F(a), FW))
T_.INR.append(inrange_t)
_old = {k: REBUILD[k] for k in ("sum", "prod")}
def _rb_sum(a, w):
    _bv[0] += 1
    v = var("o!%d" % _bv[0], a[0].w)
    if a[0] in VR: VR[v] = VR[a[0]]
    return F(f_sum(v, a[1], FPof(subst(a[2], {a[0]: v}))))
def _rb_prod(a, w):
    _bv[0] += 1
    v = var("o!%d" % _bv[0], a[0].w)
    return F(f_prod(v, a[1], FPof(subst(a[2], {a[0]: v}))))
REBUILD["sum"] = _rb_sum
REBUILD["prod"] = _rb_prod

def s_eq(a, b):
    """field equality of two 32 byte terms, as a condition"""
    return fzero(f_add(fs(a), fs(b), -1))
