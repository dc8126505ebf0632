"""Guarded symbolic executor with loop summaries.

Every object keeps an append-only log of guarded writes; a loop contributes families of writes
indexed by the iteration number.  Loop-carried values get closed forms that are justified by
induction on the iteration number (see Loop.solve)."""
import itertools, time, z3
from term import *
from alg import *
import alg, ir

class Unsupported(Exception): pass

class Ptr:
    __slots__ = ("obj", "off")
    def __init__(s, o, f): s.obj = o; s.off = f
    def __repr__(s): return "&%s+%s" % (s.obj.name, show(s.off))
class PSel:
    __slots__ = ("c", "a", "b")
    def __init__(s, c, a, b): s.c = c; s.a = a; s.b = b
    def __repr__(s): return "sel(%s,%r,%r)" % (show(s.c), s.a, s.b)
class Node:
    __slots__ = ("prev", "e", "obj")
    def __init__(s, prev, e, obj): s.prev = prev; s.e = e; s.obj = obj
class E:
    """log entry: kind W (value), C (copy), F (fill), S (scatter: unknown places), M (loop marker)"""
    __slots__ = ("k", "g", "off", "n", "v", "vars", "loc", "x", "tag")
    def __init__(s, k, g, off, n, v=None, vars=(), loc="", x=None, tag=None):
        s.k = k; s.g = g; s.off = off; s.n = n; s.v = v; s.vars = vars; s.loc = loc; s.x = x; s.tag = tag
    def __repr__(s): return "%s[%s+%s]%s if %s%s" % (s.k, show(s.off), s.n if not isinstance(s.n, T) else show(s.n), "" if s.v is None else "=" + repr(s.v), show(s.g), "" if not s.vars else " for " + repr([(a, b) for a, b in s.vars]))
class Obj:
    def __init__(s, name, size, kind="sym", data=None, const=False):
        s.name = name; s.size = size; s.kind = kind; s.data = data; s.const = const
        s.head = Node(None, None, s); s.alive = TRUE; s.scope = None
    def __repr__(s): return "<%s>" % s.name
class Ev:
    __slots__ = ("k", "g", "a", "r", "vars", "loc", "it", "seq")
    def __init__(s, k, g, a, r=None, vars=(), loc="", it=()): s.k = k; s.g = g; s.a = a; s.r = r; s.vars = vars; s.loc = loc; s.it = it
    def __repr__(s): return "%s%r -> %r if %s%s @%s" % (s.k, s.a, s.r, show(s.g), "" if not s.vars else " for " + repr(s.vars), s.loc)

c64 = lambda v: const(v, 64)
BIG = c64(1 << 62)

# ------------------------------------------------------------------ polynomial inequalities
BOUND = {}          # loop variable (term) -> polynomial upper bound (inclusive); lower bound is 0
FACTS = []          # polynomials known to be >= 0
_nn = {}
def p_nonneg(p, facts=(), depth=4, seen=None):
    if not p: return True
    if p_range(p)[0] >= 0: return True
    if depth == 0: return False
    if depth == 4 and (q := isumdrop(p)) is not None: return p_nonneg(q, facts, depth, seen)
    # eliminate a bounded variable (linear occurrence): check both ends
    for m in p:
        for a in m:
            if a in BOUND:
                c1 = {}; rest = {}; lin = True
                for mm, c in p.items():
                    k = mm.count(a)
                    if k == 0: rest[mm] = c
                    elif k == 1:
                        l = list(mm); l.remove(a); c1[tuple(l)] = c
                    else: lin = False
                if lin:
                    hi = p_add(rest, p_mul(c1, BOUND[a]))
                    if p_nonneg(hi, facts, depth, seen) and p_nonneg(rest, tuple(facts) + (BOUND[a],), depth, seen): return True
                    return _farkas(p, facts, depth)
    return _farkas(p, facts, depth)
def _rest(m, fm):
    l = list(m)
    for a in fm:
        if a in l: l.remove(a)
        else: return None
    return tuple(l)
def isumdrop(p):
    """subtracted sums of terms that are 0 or x over k indices replaced by k*x"""
    r = None
    for m, c in p.items():
        if len(m) == 1 and c < 0 and isinstance(m[0], T) and m[0].op == "isum" and (u := isumub(m[0])) is not None:
            r = p_add(p_add(r if r is not None else p, {m: c}, -1), p_scale(u, c))
    return r
def isumub(a):
    v, K, b = a.args
    x = b
    if b.op == "ite" and isc(b.args[1]) and cv(b.args[1]) == 0: x = b.args[2]
    elif b.op == "ite" and isc(b.args[2]) and cv(b.args[2]) == 0: x = b.args[1]
    u = isumub(x) if x.op == "isum" else ipoly(x)
    if u is None or any(v is y or v in fv(y) for m in u for y in m) or urange(x)[1] * urange(K)[1] >= 1 << a.w: return None
    return p_mul(ipoly(K), u)
def _farkas(p, facts, depth):
    for f in list(facts) + FACTS:
        ms = [m for m in f if m and f[m] > 0]
        for fm in ms:
            fc = f[fm]
            # all occurrences at once
            mult = {}
            for m, c in p.items():
                l = _rest(m, fm)
                if c > 0 and l is not None and c % fc == 0: mult[l] = c // fc
            if len(mult) > 1 and p_nonneg(p_add(p, p_mul(mult, f), -1), [x for x in facts if x is not f], depth - 1): return True
            for m, c in list(p.items()):
                if c > 0 and len(m) >= len(fm):
                    l = list(m); ok = True
                    for a in fm:
                        if a in l: l.remove(a)
                        else: ok = False; break
                    if not ok or c % fc: continue
                    q = p_add(p, p_mul(p_scale({tuple(l): 1}, c // fc), f), -1)
                    if p_nonneg(q, [x for x in facts if x is not f], depth - 1): return True
    return False
alg.NONNEG[0] = lambda p: p_nonneg(p, depth=2)

def gfacts(g):
    r = []
    for c in conj(g):
        n = c.op == "not"
        x = c.args[0] if n else c
        if x.op == "ult":
            a, b = ipoly(x.args[0]), ipoly(x.args[1])
            r.append(p_add(a, b, -1) if n else p_add(p_add(b, a, -1), p_const(-1)))
        elif x.op == "slt" and srange(x.args[0])[0] >= 0 and srange(x.args[1])[0] >= 0:
            a, b = ipoly(x.args[0]), ipoly(x.args[1])
            r.append(p_add(a, b, -1) if n else p_add(p_add(b, a, -1), p_const(-1)))
        elif x.op == "eq" and not n and x.args[0].w in (8, 16, 32, 64):
            a, b = ipoly(x.args[0]), ipoly(x.args[1])
            d = p_add(a, b, -1); r.append(d); r.append(p_scale(d, -1))
        elif x.op == "eq" and n and isc(x.args[1]) and cv(x.args[1]) == 0:
            r.append(p_add(ipoly(x.args[0]), p_const(-1)))
    return r

SCHEMA = {}         # uf name -> list of (params, fact)
class Eng:
    def __init__(s, mods, ext, unroll=None):
        s.mods = mods; s.ext = ext; s.facts = []; s.objs = {}; s.events = []; s.obl = []; s.quiet = 0
        s.iters = []; s.globs = {}; s.unroll = unroll
        s.memref = {}; s.heap = s.obj("heap", BIG); s.zt = 0.0; s.zn = 0; s.pc = {}; s.trace = []
        s.rng = {}; s.loopstack = []; s.ph = ""; s.live = []; s.qf = []; s.wit = {}; s.annot = None; s.unk = None; s.les = {}; s.contracts = {}; s.noret = []; s.stack = []; s.inlined = set(); s.loopinfo = []; s.uclimit = 80
        s.funcs = {}
        for m in mods:
            for n, f in m.funcs.items(): s.funcs.setdefault(n, (m, f))
    def obj(s, name, size, **kw):
        o = Obj(name, size if isinstance(size, T) else c64(size), **kw)
        s.objs[name] = o
        return o
    # -------------------------------------------------------------- proving
    def prove(s, g, goal, tmo=3000, inst=()):
        if goal is TRUE or g is FALSE: return True
        cg = conj(g)
        if goal is not FALSE and conj(goal) <= cg: return True
        if mkand(g, neg(goal)) is FALSE: return True
        return s.unsat(mkand(g, neg(goal)), tmo, inst)
    def unsat(s, f, tmo=3000, inst=()):
        if f is FALSE: return True
        if f is TRUE and not s.facts: return False
        key = (f, len(s.facts), tuple(inst))
        if key in s.pc: return s.pc[key]
        t0 = time.time()
        fs = s.relevant(f, inst)
        sol = z3.Solver(); sol.set("timeout", tmo)
        for x in fs: sol.add(z(x))
        sol.add(z(f))
        r = sol.check() == z3.unsat
        s.zt += time.time() - t0; s.zn += 1
        s.pc[key] = r
        return r
    def model(s, f, tmo=10000, inst=()):
        fs = s.relevant(f, inst)
        sol = z3.Solver(); sol.set("timeout", tmo)
        for x in fs: sol.add(z(x))
        sol.add(z(f))
        r = sol.check()
        s.zn += 1
        return (sol.model() if r == z3.sat else None), r
    def below(s, b, b2, v, v2):
        """is a term of one sum at most that of another for every index?"""
        k = (b, b2)
        if v.w != v2.w or b.w != b2.w: return False
        if k not in s.les:
            s.les[k] = False; y = var("le!x", v.w); s.les[k] = s.unsat(ult(subst(b2, {v2: y}), subst(b, {v: y})), 1000)
        return s.les[k]
    def relevant(s, f, inst):
        out = []; done = set(); work = [f]
        # ranges of the loop indices that occur
        vs = list(fv(f)); seen = set()
        while vs:
            v = vs.pop()
            if v in seen: continue
            seen.add(v)
            if v in s.rng:
                x = s.rng[v]; out.append(x); work.append(x); vs += list(fv(x))
        f = mkand(f, *out) if out else f
        if inst:
            # a positive count has a counted index
            cs = [u for u in subterms(f) if u.op == "count" and not any(y.args[0].startswith("b!") for y in fv(u))]
            if len(cs) <= 6:
                for u in sorted(cs, key=lambda u: show(u, 6)):
                    v, K, b = u.args; w = s.wit.setdefault(u, var("w!%d" % len(s.wit), v.w))
                    x = imp(neg(eq(u, const(0, u.w))), mkand(ult(w, z64(K) if v.w == 64 else K), subst(b, {v: w})))
                    out.append(x); work.append(x); inst = tuple(inst) + (w,) + tuple(trunc(w, q) for q in (8, 16, 32) if q < w.w)
                f = mkand(f, *out)
        # a sum over fewer indices together with its next term is at most the sum over more
        iss = {}
        for u in subterms(f):
            if u.op == "isum" and u.args[1].w == 64 and urange(u)[1] < mask(u.w): iss.setdefault(u.args[2], []).append(u)
        for b, us in iss.items():
            for b2, us2 in iss.items():
                if b is not b2 and not s.below(b, b2, us[0].args[0], us2[0].args[0]): continue
                for u in us:
                    for u2 in us2:
                        if u is u2 or any(y.args[0].startswith("b!") for y in fv(u) | fv(u2)) or urange(u.args[1])[1] > urange(u2.args[1])[1]: continue
                        v = u2.args[0]; k = u.args[1]; x = imp(ult(k, u2.args[1]), ule(add(u, subst(b2, {v: trunc(k, v.w) if v.w < 64 else k})), u2)); out.append(x); work.append(x)
        syms = set(); pool = [(x, atoms(x)) for x in s.facts]
        n = 0
        fa = atoms(f)
        ch = True
        while ch:
            ch = False
            for i, (x, ax) in enumerate(pool):
                if x is not None and (ax & fa):
                    out.append(x); fa = fa | ax; pool[i] = (None, ax); ch = True; work.append(x)
            while work and n < 400:
                t = work.pop()
                for u in subterms(t):
                    if u not in done and u.w > 0 and (u in VR or (u.op == "uf" and u.args[0] in VRN)):
                        lo, hi = VR[u] if u in VR else VRN[u.args[0]]
                        if u in VR or u.args[0] not in SCHEMA: done.add(u)
                        if lo > 0: out.append(mk("not", (mk("ult", (u, const(lo, u.w)), 0),), 0))
                        if hi < mask(u.w): out.append(mk("not", (mk("ult", (const(hi, u.w), u), 0),), 0))
                    if u.op == "count" and u not in done and urange(u.args[1])[1] <= mask(u.w):
                        done.add(u); y = mk("not", (mk("ult", (trunc(z64(u.args[1]), u.w) if u.w < 64 else z64(u.args[1]), u), 0),), 0)
                        out.append(y); ch = True
                    if u.op == "isum" and u not in done and (h := urange(u)[1]) < mask(u.w):
                        done.add(u); out.append(mk("not", (mk("ult", (const(h, u.w), u), 0),), 0)); ch = True
                    if u.op in ("count", "isum") and inst and ("bi", u) not in done:
                        # a counted index makes the count positive, a sum is at least each of its terms
                        done.add(("bi", u)); v, K, b = u.args
                        if any(y.args[0].startswith("b!") for y in fv(u)): continue
                        if (urange(K)[1] if u.op == "count" else urange(K)[1] * urange(b)[1]) > mask(u.w): continue
                        for x in inst:
                            if x.w != v.w: continue
                            bx = subst(b, {v: x})
                            y = imp(mkand(ult(x, z64(K) if v.w == 64 else K), bx), neg(eq(u, const(0, u.w)))) if u.op == "count" else imp(ult(x, z64(K) if v.w == 64 else K), ule(bx, u))
                            if y is TRUE: continue
                            out.append(y); fa = fa | atoms(y); work.append(y); ch = True
                    if u.op == "uf" and u.args[0] in SCHEMA and u not in done:
                        done.add(u); n += 1
                        for ps, fact in SCHEMA[u.args[0]]:
                            y = subst(fact, dict(zip(ps, u.args[1:])))
                            if y is TRUE: continue
                            out.append(y); fa = fa | atoms(y); work.append(y); ch = True
            for (v, K, cond, fact, nm) in s.qf:
                for x in inst:
                    k = (nm, x)
                    if k in done or x.w != v.w: continue
                    done.add(k)
                    y = imp(mkand(ult(x, K), cond), subst(fact, {v: x}))
                    out.append(y); fa = fa | atoms(y); work.append(y); ch = True
                    # the same for given values of the indices of the enclosing loops
                    ov = sorted((o for o in fv(y) if o.args[0].startswith("i:") and o not in inst), key=lambda o: o.args[0])
                    if not 0 < len(ov) <= 2: continue
                    for c in itertools.product(*[[z for z in inst if z.w == o.w and not any(t.op == "uf" and t.args[0].startswith("ghost:") for t in subterms(z))] for o in ov]):
                        y2 = subst(y, dict(zip(ov, c)))
                        if y2 is not TRUE: out.append(y2); fa = fa | atoms(y2); work.append(y2)
        return out
    def nonneg_goal(s, g, f):
        """not(a < b) by polynomial bounds"""
        return f.op == "not" and f.args[0].op == "ult" and s.nonneg(p_add(ipoly(f.args[0].args[0]), ipoly(f.args[0].args[1]), -1), g)
    def nonneg(s, p, g=TRUE):
        if p_nonneg(p): return True
        if g is TRUE: return False
        return p_nonneg(p, tuple(gfacts(g)))
    # -------------------------------------------------------------- memory
    def append(s, obj, e):
        obj.head = Node(obj.head, e, obj)
    def gi(s, g, eg):
        """does guard g imply eg (1), exclude it (0) or neither (None)"""
        if eg is TRUE: return 1
        if g is eg: return 1
        ce = conj(eg)
        cg = conj(g)
        if ce <= cg: return 1
        if mkand(g, eg) is FALSE: return 0
        rest = ce - cg
        if all(x.op in ("ult", "slt", "eq", "not", "or", "pvalid", "fzero", "uf", "v") for x in rest):
            if s.prove(g, mkand(*rest), 1000): return 1
            if s.unsat(mkand(g, *rest), 1000): return 0
        return None
    def rel(s, off, n, eoff, elen, g):
        """relation of [off,off+n) to [eoff,eoff+elen); n, elen polynomials"""
        R = cen(p_add(mpoly(off), mpoly(eoff), -1))
        if s.nonneg(p_add(R, elen, -1), g): return "no", R
        if s.nonneg(p_add(p_scale(R, -1), n, -1), g): return "no", R
        if s.nonneg(R, g) and s.nonneg(p_add(p_add(elen, R, -1), n, -1), g): return "in", R
        if p_isconst(R) and p_isconst(elen) and p_isconst(n): return "part", R
        d = sub(off, eoff); el = p_term(elen); nn = p_term(n)
        if p_isconst(elen) and p_isconst(n):
            L_, N_ = p_cval(elen), p_cval(n)
            ov = ult(add(d, c64(N_ - 1)), c64(L_ + N_ - 1))
            if s.unsat(mkand(g, ov), 1500): return "no", R
            inn = ult(d, c64(L_ - N_ + 1)) if L_ >= N_ else FALSE
            if s.prove(g, inn, 1500): return "in", R
        return "may", R
    def read(s, obj, off, n, g, node=None):
        node = node or obj.head
        return s.rd(node, canon64(off), n, g, 0)
    def rd(s, node, off, n, g, depth):
        if depth > 400: raise Unsupported("deep read")
        N = p_const(n)
        if s.unk is not None and s.unk(node.obj):
            # contents that do not matter: a value of its own for every state of the object
            k = 0; nd = node
            while nd.e is not None: k += 1; nd = nd.prev
            return uf("unk:%s:%d:%d" % (node.obj.name, n, k), 8 * n, off, *[z64(x) for x in s.iters])
        while True:
            e = node.e
            if e is None: return s.base(node.obj, off, n, g)
            if e.k == "M":
                r = e.x.carried(node, off, n, g)
                if r is None: node = node.prev; continue
                return r
            eg = e.g
            if e.k == "P":
                # the elements of a region were permuted
                lo, sz, nm, its = e.x
                rl, R = s.rel(off, N, lo, ipoly(e.n), mkand(g, eg))
                if rl == "no" or mkand(g, eg) is FALSE: node = node.prev; continue
                k = s.gi(g, eg)
                if k == 0: node = node.prev; continue
                if rl == "in" and n == sz and all(c % sz == 0 for c in R.values()):
                    ix = p_term({m: c // sz for m, c in R.items()})
                    v = s.rd(node.prev, canon64(add(lo, mul(uf(nm, 64, ix, *its), c64(sz)))), n, mkand(g, eg), depth + 1)
                    if k == 1: return v
                    return vite(strip(eg, g), v, s.rd(node.prev, off, n, mkand(g, neg(eg)), depth + 1))
                s.note("unresolved read of permuted %s" % node.obj.name)
                return uf("scat:%s:%s" % (node.obj.name, nm), 8 * n, off, *[x for x in s.iters])
            if e.k == "A":
                # additions at data dependent places: initial value plus what the iterations added here
                (j, K), = e.vars
                lo, hi = e.x if e.x is not None else (None, None)
                if lo is not None and (s.nonneg(p_add(lo, p_add(mpoly(off), p_const(n)), -1), g) or s.nonneg(p_add(mpoly(off), hi, -1), g)): node = node.prev; continue
                po, pe = mpoly(off), mpoly(e.off)
                if n == e.n and all(c % n == 0 for q in (po, pe) for c in q.values()):
                    # counters of n bytes at multiples of n never overlap partially
                    v = s.rd(node.prev, off, n, g, depth + 1)
                    h = var("h%s" % j.args[0], 64); VR[h] = (0, max(0, urange(z64(K))[1] - 1))
                    q = {j: trunc(h, j.w) if j.w < 64 else h}
                    here = eq(subst(e.off, q), off)
                    if here.op == "eq" and n > 1:
                        iq = [ipoly(x) for x in here.args]
                        if all(c % n == 0 for x in iq for c in x.values()): here = eq(*[p_term({m: c // n for m, c in x.items()}) for x in iq])
                    cnd = mkand(subst(strip(e.g, g), q), here)
                    d = subst(e.v, q)
                    if isc(d) and cv(d) == 1: return add(v, binder("count", h, z64(K), cnd, 8 * n))
                    return add(v, binder("isum", h, z64(K), ite(cnd, d, const(0, 8 * n)), 8 * n))
                s.note("unresolved read of counters in %s" % node.obj.name)
                return uf("scat:%s:%s" % (node.obj.name, e.tag), 8 * n, off, *[x for x in s.iters])
            if e.k == "S" and isinstance(e.x, tuple) and e.x[0] == "arr":
                # content known by the invariant of the loop only
                if mkand(g, eg) is FALSE: node = node.prev; continue
                k = s.gi(g, eg)
                if k == 0: node = node.prev; continue
                v = uf("%s:%d" % (e.x[1], 8 * n), 8 * n, canon64(off), *e.x[2])
                if k == 1: return v
                return vite(strip(eg, g), v, s.rd(node.prev, off, n, mkand(g, neg(eg)), depth + 1))
            if e.k == "S" and e.v is not None:
                # elements appended one after the other: position = number of elements before
                (j, N), = e.vars
                ce = compact_atom(e.off, j)
                for t in subterms(off):
                    if t.op == "count" and t.args[2] is ce[0].args[2] and t.w == ce[0].w:
                        q = {j: trunc(z64(t.args[1]), j.w) if j.w < 64 else z64(t.args[1])}
                        if canon64(subst(e.off, q)) is canon64(off) and n == e.n and s.prove(g, mkand(subst(e.g, q), ult(z64(t.args[1]), z64(N)))):
                            return subst(e.v, q)
            if not e.vars:
                if mkand(g, eg) is FALSE: node = node.prev; continue
                rl, R = s.rel(off, N, e.off, ipoly(e.n) if isinstance(e.n, T) else p_const(e.n), mkand(g, eg))
                if rl == "no": node = node.prev; continue
                k = s.gi(g, eg)
                if k == 0: node = node.prev; continue
                hit, q, extra = rl, {}, TRUE
            else:
                m = s.match(off, n, e, g)
                if m[0] == "no": node = node.prev; continue
                if m[0] == "cut": return cat([s.bytesof(s.rd(node, off, m[1], g, depth + 1)), s.bytesof(s.rd(node, add(off, c64(m[1])), n - m[1], g, depth + 1))])
                if m[0] == "same" and not s.alone(node, e, off, n, g): m = ("may", {}, {}, TRUE)
                if m[0] == "same":
                    (j, K), = e.vars; h = var("h%s" % j.args[0], 64); VR[h] = (0, max(0, urange(z64(K))[1] - 1))
                    some = neg(eq(binder("count", h, z64(K), subst(strip(e.g, g), {j: trunc(h, j.w) if j.w < 64 else h}), 64), c64(0)))
                    return vite(some, s.value(e, m[1], n, mkand(g, some), {}), s.rd(node.prev, off, n, mkand(g, neg(some)), depth + 1))
                hit, q, R, extra = m
                if hit == "in":
                    eg = mkand(extra, subst(eg, q))
                    if eg is FALSE or mkand(g, eg) is FALSE: node = node.prev; continue
                    k = s.gi(g, eg)
                    if k == 0: node = node.prev; continue
            if hit == "in":
                v = s.value(e, R, n, mkand(g, eg), q)
                if k == 1: return v
                rest = s.rd(node.prev, off, n, mkand(g, neg(eg)), depth + 1)
                return vite(strip(eg, g), v, rest)
            if hit == "part":
                r = p_cval(R)
                elen = e.n if not isinstance(e.n, T) else cv(e.n)
                # split at the borders of the entry
                cuts = sorted({0, n} | {x for x in (-r, elen - r) if 0 < x < n})
                if len(cuts) > 2:
                    return cat([s.bytesof(s.rd(node, add(off, c64(a)), b - a, g, depth + 1)) for a, b in zip(cuts, cuts[1:])])
            if n > 1 and hit in ("may", "part") and n <= 64 and not e.vars and p_isconst(ipoly(e.n) if isinstance(e.n, T) else p_const(e.n)) and (e.n if not isinstance(e.n, T) else cv(e.n)) < n:
                return cat([s.bytesof(s.rd(node, add(off, c64(i)), 1, g, depth + 1)) for i in range(n)])
            if hit == "may" and not e.vars and e.k in ("W", "F", "C"):
                L_ = ipoly(e.n) if isinstance(e.n, T) else p_const(e.n)
                if e.k == "W" and n == e.n:
                    # same size: assume aligned only if provable
                    same = eq(off, e.off)
                    d = sub(off, e.off)
                    ov = ult(add(d, c64(n - 1)), c64(2 * n - 1))
                    if s.prove(mkand(g, eg, ov), same, 2000):
                        rest = s.rd(node.prev, off, n, mkand(g, neg(mkand(eg, same))), depth + 1)
                        return vite(strip(mkand(eg, same), g), e.v, rest)
                if n == 1:
                    d = sub(off, e.off)
                    inn = ult(d, p_term(L_))
                    v = s.value(e, mpoly(d), 1, mkand(g, eg, inn), {})
                    rest = s.rd(node.prev, off, n, mkand(g, neg(mkand(eg, inn))), depth + 1)
                    return vite(strip(mkand(eg, inn), g), v, rest)
            s.note("unresolved read of %s at %s over %r" % (node.obj.name, show(off), e))
            return uf("scat:%s:%s" % (node.obj.name, id(node) if e.tag is None else e.tag), 8 * n, off, *[x for x in s.iters])
    def note(s, m):
        if m not in s.trace: s.trace.append(m)
    def match(s, off, n, e, g):
        if e.k == "S":
            if e.x is not None and e.x[0] != "arr":
                lo, hi = e.x      # byte range polynomials
                if s.nonneg(p_add(lo, p_add(mpoly(off), p_const(n)), -1), g) or s.nonneg(p_add(mpoly(off), hi, -1), g): return ("no",)
            return ("may", {}, {}, TRUE)
        eo = mpoly(e.off)
        R = cen(p_add(mpoly(off), eo, -1))
        elen = ipoly(e.n) if isinstance(e.n, T) else p_const(e.n)
        vs = [v for v, K in e.vars]
        cs = {}
        for v in vs:
            c = {}
            for m, k in eo.items():
                if v in m:
                    if m.count(v) > 1: return s.zdis(off, n, e, g)
                    l = list(m); l.remove(v)
                    if any(x in vs for x in l): return s.zdis(off, n, e, g)
                    c[tuple(l)] = k
            cs[v] = c
        if any(any(v in fv(a) for m in eo for a in m if a is not v) for v in vs): return s.zdis(off, n, e, g)
        if any(not cs[v] for v in vs):
            # address does not depend on this iteration: the last iteration that wrote wins; usable if they all write the same
            if len(vs) == 1 and e.k == "W" and isinstance(e.v, T) and not isinstance(e.n, T) and vs[0] not in fv(e.v) and vs[0] not in fv(e.off) and p_isconst(R) and 0 <= p_cval(R) <= e.n - n: return ("same", R)
            return s.zdis(off, n, e, g)
        # R currently = off - (A + sum c v); add back
        for v in vs: R = p_add(R, p_mul(cs[v], p_atom(v)))
        order = sorted(vs, key=lambda v: -max([p_range(cs[v])[1]]))
        K = {v: k for v, k in e.vars}
        q = {}; cond = []
        for idx, v in enumerate(order):
            c = cs[v]
            neg_ = p_range(c)[1] < 0 or (p_range(c)[0] < 0 and p_isconst(c))
            dv = p_scale(c, -1) if neg_ else c
            lead = max(dv, key=lambda m: (len(m), [t.id for t in m]))
            lc = dv[lead]
            qq = {}
            ch = True; it = 0
            while ch and it < 20:
                ch = False; it += 1
                for m, k in list(R.items()):
                    l = list(m); ok = True
                    for a in lead:
                        if a in l: l.remove(a)
                        else: ok = False; break
                    if not ok: continue
                    if lead == () and m == (): t = k // lc if p_isconst(dv) else 0
                    else:
                        if k % lc and not p_isconst(dv): continue
                        t = k // lc if k % lc == 0 else 0
                    if t == 0: continue
                    mon = {tuple(l): t}
                    qq = p_add(qq, mon); R = p_add(R, p_mul(mon, dv), -1); ch = True
                    break
            if neg_:
                # offset decreases with v: v = -q ; adjust so that remainder is in range
                qq = p_scale(qq, -1)
                if p_isconst(R) and p_isconst(dv) and p_cval(R) > 0 and not s.nonneg(p_add(p_add(elen, R, -1), p_const(n), -1)):
                    pass
            Kp = ipoly(K[v])
            lo_ok = s.nonneg(qq, g); hi_ok = s.nonneg(p_add(p_add(Kp, qq, -1), p_const(-1)), g)
            qt = p_term(qq)
            c1 = TRUE if (lo_ok and hi_ok) else ult(qt, z64(K[v]))
            if idx > 0 and c1 is not TRUE:
                # inner index must be provably inside its range, otherwise the decomposition is ambiguous
                if not s.prove(g, c1, 1500): return s.zdis(off, n, e, g)
                c1 = TRUE
            cond.append(c1)
            q[v] = trunc(qt, v.w) if v.w < 64 else qt
        if s.nonneg(R, g) and s.nonneg(p_add(p_add(elen, R, -1), p_const(n), -1), g):
            cnd = mkand(*cond)
            if cnd is not TRUE and s.prove(g, cnd, 1500): cnd = TRUE
            elif cnd is not TRUE and s.unsat(mkand(g, cnd), 1500): return ("no",)
            return ("in", q, R, cnd)
        if p_isconst(R):
            r = p_cval(R)
            # gap between elements
            st = cs[order[-1]]
            if r >= 0 and s.nonneg(p_add(p_const(r), elen, -1)) and s.nonneg(p_add(p_add(st, p_const(-r)), p_const(-n)), g): return ("no",)
            if p_isconst(elen) and p_isconst(st):
                # the range crosses the border of an element: read both sides of it separately
                c = p_cval(elen) - r if 0 <= r < p_cval(elen) else p_cval(st) - r
                if 0 < c < n: return ("cut", c)
        return s.zdis(off, n, e, g)
    def alone(s, node, e, off, n, g):
        """no other write of the same loop puts something else there"""
        nd = node.prev
        while nd.e is not None:
            x = nd.e
            if x.tag == e.tag and x.vars and not (x.v is e.v and x.off is e.off and x.n == e.n) and (x.k not in ("W", "F", "C", "S") or s.match(off, n, x, g)[0] != "no"): return False
            if x.k == "M": return False
            nd = nd.prev
        return True
    def zdis(s, off, n, e, g):
        elen = ipoly(e.n) if isinstance(e.n, T) else p_const(e.n)
        fs = [mkand(ult(z64(v), z64(K))) for v, K in e.vars]
        gg = mkand(g, e.g, *fs)
        R = cen(p_add(mpoly(off), mpoly(e.off), -1))
        if s.nonneg(p_add(R, elen, -1), gg) or s.nonneg(p_add(p_scale(R, -1), p_const(n), -1), gg): return ("no",)
        if p_isconst(elen):
            d = sub(off, e.off)
            ov = ult(add(d, c64(n - 1)), c64(p_cval(elen) + n - 1))
            if s.unsat(mkand(gg, ov), 1500): return ("no",)
        return ("may", {}, {}, TRUE)
    def value(s, e, R, n, g, q):
        if e.k == "W":
            v = e.v
            if not isinstance(v, T):
                if p_isconst(R) and p_cval(R) == 0 and n == 8:
                    return psubst(v, q) if q else v
                v = s.ptrint(v)
            if q: v = subst(v, q)
            if p_isconst(R): return extract(v, 8 * p_cval(R), 8 * n)
            t = p_term(R)
            return trunc(lshr(v, mul(zext(trunc(t, 16), v.w) if v.w > 16 else trunc(t, v.w), const(8, v.w))), 8 * n)
        if e.k == "F":
            b = subst(e.v, q) if q else e.v
            return cat([b] * n)
        if e.k == "C":
            node, soff = e.v
            if not q:
                return s.rd(node, canon64(add(soff, p_term(R))), n, g, 1)
            # read with the generic index, then instantiate
            ren = {}
            old = s.iters
            v = s.rd(node, canon64(add(soff, p_term(R))), n, e.g, 1)
            return vsubst(v, q)
        raise Unsupported("value of " + e.k)
    def base(s, obj, off, n, g):
        if obj.kind == "zero": return const(0, 8 * n)
        if obj.kind == "const":
            if isc(off) and cv(off) + n <= len(obj.data): return const(int.from_bytes(obj.data[cv(off):cv(off) + n], "little"), 8 * n)
            return init(obj.name, off, 8 * n)
        if obj.kind == "undef":
            return uf("undef:" + obj.name, 8 * n, off)
        return init(obj.name, off, 8 * n)
    def bytesof(s, v): return v if isinstance(v, T) else s.ptrint(v)
    def ptrint(s, p):
        if isinstance(p, T): return p
        if isinstance(p, PSel): return ite(p.c, s.ptrint(p.a), s.ptrint(p.b))
        if p.obj is s.heap: return p.off
        return add(uf("addr:" + p.obj.name, 64), p.off)
    def content(s, obj, off, ln, g, node=None):
        """bytes [off,off+ln) as a canonical list of pieces: T (bytes) or ('sl',name,off,len)"""
        node = node or obj.head
        out = []
        end = p_add(mpoly(off), ipoly(ln))
        pos = mpoly(off)
        it = 0
        while not (pos == end):
            it += 1
            if it > 600: raise Unsupported("content")
            left = p_add(end, pos, -1)
            if p_isconst(left) and 0 < p_cval(left) <= 256:
                n = p_cval(left)
                out.append(("b", s.bytesof(s.rd(node, p_term(pos), n, g, 0)))); break
            r = s.cover(node, pos, left, g)
            if r is None:
                # not expressible: a slice of the object as it is at this point (the node is its identity)
                out.append(("sl", s.memname(obj, node), pos, left)); break
            pc, ln1 = r
            out += pc
            pos = p_add(pos, ln1)
        return norm_pieces(out)
    def memname(s, obj, node):
        k = ("mem", obj.name, id(node))
        if k not in s.memref: s.memref[k] = ("mem:%s#%d" % (obj.name, len(s.memref)), node)
        return s.memref[k][0]
    def cover(s, node, pos, left, g):
        """find the entry that provides the bytes starting at pos and the length it covers"""
        lim = left
        while True:
            e = node.e
            if e is None:
                o = node.obj
                if o.kind == "zero": return [("fill", 0, p_key(lim), lim)], lim
                if o.kind == "const":
                    p = p_cval(pos)
                    if p_isconst(pos) and p_isconst(lim):
                        return [("b", const(int.from_bytes(o.data[p:p + p_cval(lim)], "little"), 8 * p_cval(lim)))], lim
                return [("sl", o.name if o.kind != "undef" else "undef:" + o.name, pos, lim)], lim
            if e.k == "P":
                if s.nonneg(p_add(p_add(pos, mpoly(e.off), -1), ipoly(e.n), -1), g) or s.nonneg(p_add(p_add(mpoly(e.off), pos, -1), lim, -1), g): node = node.prev; continue
                return None
            if e.k == "M":
                # only objects not modified in the loop may be read in bulk
                if e.x.unmodified(node.obj, pos, lim, g): node = node.prev; continue
                if e.x.discover: return [("b", fresh("blk", 8))], lim
                return None
            if e.vars:
                if e.k in ("S", "A"): return None
                if e.g is not TRUE and s.gi(g, e.g) != 1:
                    m = s.match(p_term(pos), 1, e, g)
                    if m[0] != "no": return None
                # entry of a family starting exactly here?
                m = s.match(p_term(pos), 1, e, g)
                elen = ipoly(e.n) if isinstance(e.n, T) else p_const(e.n)
                if m[0] == "no":
                    # must not start inside (pos,pos+lim): require whole range disjoint
                    if s.famdis(e, pos, lim, g): node = node.prev; continue
                    if len(e.vars) == 1 and e.g is TRUE:
                        # region ends before the family starts?
                        v, K = e.vars[0]
                        st = mpoly(subst(e.off, {v: const(0, v.w)}))
                        d = p_add(st, pos, -1)
                        if s.nonneg(d, g) and s.nonneg(p_add(lim, d, -1), g): lim = d; node = node.prev; continue
                    return None
                if m[0] != "in": return None
                _, q, R, cnd = m
                if cnd is not TRUE: return None
                rem = p_add(subst_p(elen, q), R, -1)
                # whole family read sequentially?
                if len(e.vars) == 1 and not R:
                    v, K = e.vars[0]
                    c = coef_of(mpoly(e.off), v)
                    if c == elen and isc(q[v]) and cv(q[v]) == 0:
                        tot = p_mul(elen, ipoly(K))
                        if s.nonneg(p_add(lim, tot, -1), g):
                            sub_ = s.piece(e, {}, elen, g)
                            if sub_ is None: return None
                            return [("fam", v, K, tuple(sub_), e.g)], tot
                if not s.nonneg(p_add(lim, rem, -1), g): rem = lim
                if p_isconst(rem) and p_cval(rem) <= 256:
                    return [("b", s.bytesof(s.rd(node, p_term(pos), p_cval(rem), g, 0)))], rem
                return None
            elen = ipoly(e.n) if isinstance(e.n, T) else p_const(e.n)
            if mkand(g, e.g) is FALSE: node = node.prev; continue
            R = p_add(pos, mpoly(e.off), -1)          # pos - eoff
            if s.nonneg(p_add(R, elen, -1), g): node = node.prev; continue         # entry ends before pos
            if s.nonneg(R, g) and (not s.nonneg(p_add(R, elen, -1), g)):
                if not p_key(R) or s.nonneg(p_add(p_add(elen, R, -1), p_const(-1)), g) or not R:
                    if s.gi(g, e.g) == 0: node = node.prev; continue
                    if s.gi(g, e.g) != 1: return None
                    rem = p_add(elen, R, -1)
                    if not s.nonneg(p_add(lim, rem, -1), g):
                        if s.nonneg(p_add(rem, lim, -1), g): rem = lim
                        else: return None
                    if e.k == "W":
                        if not p_isconst(R): return None
                        v = s.bytesof(e.v)
                        return [("b", extract(v, 8 * p_cval(R), 8 * p_cval(rem)))], rem
                    if e.k == "F":
                        return [("fill", e.v, p_key(rem), rem)], rem
                    if e.k == "C":
                        nd, so = e.v
                        pcs = s.content(nd.obj, p_term(p_add(mpoly(so), R)), p_term(rem), g, nd)
                        return pcs, rem
                return None
            if s.nonneg(p_scale(R, -1), g):
                d = p_scale(R, -1)                   # entry starts d after pos
                if s.nonneg(p_add(d, lim, -1), g): node = node.prev; continue
                if s.gi(g, e.g) == 0: node = node.prev; continue
                if s.nonneg(p_add(lim, d, -1), g): lim = d; node = node.prev; continue
            return None
    def piece(s, e, q, elen, g):
        if e.k == "W": return [("b", s.bytesof(e.v))]
        if e.k == "C":
            nd, so = e.v
            return s.content(nd.obj, so, p_term(elen), e.g, nd)
        return None
    def famdis(s, e, pos, lim, g):
        fs = mkand(g, e.g, *[ult(z64(v), z64(K)) for v, K in e.vars])
        elen = ipoly(e.n) if isinstance(e.n, T) else p_const(e.n)
        eo = mpoly(e.off)
        return s.nonneg(p_add(p_add(pos, eo, -1), elen, -1), fs) or s.nonneg(p_add(p_add(eo, pos, -1), lim, -1), fs)
    # -------------------------------------------------------------- obligations
    def oblige(s, kind, loc, g, goal, inst=()):
        if s.quiet: return
        if goal is TRUE: ok = True
        else: ok = s.prove(g, goal, 4000, inst)
        s.obl.append((kind, loc, ok, g, goal))
        return ok
    def access(s, p, n, g, what, loc):
        """bounds obligation; n polynomial"""
        if s.quiet: return
        for c, q in ptrs(p, g):
            if q.obj is s.heap:
                s.obl.append(("nonnull", loc, s.prove(c, neg(eq(q.off, c64(0))), 4000), c, neg(eq(q.off, c64(0)))))
                continue
            if s.unsat_quick(c): continue
            off = mpoly(q.off); size = ipoly(q.obj.size)
            if what == "write" and q.obj.const: s.obl.append(("const-write", loc, False, c, FALSE))
            ok = s.nonneg(off, c) and s.nonneg(p_add(p_add(size, off, -1), n, -1), c)
            goal = TRUE
            if not ok:
                nn = p_term(n)
                goal = mkor(eq(nn, c64(0)), mkand(ule(q.off, q.obj.size), ule(nn, sub(q.obj.size, q.off))))
                ok = s.prove(c, goal, 4000) or s.annot is not None and s.prove(c, goal, 4000, s.annot.wits(s))
                for m in (30, 50, 70, 150): ok = ok or s.prove(s.slim(c, m), goal, 6000)
            s.obl.append(("bounds-" + what, loc + " " + q.obj.name, ok, c, goal))
    def slim(s, g, most=70):
        """a weaker condition without the large parts, which often only slow the solver down"""
        return mkand(*[x for x in conj(g) if len(list(subterms(x))) <= most])
    def unsat_quick(s, c): return c is FALSE
    # -------------------------------------------------------------- values
    def store(s, p, v, n, g, loc):
        s.access(p, p_const(n), g, "write", loc)
        for c, q in ptrs(p, g):
            if s.annot is not None and not s.quiet: s.annot.put(s, q, v, n, c, loc)
            s.append(q.obj, E("W", c, canon64(q.off), n, v, loc=loc))
    def load(s, p, n, g, loc):
        s.access(p, p_const(n), g, "read", loc)
        r = None
        for c, q in reversed(ptrs(p, g)):
            v = s.read(q.obj, q.off, n, c)
            r = v if r is None else vite(strip(c, g), v, r)
        return r
    def copy(s, d, sp, n, g, loc):
        """n: T64"""
        if not isc(n): n = fixed(g, n)
        pn = ipoly(n)
        if isc(n) and cv(n) == 0: return
        s.access(sp, pn, g, "read", loc); s.access(d, pn, g, "write", loc)
        if isc(n) and cv(n) <= 64:
            k = cv(n)
            v = None
            for c, q in reversed(ptrs(sp, g)):
                x = s.read(q.obj, q.off, k, c)
                v = x if v is None else vite(strip(c, g), x, v)
            for c, q in ptrs(d, g): s.append(q.obj, E("W", c, canon64(q.off), k, v, loc=loc))
            return
        for c, q in ptrs(d, g):
            for c2, q2 in ptrs(sp, c):
                s.append(q.obj, E("C", c2, canon64(q.off), n, (q2.obj.head, canon64(q2.off)), loc=loc))
    def fill(s, d, b, n, g, loc):
        pn = ipoly(n)
        if isc(n) and cv(n) == 0: return
        s.access(d, pn, g, "write", loc)
        for c, q in ptrs(d, g):
            if isc(n) and cv(n) <= 64: s.append(q.obj, E("W", c, canon64(q.off), cv(n), cat([b] * cv(n)), loc=loc))
            else: s.append(q.obj, E("F", c, canon64(q.off), n, b, loc=loc))
    def havoc(s, d, n, g, tag, loc=""):
        """n bytes become unknown; the unknown content is named by tag and the iteration"""
        if isc(n) and cv(n) <= 512:
            v = s.res(tag, 8 * cv(n))
            for c, q in ptrs(d, g): s.append(q.obj, E("W", c, canon64(q.off), cv(n), v, loc=loc))
            return v
        o = s.objs.get("hv:" + tag) or s.obj("hv:" + tag, BIG)
        so = c64(0)
        for i, k in enumerate(s.iters): so = add(so, mul(z64(k), c64(1 << (32 + 8 * i))))
        for c, q in ptrs(d, g): s.append(q.obj, E("C", c, canon64(q.off), n, (o.head, so), loc=loc))
    def res(s, tag, w): return uf(tag, w, *[z64(x) for x in s.iters])
    def event(s, k, g, a, r=None, loc=""):
        e = Ev(k, g, a, r, loc=loc, it=tuple(s.iters))
        s.events.append(e)
        return e
    # -------------------------------------------------------------- functions
    def global_(s, mod, name):
        if name in s.globs: return s.globs[name]
        t, v, isconst = mod.globals.get(name, (None, None, False)) if mod else (None, None, False)
        if v is None and name in s.funcs or t is None: o = s.obj("fn:" + name, 0)
        elif v is None: o = s.obj("g:" + name, ir.sizeof(mod, t) if t.k != "opaque" else BIG)
        else:
            b = ir.constbytes(mod, t, v)
            if isconst and b is not None: o = s.obj("g:" + name, len(b), kind="const", data=b, const=True)
            else: o = s.obj("g:" + name, ir.sizeof(mod, t))
        s.globs[name] = o
        return o
    def ev(s, fr, v, ty=None):
        k = v[0]
        if k == "reg":
            r = fr.regs.get(v[1])
            if r is None: raise Unsupported("register %s undefined in %s" % (v[1], fr.fn.name))
            return r
        if k == "int": return const(v[1], ty.w) if ty.w != 1 else boolc(v[1] & 1)
        if k == "null": return Ptr(s.heap, c64(0))
        if k == "undef":
            if ty.k == "ptr": return Ptr(s.heap, uf("undefptr:" + fr.path, 64))
            return uf("undefval:" + fr.path, ty.w) if ty.w != 1 else uf("undefval:" + fr.path, 0)
        if k == "glob": return Ptr(s.global_(fr.mod, v[1]), c64(0))
        if k == "cgep":
            b = s.ev(fr, v[2]); off = s.gepoff(fr, v[1], [(ir.Ty("int", w=64), x) for x in v[3]])
            return padd_(b, off)
        raise Unsupported("operand " + k)
    def gepoff(s, fr, t, idx):
        m = fr.mod
        off = c64(0); first = True
        for it, iv in idx:
            if first:
                x = s.ev(fr, iv, it); x = x if x.w == 64 else sext(x, 64)
                off = add(off, mul(x, c64(ir.sizeof(m, t)))); first = False; continue
            t = ir.resolve(m, t)
            if t.k == "struct":
                o, t = ir.fieldoff(m, t, iv[1]); off = add(off, c64(o))
            elif t.k in ("arr", "vec"):
                x = s.ev(fr, iv, it); x = x if x.w == 64 else sext(x, 64)
                t = t.e; off = add(off, mul(x, c64(ir.sizeof(m, t))))
            else: raise Unsupported("gep")
        return off
    def call(s, name, args, g, mod=None, path=""):
        mf = s.funcs.get(name)
        if mod is not None and name in mod.funcs: mf = (mod, mod.funcs[name])
        if mf is None: raise Unsupported("no body for " + name)
        m, f = mf
        if f.name in s.stack: raise Unsupported("recursion in " + name)
        if len(s.stack) > 12: raise Unsupported("call depth")
        s.inlined.add(f.name)
        fr = Frame(); fr.fn = f; fr.mod = m; fr.regs = {}; fr.path = path + "/" + name; fr.rets = []; fr.locals = []
        for (pn, pt, pa), a in zip(f.params, args): fr.regs[pn] = a
        fr.gend = {}; fr.lossy = False; fr.prune = None
        s.stack.append(f.name)
        try: s.region(fr, set(f.rpo), f.entry, [(g, {})], None)
        finally: s.stack.pop()
        if not fr.rets:
            return None, FALSE
        gs = [r[0] for r in fr.rets]
        gout = mkor(*gs)
        if f.ret.k == "void": return None, gout
        return merge(fr.rets), gout
    def region(s, fr, body, head, inrecs, L):
        f = fr.fn
        kids = [l for l in f.looplist if l.parent is L and l.head in body and l is not L]
        inkid = {}
        for l in kids:
            for b in l.body: inkid[b] = l
        pend = {head: list(inrecs)}
        exits = {}; latch = []
        def push(frm, to, g, pv):
            if g is FALSE: return
            if to == head and L is not None: latch.append((g, pv))
            elif to in body: pend.setdefault(to, []).append((g, pv))
            else: exits.setdefault(to, []).append((g, pv))
        for b in f.rpo:
            if b not in body or b not in pend: continue
            if b in inkid and not (L is not None and b == head):
                l = inkid[b]
                if b != l.head: continue
                for to, recs in s.loop(fr, l, pend[b]).items():
                    for g, pv in recs: push(None, to, g, pv)
                continue
            s.block(fr, b, pend[b], push, rejoin(f, L, body, head, b))
        return exits, latch
    def block(s, fr, b, recs, push, dm):
        recs = [r for r in recs if r[0] is not FALSE]
        if not recs: return
        g = mkor(*[r[0] for r in recs])
        if g is FALSE: return
        # every path from the dominator passes here
        if len(recs) > 1 and dm in fr.gend and not fr.lossy: g = fr.gend[dm]
        names = recs[0][1].keys()
        for nm in names: fr.regs[nm] = merge([(r[0], r[1][nm]) for r in recs])
        blk = fr.fn.blocks[b]
        for ix, ins in enumerate(blk.ins):
            if ins.op == "phi": continue
            if ins.op in ("br", "switch", "ret", "unreachable"):
                fr.gend[b] = g
                s.term(fr, b, ins, g, push); return
            g0 = g
            g = s.ins(fr, b, ix, ins, g)
            if g is not g0: fr.lossy = True
            if g is FALSE: return
    def edge(s, fr, frm, to, g, push):
        if g is FALSE: return
        pv = {}
        for i in fr.fn.blocks[to].ins:
            if i.op != "phi": break
            for v, l in i.a:
                if l == frm:
                    x = s.ev(fr, v, i.ty)
                    pv[i.res] = vunder(g, x); break
        push(frm, to, g, pv)
    def term(s, fr, b, ins, g, push):
        if ins.op == "ret":
            fr.rets.append((g, None if ins.a is None else s.ev(fr, ins.a, ins.ty)))
        elif ins.op == "br":
            if ins.a[0] is None: s.edge(fr, b, ins.a[1], g, push); return
            c = s.ev(fr, ins.a[0], ir.Ty("int", w=1))
            c = s.decide(c, g)
            if ins.a[1] == ins.a[2]: s.edge(fr, b, ins.a[1], g, push); return
            if fr.prune is not None and b in fr.prune[1]:
                # the iteration is known to be complete, or known to leave the loop
                out = [t for t in ins.a[1:3] if t in fr.prune[2]]
                if len(out) == 1:
                    t = ins.a[1] if out[0] == ins.a[2] else ins.a[2]
                    c = c if t == ins.a[1] else neg(c)
                    if conj(g) <= fr.prune[4] | fr.prune[3]: fr.prune[3].update(conj(c) - conj(g))
                    s.edge(fr, b, t, mkand(g, c), push); return
            s.edge(fr, b, ins.a[1], mkand(g, c), push)
            s.edge(fr, b, ins.a[2], mkand(g, neg(c)), push)
        elif ins.op == "switch":
            v = s.ev(fr, ins.a[0], ins.ty)
            rest = g; tg = {}
            for cvl, l in ins.a[2]:
                c = s.decide(eq(v, const(cvl[1], ins.ty.w)), rest)
                tg[l] = mkor(tg.get(l, FALSE), mkand(rest, c))
                rest = mkand(rest, neg(c))
            tg[ins.a[1]] = mkor(tg.get(ins.a[1], FALSE), rest)
            for l, gg in tg.items(): s.edge(fr, b, l, gg, push)
    def decide(s, c, g):
        if isc(c): return c
        cg = conj(g)
        if conj(c) <= cg: return TRUE
        if mkand(g, c) is FALSE: return FALSE
        if mkand(g, neg(c)) is FALSE: return TRUE
        lits = cg
        if any(x.op in ("ult", "slt", "eq", "not") for x in lits) or s.facts or True:
            if s.unsat(mkand(g, c), 500): return FALSE
            if s.unsat(mkand(g, neg(c)), 500): return TRUE
        return c
    def loc(s, fr, ins): return "%s:%d" % (fr.fn.name, ins.line)
    def ins(s, fr, b, ix, ins, g):
        o = ins.op; R = fr.regs
        if o in ir.BIN:
            a, c = s.ev(fr, ins.a[0], ins.ty), s.ev(fr, ins.a[1], ins.ty)
            if ins.ty.w == 1:
                R[ins.res] = {"and": lambda: mkand(a, c), "or": lambda: mkor(a, c), "xor": lambda: neg(eq(a, c))}[o](); return g
            if not isinstance(a, T): a = s.ptrint(a)
            if not isinstance(c, T): c = s.ptrint(c)
            if o in ("udiv", "urem", "sdiv", "srem"): s.oblige("div-by-zero", s.loc(fr, ins), g, neg(eq(c, const(0, c.w))))
            if o in ("shl", "lshr", "ashr") and not isc(c): s.oblige("shift", s.loc(fr, ins), g, ult(c, const(c.w, c.w)))
            if o in ("add", "sub", "mul") and " nsw " in ins.txt and not s.quiet: s.signed(o, a, c, g, s.loc(fr, ins))
            R[ins.res] = {"add": add, "sub": sub, "mul": mul, "udiv": udiv, "urem": urem, "sdiv": sdiv, "srem": srem, "and": bvand, "or": bvor, "xor": bvxor,
                          "shl": shl, "lshr": lshr, "ashr": ashr}[o](a, c)
        elif o == "icmp":
            a, c = s.ev(fr, ins.a[1], ins.ty), s.ev(fr, ins.a[2], ins.ty)
            R[ins.res] = s.icmp(ins.a[0], a, c, g)
        elif o in ("zext", "sext", "trunc"):
            t, v = ins.a; x = s.ev(fr, v, t)
            if t.w == 1: R[ins.res] = b2i(x, ins.ty.w) if o == "zext" else neg_b2i(x, ins.ty.w)
            elif ins.ty.w == 1: R[ins.res] = eq(trunc(x, 1), const(1, 1))
            else: R[ins.res] = {"zext": zext, "sext": sext, "trunc": trunc}[o](x, ins.ty.w)
        elif o == "ptrtoint": R[ins.res] = s.ptrint(s.ev(fr, ins.a[1], ins.a[0]))
        elif o == "inttoptr": R[ins.res] = Ptr(s.heap, s.ev(fr, ins.a[1], ins.a[0]))
        elif o in ("bitcast", "freeze"): R[ins.res] = s.ev(fr, ins.a[1], ins.a[0])
        elif o == "select":
            c = s.ev(fr, ins.a[0], ir.Ty("int", w=1)); R[ins.res] = vite(c, s.ev(fr, ins.a[1], ins.ty), s.ev(fr, ins.a[2], ins.ty))
        elif o == "alloca":
            sz = c64(ir.sizeof(fr.mod, ins.ty))
            if ins.a[0] is not None:
                n = s.ev(fr, ins.a[0][1], ins.a[0][0]); n = zext(n, 64) if n.w < 64 else n
                sz = mul(n, sz)
                if not isc(sz):
                    s.oblige("vla-size", s.loc(fr, ins), g, mkand(ule(sz, c64(1 << 26))))
            nm = "%s:%s" % (fr.path, ins.res)
            ob = s.obj(nm, sz, kind="undef"); fr.locals.append(ob)
            R[ins.res] = Ptr(ob, c64(0))
        elif o == "load":
            n = 1 if ins.ty.k == "int" and ins.ty.w == 1 else ir.sizeof(fr.mod, ins.ty)
            v = s.load(s.ev(fr, ins.a[0]), n, g, s.loc(fr, ins))
            if ins.ty.k == "ptr": v = v if not isinstance(v, T) else asptr(s, v)
            elif ins.ty.k == "int":
                v = s.bytesof(v)
                v = trunc(v, ins.ty.w) if ins.ty.w != 1 else eq(trunc(v, 1), const(1, 1))
            R[ins.res] = v
        elif o == "store":
            v = s.ev(fr, ins.a[0], ins.ty); n = ir.sizeof(fr.mod, ins.ty)
            if ins.ty.k == "int":
                if ins.ty.w == 1: v = b2i(v, 8)
                elif v.w != 8 * n: v = zext(v, 8 * n)
            s.store(s.ev(fr, ins.a[1]), v, n, g, s.loc(fr, ins))
        elif o == "getelementptr":
            R[ins.res] = padd_(s.ev(fr, ins.a[0]), s.gepoff(fr, ins.ty, ins.a[1]))
        elif o == "call": return s.docall(fr, b, ix, ins, g)
        else: raise Unsupported("instruction " + ins.txt)
        return g
    def signed(s, o, a, c, g, loc):
        w = a.w; x, y = srange(a), srange(c); h = 1 << (w - 1)
        lo, hi = {"add": (x[0] + y[0], x[1] + y[1]), "sub": (x[0] - y[1], x[1] - y[0]),
                  "mul": (min(i * j for i in x for j in y), max(i * j for i in x for j in y))}[o]
        ok = -h <= lo and hi < h
        goal = TRUE
        if not ok:
            W = 2 * w
            f = {"add": add, "sub": sub, "mul": mul}[o]
            goal = eq(sext(f(a, c), W), f(sext(a, W), sext(c, W)))
            ok = s.prove(g, goal, 2000)
        s.obl.append(("signed-overflow", loc, ok, g, goal))
    def icmp(s, p, a, c, g):
        if not isinstance(a, T) or not isinstance(c, T):
            return s.pcmp(p, a, c)
        if a.w == 0:
            r = eq(a, c)
            return r if p == "eq" else neg(r)
        if p == "eq": return eq(a, c)
        if p == "ne": return neg(eq(a, c))
        return {"ult": ult, "ule": ule, "slt": slt, "sle": sle, "ugt": lambda x, y: ult(y, x), "uge": lambda x, y: ule(y, x), "sgt": lambda x, y: slt(y, x), "sge": lambda x, y: sle(y, x)}[p](a, c)
    def pcmp(s, p, a, c):
        if isinstance(a, PSel): return ite(a.c, s.pcmp(p, a.a, c), s.pcmp(p, a.b, c))
        if isinstance(c, PSel): return ite(c.c, s.pcmp(p, a, c.a), s.pcmp(p, a, c.b))
        a = a if not isinstance(a, T) else Ptr(s.heap, a); c = c if not isinstance(c, T) else Ptr(s.heap, c)
        if a.obj is c.obj: return s.icmp(p, a.off, c.off, TRUE)
        for x, y in ((a, c), (c, a)):
            if x.obj is s.heap and isc(x.off) and cv(x.off) == 0 and p in ("eq", "ne"): return boolc(p == "ne")
        if p in ("eq", "ne"): return boolc(p == "ne")
        return s.icmp(p, s.ptrint(a), s.ptrint(c), TRUE)
    def docall(s, fr, b, ix, ins, g):
        callee, args = ins.a
        if callee[0] != "glob": raise Unsupported("indirect call")
        n = callee[1]
        loc = s.loc(fr, ins); tag = "%s:%s.%d" % (fr.path, b, ix)
        if n.startswith("llvm."):
            if n.startswith("llvm.memcpy") or n.startswith("llvm.memmove"):
                d, sp, k = [s.ev(fr, v, t) for t, v, a in args[:3]]
                s.copy(d, sp, z64(k), g, loc)
            elif n.startswith("llvm.memset"):
                d, v, k = [s.ev(fr, v, t) for t, v, a in args[:3]]
                s.fill(d, v, z64(k), g, loc)
            elif n.startswith("llvm.stacksave"): fr.regs[ins.res] = Ptr(s.heap, uf("sp:" + tag, 64))
            elif n.startswith(("llvm.stackrestore", "llvm.va_", "llvm.lifetime")): pass
            elif n.startswith("llvm.bswap"): fr.regs[ins.res] = bswap(s.ev(fr, args[0][1], args[0][0]))
            else: raise Unsupported(n)
            return g
        av = [s.ev(fr, v, t) for t, v, a in args]
        av = [vunder(g, x) for x in av]
        if n in s.contracts:
            r, g2 = s.contracts[n](s, av, g, loc, tag)
        elif n in fr.mod.funcs or (n in s.funcs and n not in s.ext):
            # by-value structure arguments are copied by the callee's frame
            for i, (t, v, a) in enumerate(args):
                if "byval" in a:
                    sz = ir.sizeof(fr.mod, a["byval"])
                    ob = s.obj(tag + ":byval%d" % i, sz, kind="undef"); p = Ptr(ob, c64(0))
                    s.copy(p, av[i], c64(sz), g, loc); av[i] = p
            r, g2 = s.call(n, av, g, fr.mod, fr.path + "@" + "%s.%d" % (b, ix))
            if g2 is not g and s.prove(g, g2, 1000): g2 = g
        elif n in s.ext:
            r = s.ext[n](s, av, g, loc, tag)
            g2 = g
            if isinstance(r, tuple): r, g2 = r
        else: raise Unsupported("external function " + n)
        if ins.res is not None:
            if r is None: r = s.res(tag, ins.ty.w) if ins.ty.k == "int" else Ptr(s.heap, s.res(tag, 64))
            fr.regs[ins.res] = r
        return g2
    # -------------------------------------------------------------- loops
    def loop(s, fr, L, recs):
        from loops import Loop
        return Loop(s, fr, L, recs).run()

class Frame: pass
def rejoin(f, L, body, head, b):
    """immediate dominator of b inside the region if b is on every path from it to the end of the region"""
    if b == head: return None
    if not hasattr(f, "rj"): f.rj = {}
    k = L.head if L is not None else None
    if k not in f.rj:
        pd = {}
        for n in reversed([x for x in f.rpo if x in body]):
            ss = []
            for t in f.succ[n]:
                if t == head and L is not None: ss.append(None)
                elif t not in body: ss.append(None)
                elif f.ix[t] <= f.ix[n]:
                    # back edge of an inner loop: continues at the exits of that loop
                    ss += [x if x in body and x != head else None for _, x in f.loops[t].exits]
                else: ss.append(t)
            r = None
            for t in ss:
                q = pd.get(t, frozenset()) if t is not None else frozenset()
                r = q if r is None else r & q
            pd[n] = frozenset({n}) | (r or frozenset())
        f.rj[k] = pd
    d = f.idom[b]
    return d if b in f.rj[k].get(d, ()) else None
def compact_atom(off, j):
    """the count over [0,j) that an offset is linear in, with its coefficient"""
    r = None
    for m, k in mpoly(off).items():
        if any(j in fv(a) for a in m):
            if len(m) != 1 or r is not None: return None
            a = m[0]
            while a.op == "zext": a = a.args[0]
            if a.op != "count" or canon64(z64(a.args[1])) is not canon64(z64(j)) or j in fv(a.args[2]): return None
            r = (a, k)
    return r
def neg_b2i(c, w): return ite(c, const(-1, w), const(0, w))
def asptr(s, v):
    # an integer loaded where a pointer is expected
    if v.op == "ite":
        pass
    return Ptr(s.heap, v)
def padd_(p, off):
    if isinstance(p, PSel): return PSel(p.c, padd_(p.a, off), padd_(p.b, off))
    return Ptr(p.obj, add(p.off, off))
def ptrs(p, g):
    if isinstance(p, PSel):
        return ptrs(p.a, mkand(g, p.c)) + ptrs(p.b, mkand(g, neg(p.c)))
    if isinstance(p, T): raise Unsupported("integer used as pointer")
    return [] if g is FALSE else [(g, p)]
def vite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if isinstance(a, T) and isinstance(b, T): return ite(c, a, b)
    if a is b: return a
    if isinstance(a, T) or isinstance(b, T):
        o = (a if not isinstance(a, T) else b)
        while isinstance(o, PSel): o = o.a
        hp = HEAP[0]
        if isinstance(a, T): a = Ptr(hp, a)
        if isinstance(b, T): b = Ptr(hp, b)
    if isinstance(a, Ptr) and isinstance(b, Ptr) and a.obj is b.obj: return Ptr(a.obj, ite(c, a.off, b.off))
    return PSel(c, a, b)
HEAP = [None]
def psubst(p, q):
    if isinstance(p, PSel): return vite(subst(p.c, q), psubst(p.a, q), psubst(p.b, q))
    return Ptr(p.obj, subst(p.off, q))
def vsubst(v, q):
    if v is None: return None
    return subst(v, q) if isinstance(v, T) else psubst(v, q)
def strip(c, g):
    """c without the conjuncts already in g"""
    return mkand(*(conj(c) - conj(g)))
def merge(recs):
    if len(recs) == 1: return recs[0][1]
    v0 = recs[0][1]
    if all(r[1] is v0 for r in recs): return v0
    if v0 is None: return None
    # group equal values
    grp = []
    for g, v in recs:
        for x in grp:
            if x[1] is v or (isinstance(v, Ptr) and isinstance(x[1], Ptr) and v.obj is x[1].obj and v.off is x[1].off): x[0] = mkor(x[0], g); break
        else: grp.append([g, v])
    if len(grp) == 1: return grp[0][1]
    common = frozenset.intersection(*[conj(g) for g, v in grp])
    r = grp[-1][1]
    for g, v in reversed(grp[:-1]): r = vite(mkand(*(conj(g) - common)), v, r)
    return r
def vunder(g, v):
    """simplify a value under the literals of a guard"""
    if isinstance(v, PSel):
        c = conj(g)
        if conj(v.c) <= c: return vunder(g, v.a)
        if mkand(g, v.c) is FALSE: return vunder(g, v.b)
        if mkand(g, neg(v.c)) is FALSE: return vunder(g, v.a)
        return PSel(v.c, vunder(g, v.a), vunder(g, v.b))
    if isinstance(v, T) and v.op == "ite":
        if conj(v.args[0]) <= conj(g) or mkand(g, neg(v.args[0])) is FALSE: return vunder(g, v.args[1])
        if mkand(g, v.args[0]) is FALSE: return vunder(g, v.args[2])
    if isinstance(v, Ptr):
        o = vunder(g, v.off)
        return v if o is v.off else Ptr(v.obj, o)
    return v
_at = {}
def atoms(t):
    """symbols of a term: variables, memory objects, function names"""
    r = _at.get(t)
    if r is not None: return r
    out = set()
    for u in subterms(t):
        if u.op == "v": out.add(u)
        elif u.op == "init": out.add("m:" + u.args[0])
        elif u.op == "uf": out.add("u:" + u.args[0])
        elif u.w == 0 and u.op in ("pvalid", "fzero"): out.add(u)
    r = frozenset(out); _at[t] = r
    return r
def coef_of(p, v):
    c = {}
    for m, k in p.items():
        if v in m:
            l = list(m); l.remove(v); c[tuple(l)] = k
    return c
def subst_p(p, q): return mpoly(subst(p_term(p), q)) if q else p
def norm_pieces(ps):
    out = []
    for p in ps:
        if p[0] == "fill":
            b = p[1] if isinstance(p[1], int) else (cv(p[1]) if isc(p[1]) else p[1])
            if p_isconst(p[3]) and isinstance(b, int): p = ("b", const(int.from_bytes(bytes([b]) * p_cval(p[3]), "little"), 8 * p_cval(p[3])))
            else: p = ("fill", b, p[2], p[3])
        if p[0] == "sl":
            if not p[3]: continue
            if p_isconst(p[3]) and p_cval(p[3]) <= 256: p = ("b", init(p[1], p_term(p[2]), 8 * p_cval(p[3])) if not p[1].startswith("undef:") else uf(p[1], 8 * p_cval(p[3]), p_term(p[2])))
            elif out and out[-1][0] == "sl" and out[-1][1] == p[1] and p_add(out[-1][2], out[-1][3]) == p[2]:
                out[-1] = ("sl", p[1], out[-1][2], p_add(out[-1][3], p[3])); continue
        if p[0] == "b" and out and out[-1][0] == "b":
            out[-1] = ("b", cat([out[-1][1], p[1]])); continue
        out.append(p)
    return out
def fixed(g, n):
    """the constant a length is known to equal on this path, or the length itself"""
    m = {}
    for c in conj(g):
        if c.op == "eq":
            a, b = c.args
            if isc(b): m[a] = b
            elif isc(a): m[b] = a
    if not m: return n
    k = n
    while k.op == "zext" and k not in m: k = k.args[0]
    return zext(m[k], n.w) if k in m else n
def pieces_term(ps):
    """canonical hashable term for a piece list"""
    xs = []
    for p in norm_pieces(ps):
        if p[0] == "b": xs.append(mk("bytes", (p[1],), -2))
        elif p[0] == "sl": xs.append(mk("slice", (p[1], p_term(p[2]), p_term(p[3])), -2))
        elif p[0] == "fill": xs.append(mk("fill", (p[1], p_term(p[3])), -2))
        elif p[0] == "fam":
            v = p[1]
            body = pieces_term(list(p[3]))
            d = var("b!p%d" % v.w, v.w)
            xs.append(mk("famp", (subst(body, {v: d}), p[2], subst(p[4], {v: d})), -2))
    return mk("pieces", tuple(xs), -2)
def _rb_pieces(a, w):
    out = []
    for x in a:
        if x.op == "bytes" and out and out[-1].op == "bytes": out[-1] = mk("bytes", (cat([out[-1].args[0], x.args[0]]),), -2)
        elif x.op == "slice" and isc(x.args[2]) and cv(x.args[2]) == 0: pass
        else: out.append(x)
    return mk("pieces", tuple(out), -2)
REBUILD["pieces"] = _rb_pieces
def pcat(*ts):
    xs = []
    for t in ts: xs += list(t.args)
    return _rb_pieces(tuple(xs), -2)
