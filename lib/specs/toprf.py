"""Contracts of the threshold OPRF and of the secret sharing (toprf.c, mpmult.c)."""
from core import *
from specs.oprf import h2g, rejects, nofail, sha
import specs.oprf
SH = 33
def b8(name, off): return init(name, off, 8)
def idx64(i): return zext(i, 64) if i.w < 64 else i
def lagrange(index, K, idx):
    """interpolation-at-zero weight: product over the other participants of x_j/(x_j - x_i)"""
    j = var("spec_j", 64)
    xj = idx(j); same = eq(xj, index)
    num = f_prod(j, K, f_ite(same, f_const(1), fint(xj)))
    den = f_prod(j, K, f_ite(same, f_const(1), f_add(fint(xj), fint(index), -1)))
    return f_mul(num, f_inv(den))
def pidx(name): return lambda j: b8(name, mul(j, c64(SH)))
def pval(name, j, off=0): return init(name, add(mul(j, c64(SH)), c64(1 + off)), 256)
def exits(*gs):
    r = []
    for g in gs:
        for t in subterms(g):
            if t.op == "uf" and t.args[0].startswith("X:"): r.append(t)
    return r
def qf_exits(e):
    """exit iterations of the loops that can be left early"""
    r = []
    for name in list(engine.SCHEMA):
        if name.startswith("X:"): r.append(name)
    return r
# ---------------------------------------------------------------- sharing
def shares_spec(c, name, out, secretf, n, t, tagev, g=TRUE):
    """share i: index i+1 and the value at i+1 of secret + sum a_k x^k"""
    i = c.v("i", 8, 0, 254); gi = mkand(g, ult(i, n))
    x = add(i, const(1, 8)); io = mul(zext(i, 64), c64(SH))
    c.same(name + ": index of share i+1", gi, c.out(out, io, 1, gi), x)
    rs = [ev for ev in c.evs if ev.k == "random"]
    c.same(name + ": value of share i+1", gi, c.out(out, add(io, c64(1)), 32, gi), senc(poly(c, secretf, t, rs, zext(i, 64))))
def draws(c, rs, want):
    """the coefficients drawn: list of functions k -> scalar, in the order drawn"""
    if len(rs) != 1 or len(rs[0].vars) != 1: raise Unsupported("coefficients are not drawn by one loop")
    (v, K), = rs[0].vars
    return v, K, rs[0].a[0]
def poly(c, secretf, t, rs, i64, first=1):
    """secret + sum_{k<t-1} a_k x^{k+1} at x=i+1"""
    x = f_add(fint(i64), f_const(1))
    if not rs: return secretf
    v, K, val = draws(c, rs, None)
    k = var("spec_k", v.w)
    body = f_mul(fs(subst(val, {v: k})), f_pow(x, p_add(ipoly(k), p_const(first))))
    return f_add(secretf, f_sum(k, K, body))
def create_shares(ctx, only=None):
    for lo, hi in ((1, 1), (2, 255)):
        with ctx.case("create_shares, threshold %d..%d" % (lo, hi)) as c:
            n = c.v("n", 8, 1, 255); t = c.v("t", 8, lo, hi)
            s, sf = c.scalar("secret"); o = c.mem("shares", mul(zext(n, 64), c64(SH)))
            c.call("toprf_create_shares", s, n, t, o)
            rs = [ev for ev in c.evs if ev.k == "random"]
            if lo == 1: c.prove("no coefficient is drawn for threshold 1", TRUE, shape(not rs))
            else:
                v, K, val = draws(c, rs, None)
                c.same("exactly t-1 coefficients are drawn", TRUE, z64(K), sub(zext(t, 64), c64(1)))
                c.prove("every draw is unconditional", TRUE, rs[0].g)
            shares_spec(c, "sharing", o, sf, n, t, rs)
            c.frame("only the n shares are written", o, 0, mul(zext(n, 64), c64(SH)), TRUE)
            w = sum(1 for x in c.writes(s)); c.prove("the secret is not modified", TRUE, shape(w == 0))
def C04(ctx): create_shares(ctx)
# ---------------------------------------------------------------- reconstruction
def mult_case(ctx, name, fn, body):
    with ctx.case(name) as c:
        n = c.v("n", 64, 0, 255); p = c.mem("p", mul(n, c64(SH))); o = c.mem("o", 32)
        c.call(fn, n, p, o)
        body(c, n, p, o)
def weight(i, n): return lagrange(b8("p", mul(i, c64(SH))), n, pidx("p"))
def C05(ctx):
    with ctx.case("interpolation coefficient") as c:
        n = c.v("n", 64, 0, 65535); ix = c.v("ix", 8); p = c.mem("p", n); o = c.mem("o", 32)
        c.call("coeff", ix, n, p, o)
        c.same("coefficient of an index", TRUE, c.out(o), senc(lagrange(ix, n, lambda j: b8("p", j))))
        c.frame("only the coefficient is written", o, 0, 32)
    def mult(c, n, p, o):
        ok = c.ok(); c.reach("success", ok)
        i = var("spec_i", 64)
        c.same("reconstruction in the exponent", ok, c.out(o, 0, 32, ok), penc(f_sum(i, n, f_mul(weight(i, n), fp(pval("p", i))))))
        X = [x for x in set(exits(c.bad(), *[w.v for w in c.writes(o) if isinstance(w.v, T)]))]
        c.prove("failure only for a response that is invalid or vanishes", c.bad(), mkor(*[mkor(neg(pvalid(el)), fzero(f_mul(wt, fp(el)))) for el, wt in failing(c, X, n)]))
        c.prove("responses are not modified", TRUE, shape(not c.writes(p)))
    mult_case(ctx, "reconstruction in the exponent, 0..255 responses", "toprf_thresholdmult", mult)
    with ctx.case("reconstruction in the exponent, more than 255 responses") as c:
        n = c.v("n", 64, 256, 1 << 32); p = c.mem("p", mul(n, c64(SH))); o = c.mem("o", 32)
        c.call("toprf_thresholdmult", n, p, o)
        c.prove("refused", c.gout, neg(eq(c.ret, const(0, 32))))
    with ctx.case("scalar reconstruction") as c:
        n = c.v("n", 64, 0, 255); p = c.mem("p", mul(n, c64(SH))); o = c.mem("o", 32)
        c.call("dkg_reconstruct", n, p, o)
        i = var("spec_i", 64)
        c.same("scalar reconstruction", TRUE, c.out(o), senc(f_sum(i, n, f_mul(weight(i, n), fs(pval("p", i))))))
        c.frame("only the result is written", o, 0, 32)
def failing(c, X, n):
    """(element, weight) of the responses at which a loop was left early: reads the processing order from the code"""
    r = []
    for x in X:
        i = idx64(x)
        r.append((pval("p", i), weight(i, n)))
        for nm, w, aw in perms(c):
            q = idx64(uf(nm, w, trunc(i, aw) if aw < 64 else i)); r.append((pval("p", q), weight(q, n)))
    return r
def perms(c):
    """permutations the code applied to the responses: (name, result width, argument width)"""
    r = set()
    for o in c.e.objs.values():
        for w in c.writes(o):
            for y in (w.v, w.g):
                if isinstance(y, T):
                    for t in subterms(y):
                        if t.op == "uf" and t.args[0] in alg.PERM and len(t.args) == 2: r.add((t.args[0], t.w, t.args[1].w))
    return sorted(r)
def C06(ctx):
    with ctx.case("weighted evaluation, 0..65535 participants") as c:
        n = c.v("n", 16, 0, 65535); ix = c.v("self", 8); p = c.mem("p", zext(n, 64)); o = c.mem("o", SH)
        k = c.mem("k", SH); e, ef = c.element("e")
        kv = senc(f_atom(mk("fval", (var("s_k", 256),), alg.FW))); c.put(k, 1, kv)
        c.call("toprf_Evaluate", k, e, ix, p, n, o)
        ok = c.ok(); c.reach("success", ok)
        full = f_mul(f_mul(fs(kv), lagrange(ix, zext(n, 64), lambda j: b8("p", j))), ef)
        c.same("index of the share", ok, c.out(o, 0, 1, ok), init("k", c64(0), 8))
        c.same("share times coefficient times element", ok, c.out(o, 1, 32, ok), penc(full))
        c.prove("fails only if the product is the identity", c.bad(), fzero(full))
    def comb(c, n, p, o):
        ok = c.ok(); c.reach("success", ok)
        i = var("spec_i", 64)
        c.same("sum of all responses", ok, c.out(o, 0, 32, ok), penc(f_sum(i, n, fp(pval("p", i)))))
        X = list(set(exits(c.bad(), *[w.v for w in c.writes(o) if isinstance(w.v, T)])))
        c.prove("failure only for an invalid response", c.bad(), mkor(*[neg(pvalid(el)) for el, wt in failing(c, X, n)]))
    mult_case(ctx, "combination, 0..255 responses", "toprf_thresholdcombine", comb)
    with ctx.case("combination, more than 255 responses") as c:
        n = c.v("n", 64, 256, 1 << 32); p = c.mem("p", mul(n, c64(SH))); o = c.mem("o", 32)
        c.call("toprf_thresholdcombine", n, p, o)
        c.prove("refused", c.gout, neg(eq(c.ret, const(0, 32))))
def tdh(c, g=TRUE, valid=True):
    sl = c.v("sl", 16, 0, 65535); ss = c.mem("ssid", zext(sl, 64)); o = c.mem("o", SH)
    k, z = c.mem("k", SH), c.mem("z", SH)
    kv = senc(f_atom(mk("fval", (var("s_k", 256),), alg.FW))); c.put(k, 1, kv)
    zv = senc(f_atom(mk("fval", (var("s_z", 256),), alg.FW))); c.put(z, 1, zv)
    if valid:
        e, ef = c.element("e"); el = c.out(e)
    else: e = c.mem("e", 32); el = init("e", c64(0), 256); ef = fp(el)
    c.call("toprf_3hashtdh", k, z, e, ss, sl, o)
    h = uf("H:b2b:64:0", 512, P(be16(sl), ("ssid", 0, sl), el))
    h2 = h2g(h)
    return c, o, kv, zv, ef, h2, el
def C07(ctx):
    with ctx.case("three-hash evaluation, session ids of 0..65535 bytes") as c:
        c, o, kv, zv, ef, h2, el = tdh(c)
        ok = c.ok(); c.reach("success", ok)
        c.same("index of the key share", ok, c.out(o, 0, 1, ok), init("k", c64(0), 8))
        c.same("value", ok, c.out(o, 1, 32, ok), penc(f_add(f_mul(fs(kv), ef), f_mul(fs(zv), fp(h2)))))
        c.prove("fails only if a primitive failed or a product is the identity", mkand(c.bad(), nofail(c.evs)),
                mkor(fzero(f_mul(fs(kv), ef)), fzero(f_mul(fs(zv), fp(h2)))))
        c.frame("only the result is written", o, 0, SH)
def rejections(ctx):
    """part of C03"""
    with ctx.case("weighted evaluation on every byte string") as c:
        n = c.v("n", 16, 0, 65535); ix = c.v("self", 8); p = c.mem("p", zext(n, 64)); o = c.mem("o", SH)
        k = c.mem("k", SH); e = c.mem("e", 32)
        c.call("toprf_Evaluate", k, e, ix, p, n, o)
        rejects(c, "weighted evaluation", init("e", c64(0), 256))
        lam = lagrange(ix, zext(n, 64), lambda j: b8("p", j))
        c.prove("weighted evaluation: success implies the result is not the identity", c.ok(), neg(fzero(f_mul(f_mul(fs(init("k", c64(1), 256)), lam), fp(init("e", c64(0), 256))))))
    with ctx.case("three-hash evaluation on every byte string") as c:
        c, o, kv, zv, ef, h2, el = tdh(c, valid=False)
        rejects(c, "three-hash evaluation", el)
        c.prove("three-hash evaluation: success implies both products are valid", c.ok(), neg(mkor(fzero(f_mul(fs(kv), ef)), fzero(f_mul(fs(zv), fp(h2))))))
    for fn, nm in (("toprf_thresholdmult", "reconstruction in the exponent"), ("toprf_thresholdcombine", "combination")):
        def body(c, n, p, o):
            ok = c.ok(); c.reach(nm + " success", ok)
            i = c.v("ri", 64, 0, 254)
            # every response is at(k) for some k<n: the processing order is the identity or a permutation of [0,n)
            ords = [i] + [idx64(uf(p_, w, trunc(i, aw) if aw < 64 else i)) for p_, w, aw in perms(c) if canon64(z64(alg.PERM[p_])) is canon64(n)]
            insts = [i] + [trunc(i, w) for w in (8, 16, 32)]
            best = None
            for o_ in ords:
                k0 = len(c.ctx.res)
                if c.prove(nm + ": success implies every response is valid", mkand(ok, ult(i, n)), pvalid(pval("p", o_)), inst=insts): best = True; break
                if o_ is not ords[-1]: del c.ctx.res[k0:]
        mult_case(ctx, nm + " on every byte string", fn, body)
# ---------------------------------------------------------------- multiplication
def C11(ctx):
    for lo, hi in ((1, 1), (2, 255)):
        with ctx.case("multiplication start, threshold %d..%d" % (lo, hi)) as c:
            n = c.v("n", 8, 0, 255); t = c.v("t", 8, lo, hi)
            a, b = c.mem("a", SH), c.mem("b", SH); o = c.mem("shares", mul(zext(n, 64), c64(SH)))
            c.call("toprf_mpc_mul_start", a, b, n, t, o)
            good = mkand(eq(init("a", c64(0), 8), init("b", c64(0), 8)), ule(t, n))
            ok = c.ok(); c.reach("success", ok)
            c.prove("accepted exactly for equal indexes and threshold <= peers", c.gout, eq(b2i(eq(c.ret, const(0, 32)), 8), b2i(good, 8)))
            rs = [ev for ev in c.evs if ev.k == "random"]
            if lo == 1: c.prove("no coefficient for threshold 1", TRUE, shape(not rs))
            else:
                v, K, val = draws(c, rs, None)
                c.same("exactly t-1 coefficients", TRUE, z64(K), sub(zext(t, 64), c64(1)))
            shares_spec(c, "product sharing", o, f_mul(fs(init("a", c64(1), 256)), fs(init("b", c64(1), 256))), n, t, rs, ok)
            c.untouched("no output on refusal", o, c.bad())
    with ctx.case("multiplication start, threshold 0") as c:
        n = c.v("n", 8, 0, 255)
        a, b = c.mem("a", SH), c.mem("b", SH); o = c.mem("shares", mul(zext(n, 64), c64(SH)))
        c.call("toprf_mpc_mul_start", a, b, n, const(0, 8), o)
        c.prove("refused", c.gout, neg(eq(c.ret, const(0, 32))))
    mul_finish(ctx); rows(ctx)
def mul_finish(ctx):
    """last multiplication step: the combination of the sub-shares with the first row of the inverse of the matrix of the powers of the indexes. That the matrix
    function returns the inverse is the only part taken from a contract which is not proved (compared with an independent interpolation instead)"""
    with ctx.case("multiplication finish") as c:
        n = c.v("n", 8, 1, 255); N = zext(n, 64); ix = c.mem("idx", N); sh = c.mem("shares", mul(N, c64(SH))); o = c.mem("share", SH); peer = c.v("peer", 8, 0, 255); seen = []
        if INVERT not in c.e.funcs or len(c.e.funcs[INVERT][1].params) != 3: raise Missing(INVERT)
        def inverse(e, a, g, loc, tag):
            nn = zext(a[0], 64); r, q = var("iv!r", 64), var("iv!c", 64); VR[r] = VR[q] = (0, 254); e.access(a[1], ipoly(mul(mul(nn, nn), c64(32))), g, "read", loc); e.access(a[2], ipoly(mul(mul(nn, nn), c64(32))), g, "write", loc)
            i, j = c.v("i", 64, 0, 254), c.v("j", 64, 0, 254); h = mkand(g, ult(i, N), ult(j, N)); seen.append(g)
            c.same("one row for every dealer", g, nn, N)
            c.same("element j of row i is power j of index i", h, e.bytesof(e.read(a[1].obj, add(a[1].off, mul(add(mul(i, N), j), c64(32))), 32, h)), senc(f_pow(fint(init("idx", i, 8)), ipoly(j))), (i, j))
            e.append(a[2].obj, E("W", g, add(a[2].off, mul(add(mul(r, nn), q), c64(32))), 32, senc(f_atom(mk("fval", (uf("inverse", 256, r, q),), alg.FW))), ((r, nn), (q, nn)), "contract"))
            return None, g
        c.e.contracts[INVERT] = inverse
        c.call("toprf_mpc_mul_finish", n, ix, peer, sh, o); g = c.gout; c.reach("end", g); j = var("spec_j", 64)
        c.prove("the matrix is inverted once", TRUE, shape(len(seen) == 1 and seen[0] is TRUE)); c.prove("ends", TRUE, g)
        c.same("the share is for this peer", g, c.out(o, 0, 1, g), peer)
        c.same("its value is the sum of the sub-shares weighted by the first row of the inverse", g, c.out(o, 1, 32, g), senc(f_sum(j, N, f_mul(fs(pval("shares", j)), f_atom(mk("fval", (uf("inverse", 256, c64(0), j),), alg.FW))))))
        for q in (ix, sh): c.untouched("the arguments are not modified", q, TRUE)
        ctx.assume.append("the matrix function returns the inverse of its argument if there is one (not proved; its memory accesses are)")
INVERT = "invert"
class Rows:
    """the order of the rows: the only array of n bytes; its elements and every other carried row number stay below n"""
    name = "order of the rows"
    def __init__(s, c, n): s.c = c; s.n = n; s.N = zext(n, 64); s.cells = {}; s.size = {"index": 254}; s.limits = (s.N,)
    @property
    def arrs(s): return {"index": (o, 1) for o in s.c.e.objs.values() if canon64(o.size) is canon64(s.N)}
    def changes(s, l, ent):
        new = lambda o: (x := l.e.read(o, c64(0), 1, l.g)).op == "init" or x.op == "uf" and x.args[0].startswith("undef:")
        return any(o in ent and not new(o) for o, _ in s.arrs.values())
    def trip(s, d, its): return None
    def bounds(s, d, k, its): return {}
    def facts(s, d, st): return []
    def ghost(s, d, nm, old, new): return None
    def inst(s, d, old): return ()
    def inside(s, nm, st, off): return ult(off, s.N)
    def elems(s, d, st, nm, off, v): return [("an element is the number of a row", imp(s.inside(nm, st, off), ult(v, s.n)))]
    def put(s, *a): pass
    def wits(s, e): return ()
    def after(s, *a): pass
def rows(ctx):
    """memory accesses of the matrix functions; the field elements are left open"""
    with ctx.case("matrix inversion (memory)") as c:
        n = c.v("n", 8, 1, 255); N = zext(n, 64); a, x = (c.mem(k, mul(mul(N, N), c64(32))) for k in ("a", "x"))
        c.e.annot = Rows(c, n); c.e.unk = lambda o: not any(o is y for y, _ in c.e.annot.arrs.values())
        c.call(INVERT, n, a, x); c.prove("ends", TRUE, c.gout)
BOUNDED = {"C11": "that the matrix function returns the inverse is only compared with an independent interpolation for up to 64 dealers; everything else of both steps is proved"}
