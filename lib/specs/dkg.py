"""Contracts of the verifiable sharing (dkg.c)."""
from core import *
from specs.oprf import nofail, locked_wiped
from specs.toprf import draws, poly, SH, idx64
def start(c, lo, hi):
    n = c.v("n", 8, lo, 255); t = c.v("t", 8, lo, hi)
    cm = c.mem("comm", mul(zext(t, 64), c64(32))); sh = c.mem("shares", mul(zext(n, 64), c64(SH)))
    c.call("dkg_start", n, t, cm, sh)
    return n, t, cm, sh
def C08(ctx):
    for lo, hi in ((1, 1), (2, 255)):
        with ctx.case("dealing, threshold %d..%d" % (lo, hi)) as c:
            n, t, cm, sh = start(c, lo, hi)
            ok = c.ok(); c.reach("success", ok)
            rs = [x for x in c.evs if x.k == "random"]
            if lo == 1 and len(rs) == 1 and not rs[0].vars:
                val = lambda k: rs[0].a[0]; K = c64(1)
            else:
                v, K, a0 = draws(c, rs, None); val = lambda k: subst(a0, {v: trunc(k, v.w) if v.w < 64 else k})
            c.same("exactly t coefficients are drawn", TRUE, z64(K), zext(t, 64))
            c.prove("drawn whenever it succeeds", ok, rs[0].g)
            k = c.v("k", 64, 0, 254); gk = mkand(ok, ult(k, zext(t, 64)))
            if lo == 1: k = c64(0); gk = ok
            c.same("commitment k", gk, c.out(cm, mul(k, c64(32)), 32, gk), penc(fs(val(k))))
            i = c.v("i", 64, 0, 254); gi = mkand(ok, ult(i, zext(n, 64))); io = mul(i, c64(SH))
            c.same("index of share j", gi, c.out(sh, io, 1, gi), trunc(add(i, c64(1)), 8))
            x = f_add(fint(i), f_const(1)); kk = var("spec_k", 64)
            # a_0 + x * sum_{k<t-1} a_{k+1} x^k
            spec = f_add(fs(val(c64(0))), f_sum(kk, sub(zext(t, 64), c64(1)), f_mul(fs(val(add(kk, c64(1)))), f_pow(x, p_add(ipoly(kk), p_const(1))))))
            c.same("value of share j", gi, c.out(sh, add(io, c64(1)), 32, gi), senc(spec))
            c.prove("fails only if the coefficients cannot be protected", mkand(c.bad(), nofail(c.evs)), FALSE)
            c.untouched("no commitments on failure", cm, c.bad()); c.untouched("no shares on failure", sh, c.bad())
            c.frame("commitments written", cm, 0, mul(zext(t, 64), c64(32))); c.frame("shares written", sh, 0, mul(zext(n, 64), c64(SH)))
            c.prove("coefficients are locked before they are drawn", ok, shape(any(x.k == "mlock" for x in c.evs)))
def wiped(ctx):
    with ctx.case("dealing") as c:
        start(c, 2, 255); locked_wiped(c, "dealing", 1)
    with ctx.case("dealing with threshold 1") as c:
        start(c, 1, 1); locked_wiped(c, "dealing", 1)
def vc_case(ctx, lo, hi):
    with ctx.case("verification of one share, threshold %d..%d" % (lo, hi)) as c:
        n = c.v("n", 8, 1, 255); t = c.v("t", 8, lo, hi); me = c.v("self", 8, 1, 255); i = c.v("i", 8, 1, 255)
        cm = c.mem("comm", mul(zext(t, 64), c64(32))); sh = c.mem("share", SH)
        sv = senc(f_atom(mk("fval", (var("s_share", 256),), alg.FW))); c.put(sh, 1, sv)
        c.call("dkg_verify_commitment", n, t, me, i, cm, sh)
        oth = neg(eq(me, i)); ok = mkand(c.ok(), oth); bad = mkand(c.bad(), oth)
        c.reach("accepts a dealer", ok)
        C = lambda k: init("comm", mul(k, c64(32)), 256)
        k = var("spec_k", 64)
        tail = f_sum(k, sub(zext(t, 64), c64(1)), f_mul(fp(C(add(k, c64(1)))), f_pow(fint(me), p_add(ipoly(k), p_const(1)))))
        rhs = f_add(fp(C(c64(0))), tail)
        holds = fzero(f_add(fs(sv), rhs, -1))
        c.prove("acceptance implies the equation", ok, holds)
        c.prove("acceptance implies a valid first commitment", ok, pvalid(C(c64(0))))
        kk = c.v("kk", 64, 0, 254)
        ins = [kk] + [trunc(kk, w) for w in (8, 16, 32)]
        if lo > 1:
            # commitment kk+1
            gk = mkand(ok, ult(add(kk, c64(1)), zext(t, 64)))
            c.prove("acceptance implies commitment k is valid", gk, pvalid(C(add(kk, c64(1)))), inst=ins)
            c.prove("acceptance implies commitment k is not degenerate", gk, neg(fzero(fp(C(add(kk, c64(1)))))), inst=ins)
        X = [x for x in set(allx(c))]
        ws = [mkor(neg(pvalid(C(add(idx64(x), c64(d))))), fzero(fp(C(add(idx64(x), c64(d)))))) for x in X for d in (0, 1)]
        c.prove("refusal implies the equation fails or a commitment is invalid", bad, mkor(neg(holds), neg(pvalid(C(c64(0)))), *ws))
        c.prove("inputs are not modified", TRUE, shape(not c.writes(cm)))
def allx(c):
    r = set()
    for o in list(c.e.objs.values()):
        for w in c.writes(o):
            for y in (w.v, w.g):
                if isinstance(y, T): r |= {t for t in subterms(y) if t.op == "uf" and t.args[0].startswith("X:")}
    for nm, l in engine.SCHEMA.items():
        for ps, f in l: r |= {t for t in subterms(f) if t.op == "uf" and t.args[0].startswith("X:") and not fv(t)}
    return r
def C09(ctx):
    vc_case(ctx, 1, 1); vc_case(ctx, 2, 255)
    with ctx.case("verification of all dealers") as c:
        n = c.v("n", 8, 1, 255); t = c.v("t", 8, 1, 255); me = c.v("self", 8, 1, 255)
        cm = c.mem("comm", mul(mul(zext(n, 64), zext(t, 64)), c64(32))); sh = c.mem("shares", mul(zext(n, 64), c64(SH)))
        fl, fn = c.mem("fails", zext(n, 64)), c.mem("len", 1)
        c.fn("dkg_verify_commitment")
        calls = []
        def contract(e, a, g, loc, tag):
            """result of the verification contract proved above for dealer a[3]"""
            calls.append((g, a, e.read(a[5].obj, a[5].off, 33, g)))
            return ite(uf("verifies", 0, a[3]), const(0, 32), bvor(uf("vcode", 32, a[3]), const(1, 32))), g
        c.e.contracts["dkg_verify_commitment"] = contract
        c.call("dkg_verify_commitments", n, t, me, cm, sh, fl, fn)
        c.prove("the single verification is used", TRUE, shape(bool(calls)))
        g, a, shv = calls[-1]
        d = a[3]; off = zext(sub(d, const(1, 8)), 64)
        c.same("called with the number of peers", g, a[0], n); c.same("called with the threshold", g, a[1], t); c.same("called with the verifier", g, a[2], me)
        c.prove("called on the dealer's commitments", g, mkand(shape(a[4].obj is cm.obj), eq(canon64(a[4].off), canon64(mul(mul(off, zext(t, 64)), c64(32))))))
        c.same("called on the dealer's share", g, shv, init("shares", canon64(mul(off, c64(SH))), 264))
        b = var("spec_b", 64)
        failed = lambda x: mkand(neg(eq(me, add(trunc(x, 8), const(1, 8)))), neg(uf("verifies", 0, add(trunc(x, 8), const(1, 8)))))
        cnt = lambda K: binder_count(K, failed)
        c.same("number of failed dealers", TRUE, c.out(fn, 0, 1), cnt(zext(n, 64)))
        c.prove("fails exactly if there is any", c.gout, eq(b2i(neg(eq(c.ret, const(0, 32))), 8), b2i(neg(eq(cnt(zext(n, 64)), const(0, 8))), 8)))
        i = c.v("i", 64, 0, 254); gi = mkand(ult(i, zext(n, 64)), failed(i))
        c.same("dealer i+1 is listed after the failed dealers before it", gi, c.out(fl, zext(cnt(i), 64), 1, gi), add(trunc(i, 8), const(1, 8)))
def binder_count(K, pred):
    v = var("q!%d" % K.id, 64); VR[v] = (0, 254)
    return term.binder("count", v, K, pred(v), 8)
def C10(ctx):
    with ctx.case("finish") as c:
        n = c.v("n", 8, 0, 255); me = c.v("self", 8); sh = c.mem("shares", mul(zext(n, 64), c64(SH))); xi = c.mem("xi", SH)
        c.call("dkg_finish", n, sh, me, xi)
        i = var("spec_i", 64)
        c.same("sum of all received values", TRUE, c.out(xi, 1, 32), senc(f_sum(i, zext(n, 64), fs(init("shares", add(mul(i, c64(SH)), c64(1)), 256)))))
        c.same("index kept", TRUE, c.out(xi, 0, 1), init("xi", c64(0), 8))
        c.frame("only the value is written", xi, 1, SH)
        c.prove("received shares are not modified", TRUE, shape(not c.writes(sh)))
