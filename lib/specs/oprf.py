"""Contracts of the basic OPRF (oprf.c)."""
from core import *
DST = b"HashToGroup-OPRFV1-\x00-ristretto255-SHA512"
def sha(*xs): return uf("H:sha512", 512, P(*xs))
def xmd_blocks(msg, dst, dstlen, outlen, n):
    """blocks b_1..b_n of expand_message_xmd (RFC 9380 5.3.1)"""
    dp = dst + [dstlen]
    b0 = sha(bytes(128), msg, const(0, 8), outlen, const(0, 8), *dp)
    bs = [sha(b0, const(1, 8), *dp)]
    for i in range(2, n + 1): bs.append(sha(bvxor(b0, bs[-1]), const(i, 8), *dp))
    return bs
def h2g(msg):
    """ristretto255 map of the 64 byte expansion under the OPRF domain tag"""
    return uf("r255map", 256, xmd_blocks(msg, [bytestr(DST)], const(len(DST), 8), const(64, 8), 1)[0])
def nofail(evs, kinds=("mlock",)): return mkand(*[neg(mkand(x.g, x.r)) for x in evs if x.k in kinds])
def locked_wiped(c, name, want):
    """every range locked is all zero (unlocked) when the function returns"""
    e = c.e; n = 0
    for i, x in enumerate([x for x in c.evs if x.k == "mlock"]):
        g = mkand(x.g, neg(x.r), c.gout)
        p, size = x.a
        un = [y.g for y in c.evs if y.k == "munlock" and y.a[0].obj is p.obj and eq(y.a[0].off, p.off) is TRUE and eq(zext(y.a[1], 64), zext(size, 64)) is TRUE]
        c.prove("%s: lock %d is unlocked" % (name, i), g, mkor(*un))
        c.same("%s: lock %d is wiped" % (name, i), TRUE, c.pieces(p, 0, size, g), pieces_term([("fill", 0, p_key(ipoly(size)), ipoly(size))]))
        n += 1
    c.prove("%s: secrets are held in locked memory" % name, TRUE, shape(n >= want))
def random_scalar(c, name, g, v):
    """v is the output of the library's random scalar generator, drawn exactly once"""
    rs = [x for x in c.evs if x.k == "random"]
    c.prove(name + ": drawn from the generator", g, mkor(*[mkand(x.g, shape(x.a[0] is under(g, v))) for x in rs]))
def unblind_chain(ctx):
    with ctx.case("KeyGen") as c:
        k = c.mem("k", 32); c.call("oprf_KeyGen", k)
        random_scalar(c, "key", TRUE, c.out(k)); c.frame("only the key is written", k, 0, 32)
    with ctx.case("Blind/Evaluate/Unblind, every input of 0..255 bytes") as c:
        ln = c.v("len", 8, 0, 255); x = c.mem("x", zext(ln, 64))
        r, bl = c.mem("r", 32), c.mem("blinded", 32)
        c.call("oprf_Blind", x, ln, r, bl)
        hp = h2g(("x", 0, ln)); ok1 = c.ok()
        c.reach("Blind succeeds", ok1)
        rv = c.out(r, 0, 32, ok1)
        random_scalar(c, "blinding factor", ok1, rv)
        c.same("Blind: blinded = r*H(x)", ok1, c.out(bl, 0, 32, ok1), penc(f_mul(fs(rv), fp(hp))))
        c.prove("Blind fails only if a primitive failed or H(x) is the identity", mkand(c.bad(), nofail(c.evs)), fzero(fp(hp)))
        k, kf = c.scalar("k"); Z = c.mem("Z", 32)
        c.call("oprf_Evaluate", k, bl, Z, g=ok1)
        ok2 = c.ok(); c.reach("Evaluate succeeds", ok2)
        c.same("Evaluate: Z = k*blinded", ok2, c.out(Z, 0, 32, ok2), penc(f_mul(kf, f_mul(fs(rv), fp(hp)))))
        c.prove("Evaluate fails only on the identity", c.bad(), fzero(f_mul(kf, fp(hp))))
        N = c.mem("N", 32)
        c.call("oprf_Unblind", r, Z, N, g=ok2)
        ok3 = c.ok(); c.reach("Unblind succeeds", ok3)
        c.same("Unblind: N = k*H(x)", ok3, c.out(N, 0, 32, ok3), penc(f_mul(kf, fp(hp))))
        c.prove("Unblind fails only if a primitive failed", mkand(c.bad(), nofail(c.evs)), FALSE)
    with ctx.case("Evaluate on every element") as c:
        k, kf = c.scalar("k"); p, pf = c.element("p"); Z = c.mem("Z", 32)
        c.call("oprf_Evaluate", k, p, Z)
        c.same("Z = k*P", c.ok(), c.out(Z, 0, 32, c.ok()), penc(f_mul(kf, pf)))
        c.prove("succeeds unless the product is the identity", c.gout, eq(b2i(eq(c.ret, const(0, 32)), 8), b2i(neg(fzero(f_mul(kf, pf))), 8)))
    with ctx.case("Unblind on every element") as c:
        r, rf = c.scalar("r", nonzero=True); p, pf = c.element("p"); N = c.mem("N", 32)
        c.call("oprf_Unblind", r, p, N)
        c.same("N = (1/r)*P", c.ok(), c.out(N, 0, 32, c.ok()), penc(f_mul(f_inv(rf), pf)))
        c.prove("fails only if locking failed or P is the identity", mkand(c.bad(), nofail(c.evs)), fzero(pf))
def C01(ctx): unblind_chain(ctx)
def C02(ctx):
    for lo, hi in ((0, 0), (1, 64), (65, 128), (129, 192), (193, 255)):
        with ctx.case("expand_message_xmd, output length %d..%d" % (lo, hi)) as c:
            ml = c.v("ml", 8, 0, 255); dl = c.v("dl", 8, 0, 254); ol = c.v("ol", 8, lo, hi)
            m, d, o = c.mem("m", zext(ml, 64)), c.mem("d", zext(dl, 64)), c.mem("o", zext(ol, 64))
            c.call("expand_message_xmd", m, ml, d, dl, ol, o)
            c.prove("accepted", c.gout, eq(c.ret, const(0, 32)))
            nb = max(1, (hi + 63) // 64)
            bs = xmd_blocks(("m", 0, ml), [("d", 0, dl)], dl, ol, nb)
            for i in range(nb):
                full = hi and (i + 1) * 64 <= lo
                if full: c.same("block %d" % (i + 1), TRUE, c.out(o, 64 * i, 64), bs[i])
                elif hi:
                    for b in range(64):      # byte b of the last block, where requested
                        g = ult(const(64 * i + b, 8), ol)
                        if g is FALSE: continue
                        c.same("block %d byte %d" % (i + 1, b), g, c.out(o, 64 * i + b, 1, g), extract(bs[i], 8 * b, 8))
    with ctx.case("expand_message_xmd, tag of 255 bytes") as c:
        ml = c.v("ml", 8, 0, 255); ol = c.v("ol", 8, 0, 255)
        m, d, o = c.mem("m", zext(ml, 64)), c.mem("d", 255), c.mem("o", zext(ol, 64))
        c.call("expand_message_xmd", m, ml, d, const(255, 8), ol, o)
        c.prove("refused", c.gout, neg(eq(c.ret, const(0, 32))))
    with ctx.case("hash to group") as c:
        ml = c.v("ml", 8, 0, 255); m, p = c.mem("m", zext(ml, 64)), c.mem("p", 32)
        c.call("voprf_hash_to_group", m, ml, p)
        c.reach("success", c.ok())
        c.same("ristretto255 map of the 64 byte expansion", c.ok(), c.out(p, 0, 32, c.ok()), h2g(("m", 0, ml)))
        c.prove("fails only if locking failed", mkand(c.bad(), nofail(c.evs)), FALSE)
    with ctx.case("Finalize, every input of 0..65535 bytes") as c:
        xl = c.v("xl", 16, 0, 65535); x, n, o = c.mem("x", zext(xl, 64)), c.mem("n", 32), c.mem("o", 64)
        c.call("oprf_Finalize", x, xl, n, o)
        c.reach("success", c.ok())
        c.same("PRF output", c.ok(), c.out(o, 0, 64, c.ok()), sha(be16(xl), ("x", 0, xl), b"\0\x20", ("n", 0, 32), b"Finalize"))
        c.prove("fails only if locking failed", mkand(c.bad(), nofail(c.evs)), FALSE)
def rejects(c, name, el, extra=()):
    """success implies a valid element and no failed locking"""
    c.reach(name + " can succeed", c.ok())
    c.prove(name + ": success implies a valid element", c.ok(), pvalid(el))
    for i, x in enumerate([x for x in c.evs if x.k == "mlock"]):
        c.prove("%s: success implies lock %d succeeded" % (name, i), mkand(c.ok(), x.g), neg(x.r))
def C03(ctx):
    with ctx.case("Evaluate on every byte string") as c:
        k, p, Z = c.mem("k", 32), c.mem("p", 32), c.mem("Z", 32)
        c.call("oprf_Evaluate", k, p, Z)
        el = init("p", c64(0), 256); kv = init("k", c64(0), 256)
        rejects(c, "Evaluate", el)
        c.prove("Evaluate: success implies the result is not the identity", c.ok(), neg(fzero(f_mul(ext.smul_scalar(kv), fp(el)))))
        c.same("Evaluate: success writes the product", c.ok(), c.out(Z, 0, 32, c.ok()), penc(f_mul(ext.smul_scalar(kv), fp(el))))
    with ctx.case("Unblind on every byte string") as c:
        r, p, N = c.mem("r", 32), c.mem("p", 32), c.mem("N", 32)
        c.call("oprf_Unblind", r, p, N)
        el = init("p", c64(0), 256); rv = init("r", c64(0), 256)
        rejects(c, "Unblind", el)
        c.prove("Unblind: success implies an invertible blinding factor", c.ok(), neg(fzero(fs(rv))))
        c.prove("Unblind: success implies the result is not the identity", c.ok(), neg(fzero(fp(el))))
        c.same("Unblind: success writes the product", c.ok(), c.out(N, 0, 32, c.ok()), penc(f_mul(f_inv(fs(rv)), fp(el))))
    with ctx.case("Blind and failed primitives") as c:
        ln = c.v("len", 8, 0, 255); x = c.mem("x", zext(ln, 64)); r, bl = c.mem("r", 32), c.mem("blinded", 32)
        c.call("oprf_Blind", x, ln, r, bl)
        rejects(c, "Blind", const(0, 256))
        c.prove("Blind: success implies the product is not the identity", c.ok(), neg(fzero(fp(h2g(("x", 0, ln))))))
    with ctx.case("hash to group and failed primitives") as c:
        ln = c.v("len", 8, 0, 255); x = c.mem("x", zext(ln, 64)); p = c.mem("p", 32)
        c.call("voprf_hash_to_group", x, ln, p); rejects(c, "hash to group", const(0, 256))
    with ctx.case("Finalize and failed primitives") as c:
        ln = c.v("len", 16, 0, 65535); x = c.mem("x", zext(ln, 64)); n, o = c.mem("n", 32), c.mem("o", 64)
        c.call("oprf_Finalize", x, ln, n, o); rejects(c, "Finalize", const(0, 256))
    import specs.toprf
    specs.toprf.rejections(ctx)
def C27(ctx):
    with ctx.case("Finalize") as c:
        ln = c.v("len", 16, 0, 65535); x = c.mem("x", zext(ln, 64)); n, o = c.mem("n", 32), c.mem("o", 64)
        c.call("oprf_Finalize", x, ln, n, o); locked_wiped(c, "Finalize", 1)
    with ctx.case("hash to group") as c:
        ln = c.v("len", 8, 0, 255); x = c.mem("x", zext(ln, 64)); p = c.mem("p", 32)
        c.call("voprf_hash_to_group", x, ln, p); locked_wiped(c, "hash to group", 1)
    with ctx.case("Blind") as c:
        ln = c.v("len", 8, 0, 255); x = c.mem("x", zext(ln, 64)); r, bl = c.mem("r", 32), c.mem("blinded", 32)
        c.call("oprf_Blind", x, ln, r, bl); locked_wiped(c, "Blind", 2)
    with ctx.case("Unblind") as c:
        r, p, N = c.mem("r", 32), c.mem("p", 32), c.mem("N", 32)
        c.call("oprf_Unblind", r, p, N); locked_wiped(c, "Unblind", 1)
    import specs.dkg
    specs.dkg.wiped(ctx)
