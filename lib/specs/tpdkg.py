"""Contracts of the protocol (tp-dkg.c)."""
from core import *
from specs.tpst import *
def F(p, f, base=0):
    """field of a message in an object, as it was before the call"""
    o, n = offs()["msg." + f]; return init(p.obj.name, add(p.off, add(C(base), c64(o))), 8 * n)
def body(p, base, n): return (p.obj.name, add(p.off, C(base)), n)
HDR = 111
def freshness(last, ts, eps, now):
    first = eq(last, c64(0))
    return ite(first, mkand(ule(sub(now, eps), ts), ule(ts, add(now, eps))), mkand(ule(last, ts), ule(ts, add(last, eps))))
def recv_case(ctx, log, fn):
    with ctx.case("validation of a message%s" % (", logging" if log else "")) as c:
        if not has_recv(c): raise Missing(RECV)
        logging(c, log); O = offs()
        ln = c.v("len", 64, HDR, (1 << 32) - 1); m = c.mem("msg", ln); pk = c.mem("pk", 32); sid = c.mem("sid", 32); lt = c.mem("last", 8)
        no, fr, to = (c.v(x, 8, 0, 255) for x in ("msgno", "from", "to")); eps = c.v("eps", 64, 0, (1 << 61) - 1)
        c.put(lt, 0, c.v("lastts", 64, 0, (1 << 62) - 1)); last = var("lastts", 64)
        c.call(RECV, m, ln, no, fr, to, pk, sid, eps, lt)
        fn(c, ln, m, pk, sid, lt, no, fr, to, eps, last)
def clock(c, eps):
    """value of the only clock reading, assumed to be after the tolerance"""
    ts = [x for x in c.evs if x.k == "time"]
    if len(ts) != 1: raise Unsupported("%d clock readings" % len(ts))
    now = ts[0].a[0]
    return now, mkand(ule(eps, now), ult(now, c64(1 << 62)))
def C12(ctx):
    ctx.assume.append("the clock is not earlier than the tolerance (no wraparound of now - tolerance)")
    def post(c, ln, m, pk, sid, lt, no, fr, to, eps, last):
        now, pre = clock(c, eps); ok, bad = mkand(c.ok(), pre), mkand(c.bad(), pre)
        c.reach("acceptance", ok); c.reach("refusal", bad)
        vs = [x for x in c.evs if x.k == "verify"]
        sg = lambda x: mkand(x.g, x.r)
        c.prove("a signature is checked", TRUE, boolc(len(vs) >= 1)); c.prove("one signature check decides", TRUE, shape(len(vs) == 1))
        v = vs[0]
        f = {"length": eq(zext(bswap(F(m, "len")), 64), ln), "type": eq(F(m, "msgno"), no), "sender": eq(F(m, "from"), fr), "recipient": eq(F(m, "to"), to),
             "session": eq(F(m, "sessionid"), init("sid", c64(0), 256)), "freshness": freshness(last, bswap(F(m, "ts")), eps, now)}
        for k, x in f.items(): c.prove("acceptance implies the expected " + k, ok, x)
        c.prove("acceptance implies a verified signature", ok, sg(v))
        c.same("the signature verified is the one of the message", v.g, v.a[4], F(m, "sig"))
        c.same("the signed part is everything after the signature", v.g, v.a[5], P(body(m, 64, sub(ln, c64(64)))))
        c.same("it is verified under the expected key", v.g, v.a[6], init("pk", c64(0), 256))
        c.prove("refusal implies that something is not as expected", bad, neg(mkand(sg(v), *f.values())))
        for x in (m, pk, sid): c.untouched("the message is not modified", x, TRUE)
    recv_case(ctx, False, post); recv_case(ctx, True, post)
    recvs(ctx)
def C14(ctx):
    ctx.assume.append("the clock is not earlier than the tolerance (no wraparound of now - tolerance)")
    def post(c, ln, m, pk, sid, lt, no, fr, to, eps, last):
        now, pre = clock(c, eps); ok, bad = mkand(c.ok(), pre), mkand(c.bad(), pre); ts = bswap(F(m, "ts")); fr_ = freshness(last, ts, eps, now)
        c.reach("acceptance of a first message", mkand(ok, eq(last, c64(0)))); c.reach("acceptance of a later message", mkand(ok, neg(eq(last, c64(0)))))
        c.prove("acceptance implies freshness", ok, fr_)
        c.same("an accepted timestamp is the new reference", ok, c.out(lt, 0, 8, ok), ts)
        g = mkand(c.gout, pre, neg(fr_))
        c.same("a rejected timestamp leaves the reference", g, c.out(lt, 0, 8, g), last)
        c.prove("the reference only changes to the message's timestamp", mkand(c.gout, pre, neg(eq(c.out(lt, 0, 8, c.gout), last))), eq(c.out(lt, 0, 8, c.gout), ts))
        c.frame("only the reference is written", lt, 0, 8)
    recv_case(ctx, False, post); recv_case(ctx, True, post)
    starts14(ctx); recvs(ctx)
def starts14(ctx):
    with ctx.case("references of a new orchestrator") as c:
        s = TP(c, 0); 
        a = [c.mem(x, 1 << 40) for x in ("b_com", "b_compl", "b_enc", "b_pks", "b_lt")]; lt = c.mem("b_ts", mul(s.N, c64(8)))
        cm = c.v("cm", 64, 0, 1 << 20); ch = c.mem("b_ch", mul(cm, c64(offs()["ch."][0])))
        c.call("tpdkg_tp_set_bufs", s.p, a[0], a[1], a[2], ch, cm, a[3], a[4], lt)
        i = c.v("i", 64, 0, 127); gi = mkand(s.pre, ult(i, s.N)); now = [x for x in c.evs if x.k == "time"][0].a[0]
        c.same("reference of every peer is the start time", gi, c.out(lt, mul(i, c64(8)), 8, gi), now)
    with ctx.case("references of a new peer") as c:
        s = PE(c, 0)
        a = [c.mem(x, 1 << 40) for x in ("b1", "b2", "b5", "b6", "b7", "b8", "b9")]; lt = c.mem("b_ts", mul(s.N, c64(8))); no, ni = c.mem("b_no", mul(s.N, c64(8))), c.mem("b_ni", mul(s.N, c64(8)))
        c.call("tpdkg_peer_set_bufs", s.p, a[0], a[1], no, ni, a[2], a[3], a[4], a[5], a[6], lt)
        i = c.v("i", 64, 0, 127); gi = mkand(s.pre, ult(i, s.N))
        c.same("no reference yet for any peer", gi, c.out(lt, mul(i, c64(8)), 8, gi), c64(0))
# ------------------------------------------------------------------ C21
def SZ(n, t):
    k = lambda x: c64(x); m6 = add(k(111), mul(k(32), t)); m9 = add(k(112), n)
    tin = {0: k(0), 1: k(239), 2: mul(k(159), n), 3: mul(k(159), n), 4: m6, 5: mul(k(256), n), 6: m9, 8: k(143), 9: k(113)}
    tout = {0: mul(k(111), n), 1: add(k(111), mul(k(175), n)), 2: mul(k(159), mul(n, n)), 3: mul(k(159), mul(n, n)), 4: add(k(111), mul(m6, n)), 5: mul(k(256), mul(n, n)), 6: add(k(111), mul(m9, n)), 7: k(0), 8: k(113), 9: k(0)}
    own = {0: k(111), 2: mul(k(159), n), 3: mul(k(159), n), 5: mul(k(256), n)}
    pin = {0: k(111), 1: tout[1], 2: own[2], 3: own[3], 4: tout[4], 5: own[5], 6: tout[6], 7: k(0), 8: k(0), 9: k(113), 10: k(0)}
    pout = {0: k(239), 1: mul(k(159), n), 2: mul(k(159), n), 3: m6, 4: mul(k(256), n), 5: m9, 6: k(0), 8: k(143), 9: k(113), 10: k(0)}
    return tin, tout, own, pin, pout
def C21(ctx):
    for st in range(10):
        with ctx.case("sizes announced by the orchestrator in step %d" % st) as c:
            s = TP(c, st); tin, tout, own, pin, pout = SZ(s.N, s.T); s.put("prev", st)
            c.call("tpdkg_tp_output_size", s.p, g=s.pre); c.same("output size", s.pre, c.ret, tout[st])
            if st != 7:
                sz = c.mem("sizes", mul(s.N, c64(8)))
                c.call("tpdkg_tp_input_sizes", s.p, sz, g=s.pre); i = c.v("i", 64, 0, 127); gi = mkand(s.pre, ult(i, s.N))
                c.same("per peer input size", gi, c.out(sz, mul(i, c64(8)), 8, gi), tin[st])
                c.frame("sizes written", sz, 0, mul(s.N, c64(8)), s.pre)
                c.call("tpdkg_tp_input_size", s.p, g=s.pre); c.same("total input size is the sum of the per peer sizes", s.pre, c.ret, mul(tin[st], s.N))
            pr = c.v("peer", 8, 0, 255); bs = c.v("bs", 64, 0, (1 << 40)); base = c.mem("base", bs); m, ln = c.mem("pm", 8), c.mem("pl", 8)
            c.call("tpdkg_tp_peer_msg", s.p, base, bs, pr, m, ln, g=s.pre); ok = mkand(c.ok(), s.pre)
            c.prove("no part for a peer outside 0..n-1", mkand(ok, ule(s.n, pr)), FALSE)
            inn = mkand(s.pre, ult(pr, s.n), eq(bs, tout[st])); L_ = c.out(ln, 0, 8, inn); e = c.e; pm = c.e.read(m.obj, c64(0), 8, inn)
            if st not in (7, 9):
                c.prove("every peer gets its part of a full output", mkand(c.bad(), inn), FALSE)
                w = own.get(st, tout[st]); c.same("length of a part", inn, L_, w)
                c.reach("slicing succeeds", ok)
                # the part as an offset into the buffer
                off = c.e.ptrint(pm); b0 = c.e.ptrint(base)
                c.same("position of a part", inn, sub(off, b0), mul(w, zext(pr, 64)) if st in own else c64(0))
                if st in own: c.prove("parts lie inside the buffer and do not overlap", inn, ule(add(mul(w, zext(pr, 64)), w), tout[st]))
                c.prove("a part is given only if it lies inside the buffer", mkand(ok), ule(add(mul(w, zext(pr, 64)) if st in own else c64(0), w), bs))
            else: c.same("nothing is sent", inn, L_, c64(0))
    for st in range(11):
        with ctx.case("sizes announced by a peer in step %d" % st) as c:
            s = PE(c, st); tin, tout, own, pin, pout = SZ(s.N, s.T)
            c.call("tpdkg_peer_input_size", s.p, g=s.pre); c.same("input size equals what the orchestrator sends", s.pre, c.ret, pin[st])
            cl, my = c.v("cl", 16, 0, 65535), c.v("my", 8, 0, 128); s.put("complaints_len", cl); s.put("my_complaints_len", my)
            c.call("tpdkg_peer_output_size", s.p, g=s.pre)
            w = pout[st] if st != 7 else ite(eq(cl, const(0, 16)), c64(143), ite(eq(my, const(0, 8)), c64(0), add(c64(111), mul(c64(33), zext(my, 64)))))
            c.same("output size equals what the orchestrator expects", s.pre, c.ret, w)
    C21c(ctx); C21x(ctx)
def C21c(ctx):
    """sizes of the key disclosures"""
    with ctx.case("sizes of key disclosures") as c:
        s = TP(c, 7); cl = c.v("cl", 16, 0, 16384); s.complaints(cl)
        sz = c.mem("sizes", mul(s.N, c64(8)))
        c.call("tpdkg_tp_input_sizes", s.p, sz, g=s.pre); i = c.v("i", 64, 0, 127); gi = mkand(s.pre, ult(i, s.N))
        c.frame("sizes written", sz, 0, mul(s.N, c64(8)), s.pre)
        c.prove("returns that sizes differ", s.pre, eq(c.ret, const(0, 32)))
        x = c.out(sz, mul(i, c64(8)), 8, gi); k = zext(s.nabout(i, cl, 8), 64)
        c.same("size of the disclosure of peer i", gi, x, ite(eq(k, c64(0)), c64(0), add(c64(111), mul(c64(33), k))))
def C21x(ctx): pass
# ------------------------------------------------------------------ C23
def C23(ctx):
    for log in (False, True):
        with ctx.case("starting the orchestrator%s" % (", logging" if log else "")) as c:
            logging(c, log); O = offs()
            p = c.mem("tp", O["tp."][0]); n, t = c.v("n", 8, 0, 255), c.v("t", 8, 0, 255); eps = c.v("eps", 64, 0, (1 << 64) - 1); nl = c.v("nl", 64, 0, (1 << 40)); name = c.mem("name", nl); ml = c.v("ml", 64, 0, 1 << 40); m = c.mem("msg0", ml)
            c.call("tpdkg_start_tp", p, eps, n, t, name, nl, ml, m)
            ok = c.ok(); sane = mkand(ule(const(2, 8), t), ult(t, n), ule(n, const(128, 8))); good = mkand(sane, ule(c64(1), nl), ule(nl, c64(1024)), eq(ml, c64(O["msg0"][0])))
            c.reach("success", ok)
            c.prove("success only for 2 <= t < n <= 128", ok, sane); c.prove("success only with a name of 1 to 1024 bytes and the documented buffer", ok, good)
            c.prove("no other refusal", mkand(c.bad(), good), FALSE)
            f = lambda x: c.out(p, *O["tp." + x], g=ok); d = O["msg.data"][0]
            for x, v in (("n", n), ("t", t), ("ts_epsilon", eps), ("step", const(0, 32)), ("complaints_len", const(0, 16)), ("cheater_len", c64(0))): c.same("state: " + x, ok, f(x), v)
            c.same("announced key", ok, c.out(m, d, 32, ok), f("sig_pk"))
            kp = [x for x in c.evs if x.k == "keypair"]
            c.prove("one key pair is generated", ok, shape(len(kp) == 1)); c.same("its public part is kept", ok, f("sig_pk"), kp[0].a[0]); c.same("its secret part is kept", ok, f("sig_sk"), kp[0].a[1])
            c.same("announced n", ok, c.out(m, d + 64, 1, ok), n); c.same("announced t", ok, c.out(m, d + 65, 1, ok), t)
            l16 = add(trunc(nl, 16), const(20, 16))
            c.same("announced hash of the length-prefixed name", ok, c.out(m, d + 32, 32, ok), uf("H:b2b:32:0", 256, P(be16(l16), b"TP DKG for protocol ", ("name", 0, nl))))
            c.untouched("no announcement on refusal", m, c.bad()); c.frame("announcement written", m, 0, O["msg0"][0], ok)
            if not log: sent(c, ok, m, c64(0), c64(O["msg0"][0]), 0, const(0, 8), const(255, 8), f("sig_sk"), f("sessionid"), "announcement")
        with ctx.case("starting a peer%s" % (", logging" if log else "")) as c:
            logging(c, log); O = offs(); use_recv(c, "any")
            p = c.mem("peer", O["peer."][0]); eps = c.v("eps", 64, 0, (1 << 64) - 1); sk = c.mem("lt", 64); m = c.mem("msg0", O["msg0"][0])
            c.call("tpdkg_start_peer", p, eps, sk, m)
            ok = c.ok(); d = O["msg.data"][0]; n, t = init("msg0", c64(d + 64), 8), init("msg0", c64(d + 65), 8); sane = mkand(ule(const(2, 8), t), ult(t, n), ule(n, const(128, 8)))
            c.reach("success", ok); c.prove("success only for 2 <= t < n <= 128", ok, sane)
            f = lambda x: c.out(p, *O["peer." + x], g=ok)
            for x, v in (("n", n), ("t", t), ("ts_epsilon", eps), ("step", const(0, 32)), ("complaints_len", const(0, 16)), ("my_complaints_len", const(0, 8)), ("tp_sig_pk", init("msg0", c64(d), 256)), ("sessionid", F(m, "sessionid")), ("lt_sk", init("lt", c64(0), 512))): c.same("state: " + x, ok, f(x), v)
            rv = [x for x in c.evs if x.k == "recv"]
            c.prove("success only if the announcement is valid", ok, mkand(*[mkand(x.g, eq(x.r, const(0, 32))) for x in rv]) if rv else FALSE)
            if rv: expect(c, ok, rv[0], m, c64(0), c64(O["msg0"][0]), 0, const(0, 8), const(255, 8), init("msg0", c64(d), 256), F(m, "sessionid"), eps, (p, O["peer.tp_last_ts"][0]), "announcement")
            c.prove("no other refusal", mkand(c.bad(), sane, *[eq(x.r, const(0, 32)) for x in rv]), FALSE)
        with ctx.case("index of a peer%s" % (", logging" if log else "")) as c:
            s = PE(c, 0, log=log); use_recv(c, "any"); i = c.mem("in", HDR); o = c.mem("out", 239)
            s.next(i, HDR, o, 239); ok = mkand(c.ok(), s.pre); to = F(i, "to")
            c.reach("success", ok)
            c.prove("the index is within 1..n", ok, mkand(ule(const(1, 8), to), ule(to, s.n))); c.same("the index taken is the one assigned", ok, s.get("index", ok), to)
            rv = [x for x in c.evs if x.k == "recv"]
            c.prove("no other refusal", mkand(s.pre, c.bad(), ule(const(1, 8), to), ule(to, s.n), *[eq(x.r, const(0, 32)) for x in rv]), FALSE)
def expect(c, g, ev, p, off, size, no, frm, to, pk, sid, eps, last, what):
    """obligation: under g the validation event asks for exactly this message"""
    m, ln, a_no, a_fr, a_to, a_pk, a_sid, a_eps, a_lt = ev.a
    c.prove("%s: validated where it lies" % what, g, mkand(shape(m.obj is p.obj), eq(m.off, add(p.off, off))))
    c.same("%s: length" % what, g, ln, size); c.same("%s: type" % what, g, a_no, const(no, 8) if isinstance(no, int) else no); c.same("%s: sender" % what, g, a_fr, frm); c.same("%s: recipient" % what, g, a_to, to)
    c.same("%s: key" % what, g, a_pk, pk); c.same("%s: session" % what, g, a_sid, sid); c.same("%s: tolerance" % what, g, a_eps, eps)
    c.prove("%s: reference of this sender" % what, g, mkand(shape(a_lt.obj is last[0].obj), eq(a_lt.off, add(last[0].off, C(last[1])))))
# ------------------------------------------------------------------ C26
def C26(ctx):
    with ctx.case("describing a violation") as c:
        O = offs(); p = c.mem("cheater", O["ch."][0]); ol = c.v("outlen", 64, 1, 1 << 30); o = c.mem("out", ol)
        f = lambda x: init("cheater", c64(O["ch." + x][0]), 8 * O["ch." + x][1])
        c.call("tpdkg_cheater_msg", p, o, ol); st, er = f("step"), f("error")
        S = lambda k: eq(st, const(k, st.w)); X = lambda *ks: mkor(*[eq(er, const(k, er.w)) for k in ks])
        R = lambda a, b: mkand(ule(const(a, er.w), er), ule(er, const(b, er.w)))
        val = R(65, 71); peer, oth = f("peer"), f("other_peer")
        steps = mkor(*[S(k) for k in (4, 6, 8, 12, 14, 16, 18, 20, 22)])
        rows = [("message failing validation", mkand(steps, val), peer), ("too many complaints", mkand(S(16), X(6)), const(0, 8)), ("complaint about a number outside 1..n", mkand(S(16), X(7)), peer),
                ("repeated complaint", mkand(S(16), X(8)), peer), ("contested share failing validation", mkand(S(18), R(17, 23)), peer), ("key disclosure failing validation", mkand(S(18), R(33, 39)), peer),
                ("share failing its integrity check", mkand(S(18), X(3)), peer), ("share failing decryption", mkand(S(18), X(4)), peer), ("share with another index", mkand(S(18), X(5)), peer),
                ("key disclosed to a peer that did not complain", mkand(S(18), X(6)), peer), ("complaint left unanswered", mkand(S(18), X(7)), peer), ("contested share not verifiable", mkand(S(18), X(127)), peer),
                ("share matching its commitments", mkand(S(18), X(128)), oth), ("share not matching its commitments", mkand(S(18), X(129)), peer),
                ("different transcript", mkand(S(20), X(1)), peer), ("transcript message failing validation", mkand(S(20), R(2, 8)), peer), ("missing acknowledgement", mkand(S(22), X(1)), peer)]
        for nm, g, who in rows: c.same(nm, mkand(g, c.gout), c.ret, who)
        c.prove("always returns", TRUE, c.gout)
        sn = [x for x in c.evs if x.k == "snprintf"]
        c.prove("a description is written in every case", TRUE, mkor(*[x.g for x in sn]))
        for i, x in enumerate(sn): c.prove("description %d is bounded by the given size" % i, x.g, mkand(shape(x.a[0].obj is o.obj), eq(x.a[0].off, c64(0)), ule(c64(1), x.a[1]), ule(x.a[1], ol)))
        c.frame("written inside the buffer", o, 0, ol); c.untouched("the entry is not modified", p, TRUE)
# ------------------------------------------------------------------ runs of the steps
def K(x): return c64(x)
def tpmsgs(s, st):
    """messages an orchestrator step expects: (indices, position, size, type, sender, recipient, key, reference)"""
    n, t = s.N, s.T; i, j = s.c.v("i", 64, 0, 127), s.c.v("j", 64, 0, 127)
    one = lambda x: add(trunc(x, 8), const(1, 8)); pk = init("sigpks", mul(i, K(32)), 256); lt = (s.lts, mul(i, K(8)))
    if st == 1: return [((i,), mul(i, K(239)), K(175), 2, one(i), const(255, 8), init("in", add(mul(i, K(239)), K(HDR)), 256), lt)]
    if st in (2, 3): return [((i, j), mul(add(mul(i, n), j), K(159)), K(159), 2 + st, one(i), one(j), pk, lt)]
    if st == 5: return [((i, j), mul(add(mul(i, n), j), K(256)), K(256), 8, one(i), one(j), pk, lt)]
    x = {4: (add(K(HDR), mul(K(32), t)), 6, 255), 6: (add(K(112), n), 9, 255), 8: (K(143), 20, 0), 9: (K(113), 22, 0)}.get(st)
    return [((i,), mul(i, x[0]), x[0], x[1], one(i), const(x[2], 8), pk, lt)] if x else []
def pemsgs(s, st, il):
    n, t = s.N, s.T; i = s.c.v("i", 64, 0, 127); O = offs()
    one = lambda x: add(trunc(x, 8), const(1, 8)); pk = init("sigpks", mul(i, K(32)), 256); lt = (s.lts, mul(i, K(8)))
    env = lambda no, to=const(255, 8): ((), K(0), il, no, const(0, 8), to, s.fld("tp_sig_pk"), (s.p, O["peer.tp_last_ts"][0]))
    emb = lambda sz, no, pk=pk: ((i,), add(K(HDR), mul(i, sz)), sz, no, one(i), const(255, 8), pk, lt)
    rt = lambda sz, no: ((i,), mul(i, K(sz)), K(sz), no, one(i), s.me, pk, lt)
    if st == 0: return [env(1, init("in", K(offs()["msg.to"][0]), 8))]
    if st == 1: return [env(3), emb(K(175), 2, init("in", add(add(K(HDR), mul(i, K(175))), K(HDR)), 256))]
    if st in (2, 3): return [rt(159, 2 + st)]
    if st == 4: return [env(7), emb(add(K(HDR), mul(K(32), t)), 6)]
    if st == 5: return [rt(256, 8)]
    if st == 6: return [env(10), emb(add(K(112), n), 9)]
    if st == 9: return [env(21)]
    return []
def allok(c):
    """every signature verifies: used together with the run in which every outcome is possible, which shows that a successful step saw only valid messages"""
    def f(e, a, g, loc, tag):
        s_ = ext.rd(e, a[0], 64, g, loc); pk = ext.rd(e, a[3], 32, g, loc); d = ext.data(e, a[1], z64(a[2]), g, loc)
        e.event("verify", g, (a[0], a[1], a[2], a[3], s_, d, pk), TRUE, loc); return const(0, 32), g
    c.e.contracts["crypto_sign_verify_detached"] = f
class Run: pass
RECORD = {("tp", 6), ("peer", 6)}     # steps whose loops have stated invariants
def step(ctx, role, st, fn, mode="any", log=False, pre=None): ctx.later(lambda: step_(ctx, role, st, fn, mode, log, pre))
def step_(ctx, role, st, fn, mode, log, pre):
    with ctx.case("%s step %d%s%s" % ({"tp": "orchestrator", "peer": "peer"}[role], st, {"any": "", "ok": " (valid messages)", "real": " (inlined)"}[mode], ", logging" if log else "")) as c:
        r = Run(); r.c = c; r.role = role; r.st = st; r.s = s = (TP if role == "tp" else PE)(c, st, log=log); r.mode = mode
        rec = (role, st) in RECORD
        if mode != "real": use_all(c, mode, {("tp", 7): "from", ("tp", 6): "fits"}.get((role, st), rec), s.n)
        if mode == "ok": allok(c)
        if (role, st) == ("peer", 7): s.mine()
        if (role, st) == ("tp", 7): r.cl = c.v("cl", 16, 0, 16384); s.complaints(r.cl); c.e.annot = Res(s, r.cl)
        if rec:
            if role == "peer": s.put("complaints_len", 0); s.put("my_complaints_len", 0)
            c.e.annot = Rec(s)
        if pre: pre(r)
        r.il = c.v("inlen", 64, 0, 1 << 30); r.ol = c.v("outlen", 64, 0, 1 << 30); r.i = c.mem("in", r.il); r.o = c.mem("out", r.ol)
        s.next(r.i, r.il, r.o, r.ol)
        r.ok = mkand(c.ok(), s.pre); r.bad = mkand(c.bad(), s.pre); r.out = mkand(c.gout, s.pre); r.ret = c.ret; r.evs = list(c.evs)
        r.sid = s.fld("sessionid"); r.eps = var("eps", 64)
        tin, tout, own, pin, pout = SZ(s.N, s.T); r.tin, r.tout, r.pin, r.pout = tin, tout, pin, pout
        r.msgs = tpmsgs(s, st) if role == "tp" else pemsgs(s, st, r.il)
        fn(r)
def rng(r, ix): return mkand(*[ult(i, r.s.N) for i in ix])
def insts(ix): return [y for i in ix for y in (i, trunc(i, 8), trunc(i, 16), trunc(i, 32))]
def at_index(ev, ix):
    """instances of an event or log entry of a loop at the given indices"""
    vs = [v[0] if isinstance(v, tuple) else v for v in ev.vars]; Ks = [v[1] if isinstance(v, tuple) else None for v in ev.vars]
    import itertools
    if len(vs) != len(ix): return
    for p in itertools.permutations(ix):
        m = {v: (trunc(x, v.w) if v.w < 64 else x) for v, x in zip(vs, p)}
        S = lambda t, m=m: (Ptr(t.obj, subst(t.off, m)) if isinstance(t, Ptr) else subst(t, m) if isinstance(t, T) else t)
        yield S, mkand(*[ult(zext(m[v], 64), zext(S(k), 64)) for v, k in zip(vs, Ks) if k is not None])
def find_recv(r, g, m, inst):
    """the validation of an expected message: an event that certainly happens under g and asks for this message"""
    ix, off, size, no, frm, to, pk, lt = m; c = r.c; alts = []
    for ev in r.evs:
        if ev.k != "recv": continue
        for S, b in at_index(ev, ix):
            a = tuple(S(x) for x in ev.a)
            if not isinstance(a[0], Ptr) or a[0].obj is not r.i.obj or a[0].off is not off and not c.e.prove(g, eq(a[0].off, off), 2000): continue
            alts.append((a, mkand(S(ev.g), b), S(ev.r)))
    best = [x for x in alts if holds(c, g, x[1], inst)]
    return (best[0] if best else None), alts
def holds(c, g, goal, inst=()):
    goal = under(g, goal)
    if goal is TRUE or conj(goal) <= conj(g): return True
    f = mkand(g, neg(goal))
    return f is FALSE or c.e.model(f, 6000, inst)[1] == z3.unsat
class EvA: pass
def validated(r, g, what, need=TRUE):
    """obligations: under g every expected message was validated with exactly the expected parameters and accepted"""
    c = r.c
    for m in r.msgs:
        ix, off, size, no, frm, to, pk, lt = m; inst = insts(ix); gi = mkand(g, rng(r, ix)); nm = "message type %d" % no if isinstance(no, int) else "message"
        best, alts = find_recv(r, gi, m, inst)
        if best is None:
            c.prove("%s: %s is validated" % (what, nm), gi, mkor(*[mkand(x[1], eq(x[2], const(0, 32))) for x in alts]) if alts else FALSE, inst); continue
        a, eg, res = best; ev = EvA(); ev.a = a
        c.prove("%s: %s is validated" % (what, nm), gi, eg, inst); c.prove("%s: %s was accepted" % (what, nm), gi, eq(res, const(0, 32)), inst)
        expect(c, gi, ev, r.i, off, size, no, frm, to, pk, r.sid, r.eps, lt, nm)
STEPS = [("tp", k) for k in range(10)] + [("peer", k) for k in range(10)]
def recvs(ctx):
    def f(r):
        r.c.reach("success", r.ok)
        validated(r, r.ok, "success")
    for role, st in STEPS:
        if (role, st) in (("tp", 0), ("tp", 7), ("peer", 7), ("peer", 8)): continue
        step(ctx, role, st, f)
# ------------------------------------------------------------------ C13
def sent(c, g, p, off, size, no, frm, to, sk, sid, what, inst=(), evs=None):
    """obligation: the message at p+off of the given size is complete, correctly addressed, current and signed in full"""
    O = offs(); A = lambda f: c.out(p, add(off, c64(O["msg." + f][0])), O["msg." + f][1], g); B = lambda f: add(off, c64(O["msg." + f][0]))
    c.same("%s: length" % what, g, A("len"), bswap(trunc(size, 32)), inst); c.same("%s: type" % what, g, A("msgno"), const(no, 8) if isinstance(no, int) else no, inst)
    c.same("%s: sender" % what, g, A("from"), frm, inst); c.same("%s: recipient" % what, g, A("to"), to, inst); c.same("%s: session" % what, g, A("sessionid"), sid, inst)
    ts = A("ts"); us = [u for u in subterms(ts) if u.op == "uf" and u.args[0].startswith("time:")]
    if len(set(us)) == 1: c.same("%s: timestamp is the current time" % what, g, ts, bswap(zext(us[0], 64)), inst)
    else: c.rec("%s: timestamp is the current time" % what, False, "rewriting", "timestamp is %s" % show(ts, 8)[:600], refuted=opaque(ts) is None)
    sg = under(g, A("sig"))
    if sg.op == "uf" and sg.args[0] == "sig":
        c.same("%s: signed with the session key" % what, g, sg.args[1], sk, inst)
        c.samebytes("%s: signed in full" % what, g, sg.args[2], p, add(off, c64(64)), sub(size, c64(64)), inst)
    else: c.rec("%s: signed in full" % what, False, "rewriting", "signature is %s" % show(sg, 6)[:600], refuted=opaque(sg) is None)
def sends(r):
    """messages a step emits: (condition, indices, position, size, type, sender, recipient)"""
    s = r.s; n, t = s.N, s.T; i = r.c.v("i", 64, 0, 127); one = add(trunc(i, 8), const(1, 8)); z = const(0, 8); all_ = const(255, 8)
    if r.role == "tp":
        return {0: [((i,), mul(i, K(111)), K(111), 1, z, one)], 1: [((), K(0), r.tout[1], 3, z, all_)], 4: [((), K(0), r.tout[4], 7, z, all_)], 6: [((), K(0), r.tout[6], 10, z, all_)], 8: [((), K(0), K(113), 21, z, all_)]}.get(r.st, [])
    me = s.me if r.st else init("in", K(offs()["msg.to"][0]), 8)
    return {0: [((), K(0), K(175), 2, me, all_)], 1: [((i,), mul(i, K(159)), K(159), 4, me, one)], 2: [((i,), mul(i, K(159)), K(159), 5, me, one)], 3: [((), K(0), r.pout[3], 6, me, all_)],
            4: [((i,), mul(i, K(256)), K(256), 8, me, one)], 5: [((), K(0), r.pout[5], 9, me, all_)], 7: [((), K(0), r.ol, 11, me, z)], 8: [((), K(0), K(143), 20, me, z)], 9: [((), K(0), K(113), 22, me, z)]}.get(r.st, [])
def C13(ctx):
    with ctx.case("announcement") as c:
        logging(c, False); O = offs()
        p = c.mem("tp", O["tp."][0]); n, t = c.v("n", 8, 0, 255), c.v("t", 8, 0, 255); nl = c.v("nl", 64, 0, (1 << 40)); name = c.mem("name", nl); m = c.mem("msg0", O["msg0"][0])
        c.call("tpdkg_start_tp", p, c.v("eps", 64, 0, (1 << 64) - 1), n, t, name, nl, c64(O["msg0"][0]), m); ok = c.ok(); f = lambda x: c.out(p, *O["tp." + x], g=ok)
        c.reach("success", ok); sent(c, ok, m, c64(0), c64(O["msg0"][0]), 0, const(0, 8), const(255, 8), f("sig_sk"), f("sessionid"), "announcement")
    def f(r):
        c, s = r.c, r.s; c.reach("success", r.ok)
        for ix, off, size, no, frm, to in sends(r):
            g = mkand(r.ok, rng(r, ix)); g = mkand(g, neg(eq(r.ol, K(0)))) if (r.role, r.st) == ("peer", 7) else g; sk = s.get("sig_sk", r.ok)
            sent(c, g, r.o, off, size, no, frm, to, sk, r.sid, "message type %d" % no, insts(ix))
        c.same("session id unchanged", r.ok, s.get("sessionid", r.ok), r.sid)
        if (r.role, r.st) == ("peer", 0):
            kp = [x for x in r.evs if x.k == "keypair"]
            c.prove("the session key is new", r.ok, shape(len(kp) == 1)); c.same("the announced key is the session key", r.ok, c.out(r.o, HDR, 32, r.ok), kp[0].a[0]); c.same("the key kept is its secret part", r.ok, s.get("sig_sk", r.ok), kp[0].a[1])
            c.same("signed in full with the long-term key", r.ok, c.out(r.o, 175, 64, r.ok), uf("sig", 512, s.fld("lt_sk"), c.pieces(r.o, 0, 175, r.ok)))
            c.same("long-term key erased", r.ok, s.get("lt_sk", r.ok), const(0, 512))
            c.same("channel key announced", r.ok, c.out(r.o, HDR + 32, 32, r.ok), s.get("noise_pk", r.ok))
        else: c.same("session key unchanged", r.ok, s.get("sig_sk", r.ok), s.fld("sig_sk"))
    for role, st in STEPS:
        if (role, st) in HARD: continue
        step(ctx, role, st, f, "ok")
# ------------------------------------------------------------------ C20
NEXT = {"tp": "tpdkg_tp_next", "peer": "tpdkg_peer_next"}; NOTDONE = {"tp": "tpdkg_tp_not_done", "peer": "tpdkg_peer_not_done"}
def C20(ctx):
    def f(r):
        c, s, st = r.c, r.s, r.st; nx = lambda g: s.get("step", g); w = lambda k: const(k, 32)
        c.reach("success", r.ok); c.reach("failure", r.bad)
        if (r.role, st) == ("peer", 7):
            c.same("revealing keys ends the run", r.ok, nx(r.ok), w(100))
        elif (r.role, st) in (("tp", 6), ("peer", 6)):
            z = eq(s.get("complaints_len", r.ok), const(0, 16)); c.same("the resolution step is skipped exactly without complaints", r.ok, nx(r.ok), ite(z, w(8), w(7)))
        else: c.same("success advances by one step", r.ok, nx(r.ok), w(st + 1))
        c.same("any error ends the run", r.bad, nx(r.bad), w(99))
    def resolution(r):
        c, s = r.c, r.s; c.reach("failure", r.bad); c.prove("the resolution step always ends the run with an error", r.out, mkand(neg(eq(r.ret, const(0, 32))), eq(s.get("step", r.out), const(99, 32))))
    for role, st in STEPS:
        if (role, st) in HARD: continue
        step(ctx, role, st, f)
    step(ctx, "tp", 7, resolution, pre=lambda r: use_cheat(r, False))
    for role in ("tp", "peer"):
        with ctx.case("%s after the end" % role) as c:
            s = (TP if role == "tp" else PE)(c, 0); k = c.v("k", 32, 0, (1 << 31) - 1); s.put("step", k); end = const(10 if role == "tp" else 11, 32); fin = mkand(s.pre, ule(const(10, 32), k), ult(k, const((1 << 31) - 1, 32)))
            il, ol = c.v("inlen", 64, 0, 1 << 30), c.v("outlen", 64, 0, 1 << 30); i, o = c.mem("in", il), c.mem("out", ol)
            c.call(NOTDONE[role], s.p, g=mkand(s.pre)); 
            c.prove("reports being done exactly after the last step", s.pre, iff(eq(c.ret, const(0, 32)), ule(end, k)))
            if role == "tp": use_all(c, "any")
            c.call(NEXT[role], s.p, i, il, o, ol, g=fin)
            late = mkand(fin, c.gout) if role == "tp" else mkand(fin, c.gout, neg(eq(k, const(10, 32))))
            c.prove("a later call reports an error", late, neg(eq(c.ret, const(0, 32))))
            nx = s.get("step", mkand(fin, c.gout)); c.prove("a later call leaves the run ended", mkand(fin, c.gout), ule(const(10, 32), nx))
            c.prove("a later call never panics into another step", mkand(fin, c.gout), c.gout)
            c.untouched("a later call writes no output", o, fin)
            for q, nm in ((s.pks, "keys"), (s.com, "commitments"), (s.compl, "complaints"), (s.lts, "references")) + (((s.ch, "violations"), (s.enc, "shares")) if role == "tp" else ((s.sh, "shares"), (s.xsh, "received shares"), (s.my, "own complaints"))): c.untouched("a later call does not change the %s" % nm, q, fin)
def iff(a, b): return mkand(imp(a, b), imp(b, a))
HARD = {("tp", 7)}
# ------------------------------------------------------------------ C15
def region(c, name, g, p, off, src, soff, n, inst=()):
    """obligation: n bytes at p+off are those the caller provided at src+soff"""
    off, soff = canon64(off), canon64(soff)
    if isc(n): return c.same(name, g, c.out(p, off, cv(n), g), init(src, soff, 8 * cv(n)), inst)
    return c.samebytes(name, g, mk("pieces", (mk("slice", (src, soff, n), -2),), -2), p, off, n, inst)
def ltsig(r, g, inst, i):
    """the long-term signature of the first message of peer i covers all of it and verifies under the key registered for this peer"""
    c = r.c; off = mul(i, K(239)); alts = []
    for ev in r.evs:
        if ev.k != "verify": continue
        for S, b in at_index(ev, (i,)):
            a = tuple(S(x) for x in ev.a)
            if isinstance(a[0], Ptr) and a[0].obj is r.i.obj: alts.append((a, mkand(S(ev.g), b), S(ev.r)))
    best = [x for x in alts if holds(c, g, x[1], inst)]
    if len(best) != 1: c.prove("the long-term signature is checked", g, FALSE if not alts else mkor(*[x[1] for x in alts]), inst); return
    a, eg, res = best[0]
    c.prove("the long-term signature is checked", g, eg, inst); c.prove("the long-term signature is valid", g, res, inst)
    c.same("it is the one following the message", g, a[0].off, add(off, K(175)), inst); c.same("it covers the message from its start", g, a[1].off, off, inst)
    c.prove("it is about this batch", g, shape(a[1].obj is r.i.obj and isinstance(a[3], Ptr) and a[3].obj is r.s.ltpks.obj)); c.same("it covers the whole message", g, zext(a[2], 64), K(175), inst)
    c.same("under the key registered for the peer", g, a[3].off, mul(i, K(32)), inst); c.same("that key is unchanged", g, a[6], init("ltpks", mul(i, K(32)), 256), inst)
def C15(ctx):
    def any_(r):
        c, s = r.c, r.s; c.reach("success", r.ok); validated(r, r.ok, "success")
        i = c.v("i", 64, 0, 127); j = c.v("j", 64, 0, 127)
        if r.st == 1: ltsig(r, mkand(r.ok, rng(r, (i,))), insts((i,)), i)
        if r.st == 6: c.prove("success: the list of message i fits", mkand(r.ok, rng(r, (i,))), ule(init("in", canon64(add(mul(i, add(K(112), s.N)), K(HDR))), 8), s.n), insts((i,)))
        cl = s.get("cheater_len", r.ok); c.same("success leaves no violation recorded", r.ok, cl, K(0), insts((i, j)))
        c.same("a recorded violation is not removed", r.ok, s.clen0, K(0), insts((i, j)))
    def ok_(r):
        c, s, st = r.c, r.s, r.st; n, t = s.N, s.T; i, j = c.v("i", 64, 0, 127), c.v("j", 64, 0, 127); c.reach("success", r.ok)
        g = mkand(r.ok, rng(r, (i, j) if st in (2, 3, 5) else (i,))); inst = insts((i, j))
        if st == 1:
            region(c, "broadcast: message i unchanged", g, r.o, add(K(HDR), mul(i, K(175))), "in", mul(i, K(239)), K(175), inst)
            region(c, "key of peer i", g, s.pks, mul(i, K(32)), "in", add(mul(i, K(239)), K(HDR)), K(32), inst)
        elif st in (2, 3, 5):
            sz = K(256 if st == 5 else 159)
            region(c, "message of sender i to recipient j unchanged, at place i of batch j", g, r.o, mul(add(mul(j, n), i), sz), "in", mul(add(mul(i, n), j), sz), sz, inst)
            if st == 5: region(c, "encrypted share kept under sender and recipient", g, s.enc, mul(add(mul(i, n), j), sz), "in", mul(add(mul(i, n), j), sz), sz, inst)
        elif st in (4, 6):
            sz = add(K(HDR), mul(K(32), t)) if st == 4 else add(K(112), n)
            region(c, "broadcast: message i unchanged", g, r.o, add(K(HDR), mul(i, sz)), "in", mul(i, sz), sz, inst)
            if st == 4: region(c, "commitments of peer i", g, s.com, mul(mul(i, t), K(32)), "in", add(mul(i, sz), K(HDR)), mul(t, K(32)), inst)
        c.same("nothing but these messages and the envelope is emitted", r.ok, r.ol, r.tout[st]); c.same("nothing but the expected messages is read", r.ok, r.il, mul(s.N, r.tin[st]))
        for q, nm, k in ((s.pks, "keys", 1), (s.com, "commitments", 4), (s.enc, "encrypted shares", 5), (s.ltpks, "long-term keys", None)):
            if st != k: c.untouched("%s unchanged" % nm, q, s.pre)
    for st in (1, 2, 3, 4, 5, 6): step(ctx, "tp", st, any_)
    for st in (1, 2, 3, 4, 5, 6): step(ctx, "tp", st, ok_, "ok")
# ------------------------------------------------------------------ C16
CHEAT = "add_cheater"
def use_cheat(r, full=True):
    """recording a violation by its contract (proved below): an entry with these fields is appended and a pointer to it returned, unless the list is full"""
    c, s = r.c, r.s
    takes(c, "recording a violation is used by its contract, proved in C16" + ("" if full else "; in the resolution step the list is taken to have room (the full list is covered by C16 for the recording function only)"))
    if CHEAT not in c.e.funcs or len(c.e.funcs[CHEAT][1].params) != 5: raise Missing(CHEAT)
    def f(e, a, g, loc, tag):
        O = offs(); q = at(a[0], O["tp.cheater_len"][0])
        if e.annot is not None: e.annot.cheat(e, a[1:], g, loc)
        if not full:
            # with room for all entries: how many there are is left open
            e.event("cheat", g, tuple(a[1:]), TRUE, loc); return Ptr(e.obj("entry:" + tag, O["ch."][0]), c64(0)), g
        n = e.load(q, 8, g, loc); room = ult(n, e.load(at(a[0], O["tp.cheater_max"][0]), 8, g, loc))
        e.store(q, add(n, c64(1)), 8, mkand(g, room), loc)
        e.event("cheat", g, tuple(a[1:]), room, loc)
        return vite(room, Ptr(s.ch.obj, mul(n, c64(O["ch."][0]))), Ptr(e.heap, c64(0))), g
    c.e.contracts[CHEAT] = f
def cheat_contract(ctx):
    for log in (False, True):
        with ctx.case("recording a violation%s" % (", logging" if log else "")) as c:
            O = offs(); s = TP(c, 4, log=log); fs_ = ("step", 32), ("error", 32), ("peer", 8), ("other_peer", 8); a = [c.v("a_" + x, w, 0, (1 << w) - 1) for x, w in fs_]
            if CHEAT not in c.e.funcs: raise Missing(CHEAT)
            c.call(CHEAT, s.p, *a, g=s.pre); g = mkand(s.pre, c.gout); room = ult(s.clen0, s.cmax); ok = mkand(g, room); full = mkand(g, neg(room))
            c.reach("room", ok); c.reach("full", full); at_ = mul(s.clen0, c64(O["ch."][0]))
            for cnd, p in ptrs(c.ret, g): c.prove("the new entry is returned exactly if there is room", cnd, mkand(room, eq(p.off, at_)) if p.obj is s.ch.obj else mkand(neg(room), eq(p.off, c64(0))))
            c.prove("ends", s.pre, c.gout)
            for (x, w), v in zip(fs_, a): o, n = O["ch." + x]; c.same("entry: " + x, ok, c.out(s.ch, add(at_, c64(o)), n, ok), trunc(v, 8 * n) if v.w > 8 * n else v)
            c.same("one more entry", ok, s.get("cheater_len", ok), add(s.clen0, c64(1))); c.same("no entry if full", full, s.get("cheater_len", full), s.clen0)
            k = c.v("k", 64, 0, 1 << 20)
            for x, w in fs_: o, n = O["ch." + x]; c.same("earlier entries keep their " + x, mkand(g, ult(k, s.clen0)), c.out(s.ch, add(mul(k, c64(O["ch."][0])), c64(o)), n, mkand(g, ult(k, s.clen0))), init("cheaters", canon64(add(mul(k, c64(O["ch."][0])), c64(o))), 8 * n))
            for q, nm in ((s.pks, "keys"), (s.com, "commitments"), (s.enc, "shares"), (s.compl, "complaints")): c.untouched("%s unchanged" % nm, q, s.pre)
            for x in ("step", "n", "t", "complaints_len", "cheater_max"): c.same("%s unchanged" % x, g, s.get(x, g), {"step": const(4, 32), "n": s.n, "t": s.t, "cheater_max": s.cmax}.get(x) if x != "complaints_len" else s.fld(x))
REPORT = {1: (4, 255), 2: (6, None), 3: (8, None), 4: (12, 255), 5: (14, None), 6: (16, 255), 8: (20, 0), 9: (22, 0)}
def never(c, name, r, kind):
    """no event of this kind happens"""
    c.prove(name, s_pre(r), mkand(*[neg(mkand(e.g, *[ult(z64(v), z64(k)) for v, k in e.vars])) for e in r.evs if e.k == kind]))
def s_pre(r): return r.s.pre
def insts_at(r, kind, ix, test=lambda a: True, perm=True):
    """instances of the events of one kind with their loop variables mapped to the given indices in every way: (arguments, condition, result)"""
    import itertools; out = []
    for ev in r.evs:
        if ev.k != kind: continue
        vs = [v[0] for v in ev.vars]
        for p in (itertools.permutations if perm else itertools.combinations)(ix, len(vs)):
            m = {v: (trunc(x, v.w) if v.w < 64 else x) for v, x in zip(vs, p)}
            S = lambda t: (Ptr(t.obj, subst(t.off, m)) if isinstance(t, Ptr) else subst(t, m) if isinstance(t, T) else t)
            a = tuple(S(x) for x in ev.a); g = mkand(S(ev.g), *[ult(zext(m[v], 64), zext(S(k), 64)) for v, k in ev.vars])
            if test(a) and g is not FALSE: out.append((a, g, S(ev.r)))
    return out
def C16(ctx):
    cheat_contract(ctx)
    def f(r):
        c, s, st = r.c, r.s, r.st
        if c.writes(s.ch): raise Unsupported("violations recorded in another way")
        (ix, off, size, no, frm, to, pk, lt), = r.msgs; inst = insts(ix); i = ix[0]; stp, oth = REPORT[st]
        oth = const(oth, 8) if oth is not None else add(trunc(ix[1], 8), const(1, 8)); gi = mkand(r.out, rng(r, ix)); one = add(trunc(i, 8), const(1, 8))
        c.reach("success", r.ok); c.reach("failure", r.bad)
        mine = lambda a: isinstance(a[0], Ptr) and a[0].obj is r.i.obj
        rc, ch, vf = insts_at(r, "recv", ix, mine), insts_at(r, "cheat", ix), insts_at(r, "verify", ix, mine) if st == 1 else []
        about = lambda p, o: mkand(eq(p, one), eq(o, to))
        for q, x in enumerate(rc):
            ixs = dict(zip(ix, (zext(sub(v, const(1, 8)), 64) for v in x[0][3:5])))
            c.prove("a message is validated at its own place (%d)" % q, mkand(gi, x[1]), eq(x[0][0].off, canon64(subst(off, ixs))), inst)
        inv = [(mkand(x[1], about(x[0][3], x[0][4]), neg(eq(x[2], const(0, 32)))), add(x[2], const({8: 1}.get(st, 64), 32))) for x in rc] + [(mkand(x[1], eq(x[0][1].off, off), neg(x[2])), const(70, 32)) for x in vf]
        if st == 6: inv += [(mkand(x[1], about(x[0][3], x[0][4]), eq(x[2], const(0, 32)), ult(s.n, init("in", canon64(add(off, K(HDR))), 8))), const(65, 32)) for x in rc]
        bad = mkor(*[x[0] for x in inv]); b = mkand(gi, bad)
        c.reach("invalid message", b)
        full = lambda a: mkand(eq(a[0], const(stp, 32)), eq(a[2], one), eq(a[3], oth))
        c.prove("an invalid message is reported with its step, sender and recipient", b, mkor(*[mkand(x[1], full(x[0])) for x in ch]), inst)
        c.prove("an invalid message fails the step", b, neg(eq(r.ret, const(0, 32))), inst)
        for q, (cnd, code) in enumerate(inv): c.prove("the reason is reported (%d)" % q, mkand(gi, cnd), mkor(*[mkand(x[1], full(x[0]), eq(x[0][1], code)) for x in ch]), inst)
        for q, x in enumerate(ch):
            w = mkand(gi, x[1]); n1 = lambda v: mkand(ule(const(1, 8), v), ule(v, s.n))
            # reports about single complaints are the subject of C18
            ofm = ule(const(64, 32), x[0][1]) if st == 6 else TRUE
            if st == 6: c.prove("every report has the step and a sender (%d)" % q, w, mkand(eq(x[0][0], const(stp, 32)), mkor(n1(x[0][2]), mkand(eq(x[0][1], const(6, 32)), eq(x[0][2], const(254, 8)), ule(s.T2, zext(s.get("complaints_len", w), 64))))), inst)
            c.prove("every report concerns a message (%d)" % q, mkand(w, ofm), mkand(eq(x[0][0], const(stp, 32)), n1(x[0][2]), n1(x[0][3]) if len(ix) > 1 else eq(x[0][3], oth)), inst)
            extra = other(r, ix, x) if st in (8, 9) else FALSE
            c.prove("only an invalid message is reported (%d)" % q, mkand(w, ofm, eq(x[0][2], one), eq(x[0][3], oth)), mkor(bad, extra), inst)
            c.prove("a full list fails the step (%d)" % q, mkand(w, neg(x[2])), neg(eq(r.ret, const(0, 32))), inst)
        L = s.get("cheater_len", r.out); c.prove("the list never shrinks", r.out, ule(s.clen0, L), inst); c.same("success means an empty list", r.ok, L, K(0), inst)
    def other(r, ix, x):
        """further grounds: the transcript differs, the acknowledgement is not given"""
        off = mul(ix[0], K(143 if r.st == 8 else 113))
        if r.st == 9: return neg(eq(init("in", canon64(add(off, K(HDR))), 16), const(0x4b4f, 16)))
        fin = [ev for ev in r.evs if ev.k == "hfinal"]
        return neg(eq(init("in", canon64(add(off, K(HDR))), 256), fin[0].r if isinstance(fin[0].r, T) else fin[0].a[1]))
    for st in (1, 2, 3, 4, 5, 6, 8, 9): step(ctx, "tp", st, f, pre=use_cheat)
# ------------------------------------------------------------------ C18
def C18(ctx):
    def rec(r):
        c, s = r.c, r.s; c.reach("success", r.ok); c.reach("failure", r.bad); cl = s.get("complaints_len", r.out); many = mkand(r.out, ule(s.T2, zext(cl, 64)))
        c.reach("t*t complaints", many)
        c.prove("t*t complaints fail the step", many, neg(eq(r.ret, const(0, 32))))
        q = [x for x in r.evs if x.k == "cheat" and not x.vars]
        c.prove("t*t complaints are reported unless another failure ended the step before", mkand(many, eq(r.ret, const(5, 32))), mkor(*[mkand(x.g, eq(x.a[0], const(16, 32)), eq(x.a[1], const(6, 32)), eq(x.a[2], const(254, 8)), eq(x.a[3], const(254, 8))) for x in q]))
        i = c.v("i", 64, 0, 127); one = add(trunc(i, 8), const(1, 8)); cnt = init("in", canon64(add(K(HDR), mul(i, add(s.N, K(112))))), 8)
        rc = insts_at(r, "recv", (i,))
        for x in insts_at(r, "cheat", (i,)):
            if i in fv(x[0][2]): c.prove("a message is reported only if it is not valid or announces more complaints than there are peers", mkand(r.out, rng(r, (i,)), x[1]), mkand(eq(x[0][2], one), mkor(*[mkand(y[1], neg(eq(y[2], const(0, 32)))) for y in rc], ult(s.n, cnt))), insts((i,)))
        for x in q: c.prove("reported as too many only then", mkand(r.out, x.g, eq(x.a[1], const(6, 32))), ule(s.T2, zext(cl, 64)))
    def pre6(r): use_cheat(r); r.c.e.annot.full = True
    step(ctx, "tp", 6, rec, pre=pre6)
    step(ctx, "tp", 7, resolve, pre=lambda r: use_cheat(r, False))
def resolve(r):
    c, s = r.c, r.s; i, k = c.v("i", 64, 0, 127), c.v("k", 64, 0, 127); one = add(trunc(i, 8), const(1, 8)); ctr = s.nabout(i, r.cl); Z = const(0, 32); inst = insts((i, k))
    for ev in r.evs:
        if any(v.args[0] == "clen" for x in (ev.g,) + tuple(y for y in ev.a if isinstance(y, T)) for y in conj(x) if y is not neg(ult(s.cmax, s.clen0)) for v in fv(y)): raise Unsupported("depends on the number of violations recorded before")
    c.prove("the step never succeeds", r.out, neg(eq(r.ret, Z))); c.reach("resolution", r.out); c.untouched("nothing is sent", r.o, s.pre); never(c, "nothing is signed", r, "sign")
    rep = lambda ix, code, who: mkor(*[mkand(x[1], eq(x[0][0], const(18, 32)), eq(x[0][1], code), eq(x[0][2], one), eq(x[0][3], who)) for x in insts_at(r, "cheat", ix, perm=False)])
    only = lambda kind, ix, test, g, what: occ(r, kind, ix, test, g, what, inst)
    run = mkand(r.out, eq(r.ret, const(3, 32))); gi = mkand(run, rng(r, (i,)), neg(eq(ctr, K(0))))
    typ = lambda no: lambda a: isc(a[2]) and cv(a[2]) == no
    d = only("recv", (i,), typ(11), gi, "the disclosure of every accused is validated")
    if d is None: return
    a, dc, dr = d; m = a[0].off; ok = mkand(gi, dc, eq(dr, Z)); bad = mkand(gi, dc, neg(eq(dr, Z))); c.reach("valid disclosure", ok); c.reach("invalid disclosure", bad)
    c.prove("it is read from the input", gi, shape(a[0].obj is r.i.obj)); c.same("has one entry for every complaint", gi, a[1], add(K(HDR), mul(K(33), ctr)), inst); c.same("comes from the accused", gi, a[3], one, inst)
    c.same("under the key of the accused", gi, a[5], init("sigpks", canon64(mul(i, K(32))), 256), inst); c.same("in this session", gi, a[6], r.sid, inst)
    c.prove("an invalid disclosure blames the accused", bad, rep((i,), add(dr, const(32, 32)), const(254, 8)), inst)
    gk = mkand(ok, ult(k, ctr)); who = init("in", canon64(add(m, add(K(HDR), mul(k, K(33))))), 8); key = init("in", canon64(add(m, add(K(HDR + 1), mul(k, K(33))))), 256)
    X = [x for x in insts_at(r, "recv", (i, k), perm=False) if typ(8)(x[0])]; ex = mkor(*[x[1] for x in X])
    c.prove("every entry of a valid disclosure is examined or reported as not asked for", gk, mkor(ex, rep((i, k), const(6, 32), who)), inst)
    if len(X) != 1: raise Unsupported("contested shares validated in several places")
    a, xc, xr = X[0]; g = mkand(gk, xc); w8 = zext(sub(who, const(1, 8)), 64); at_ = mul(add(mul(i, s.N), w8), K(256)); c.reach("contested share", g)
    mk = insts_at(r, "marked", (i, k), perm=False)
    if c.e.annot.deep: c.e.note("complaints marked in a deeper loop: not decided that each is")
    else: c.prove("the complaint an entry answers is marked as answered", g, mkor(*[mkand(x[1], eq(x[0][1], const(0xffff, 16)), ult(x[0][0], mul(zext(r.cl, 64), K(2)))) for x in mk]), inst)
    c.prove("the complainer is a peer", g, mkand(ule(const(1, 8), who), ule(who, s.n)), inst)
    c.prove("the share looked at is the one sent", g, shape(isinstance(a[0], Ptr) and a[0].obj is s.enc.obj)); c.same("by the accused to the complainer", g, a[0].off, at_, inst)
    c.same("as a whole", g, zext(a[1], 64), K(256), inst); c.same("sender", g, a[3], one, inst); c.same("recipient", g, a[4], who, inst); c.same("signed by the accused", g, a[5], init("sigpks", canon64(mul(i, K(32))), 256), inst); c.same("in the session", g, a[6], r.sid, inst)
    c.untouched("the shares kept are not changed", s.enc, s.pre); c.untouched("the commitments kept are not changed", s.com, s.pre); c.untouched("the keys kept are not changed", s.pks, s.pre)
    J = []
    def stage(cond, code, what):
        J.append((cond, code)); c.reach("%s (case)" % what, cond); c.prove("%s blames the accused" % what, cond, rep((i, k), code, who), inst)
    stage(mkand(g, neg(eq(xr, Z))), add(xr, const(16, 32)), "a contested share that is not authentic"); g = mkand(g, eq(xr, Z))
    x = only("macok", (i, k), lambda a: True, g, "the key revealed is checked against the message")
    if x is None: return
    a = x[0]; c.prove("the tag is that of the message", g, mkand(shape(isinstance(a[0], Ptr) and a[0].obj is s.enc.obj), eq(a[0].off, add(at_, K(HDR + 113)))), inst); c.same("the key is the one of the entry", g, a[3], key, inst)
    c.prove("the tag covers the encrypted share", g, mkand(shape(isinstance(a[1], Ptr) and a[1].obj is s.enc.obj), eq(a[1].off, add(at_, K(HDR + 64))), eq(zext(a[2], 64), K(49))), inst)
    mp = canon64(a[1].off) if isinstance(a[1], Ptr) else FALSE      # shown above to be the place of the encrypted share
    stage(mkand(g, neg(x[2])), const(3, 32), "a key that does not fit"); g = mkand(g, x[2])
    x = only("aead", (i, k), lambda a: True, g, "the share is decrypted")
    if x is None: return
    a = x[0]; c.same("with the key of the entry", g, a[0], key, inst); c.prove("from the message", g, mkand(shape(a[1].op == "init" and a[1].args[0] == s.enc.obj.name and a[1].w == 392), eq(a[1].args[1], mp)) if a[1].op == "init" else FALSE, inst); sh = uf("aeaddec", 264, a[0], a[1])
    stage(mkand(g, neg(x[2])), const(4, 32), "a share that does not decrypt"); g = mkand(g, x[2]); idx = trunc(sh, 8)
    stage(mkand(g, neg(eq(idx, who))), const(5, 32), "a share for another recipient"); g = mkand(g, eq(idx, who))
    x = only("dkg_verify_one", (i, k), lambda a: True, g, "the share is checked against the commitments")
    if x is None: return
    a = x[0]; c.same("number of peers", g, a[0], s.n); c.same("threshold", g, a[1], s.t); c.same("the index of the complainer", g, a[2], who, inst); c.same("the number of the accused", g, a[3], one, inst); c.same("the decrypted share", g, a[5], sh, inst)
    c.prove("the commitments of the accused", g, mkand(shape(isinstance(a[4], Ptr) and a[4].obj is s.com.obj), eq(a[4].off, mul(mul(i, s.T), K(32)))), inst)
    stage(mkand(g, eq(x[2], const(1, 32))), const(129, 32), "a share that does not match the commitments"); stage(mkand(g, ult(const(1, 32), x[2])), const(127, 32), "a share that cannot be checked")
    good = mkand(g, eq(x[2], Z)); c.reach("sound share", good); c.prove("a sound share blames the complainer", good, rep((i, k), const(128, 32), who), inst); J.append((good, const(128, 32)))
    for q, x in enumerate([x for x in insts_at(r, "cheat", (i, k), perm=False)]):
        lo, hi = urange(x[0][1]); h = mkand(run, rng(r, (i,)), x[1]); vs = fv(x[1]) | fv(x[0][3])
        if k not in vs or i not in vs: continue
        c.prove("a verdict is of this step (%d)" % q, h, mkand(eq(x[0][0], const(18, 32)), eq(x[0][2], one), eq(x[0][3], who)), inst)
        c.prove("a verdict is the one of the case (%d)" % q, h, mkor(eq(x[0][1], const(6, 32)), *[mkand(y, eq(x[0][1], code)) for y, code in J]), inst)
    # complaints left over
    q = c.v("q", 64, 0, 16383); iq = insts((q,)); cp = c.e.annot.arrs.get("copy")
    if cp is None: raise Unsupported("no working copy of the complaints")
    gq = mkand(run, ult(q, zext(r.cl, 64))); v = c.out(Ptr(cp[0], c64(0)), mul(q, K(2)), 2, gq); left = mkand(gq, neg(eq(v, const(0xffff, 16)))); c.reach("complaint left over", left)
    fin = [x for x in insts_at(r, "cheat", (q,)) if q in fv(x[1]) and isc(x[0][1]) and cv(x[0][1]) == 7]; A, B = uf("acc", 8, q), uf("cpl", 8, q)
    c.prove("a complaint left unanswered blames the accused", left, mkor(*[mkand(x[1], eq(x[0][0], const(18, 32)), eq(x[0][2], A), eq(x[0][3], B)) for x in fin]), iq)
    for x in fin: c.prove("reported as unanswered only then", mkand(gq, x[1]), mkand(left, eq(x[0][2], A), eq(x[0][3], B)), iq)
# ------------------------------------------------------------------ C19
def C19(ctx):
    def frame(r):
        c, s = r.c, r.s; c.reach("end", r.out)
        for x in ("complaints_len", "my_complaints_len"): c.same("%s unchanged" % x, r.out, s.get(x, r.out), s.fld(x))
        for q, nm in ((s.compl, "complaints"), (s.my, "complaints against this peer")): c.untouched("%s unchanged" % nm, q, s.pre)
    def rec(r):
        c, s = r.c, r.s; c.reach("success", r.ok); validated(r, r.ok, "success"); cl = s.get("complaints_len", r.ok); any_ = neg(eq(cl, const(0, 16))); c.reach("complaints", mkand(r.ok, any_))
        c.prove("with any complaint no success phase follows", mkand(r.ok, any_), eq(s.get("step", r.ok), const(7, 32)))
        c.untouched("nothing is sent", r.o, s.pre); never(c, "no key is looked up", r, "getkey")
        for q, nm in ((s.outs, "sessions"), (s.ins, "incoming sessions")): c.untouched("%s unchanged" % nm, q, s.pre)
    def pre6(r): r.c.e.annot.full = True
    def reveal(r):
        c, s = r.c, r.s; q = c.v("q", 64, 0, 127); inst = insts((q,)); c.reach("success", r.ok); ml = zext(s.ml, 64); g = mkand(r.ok, ult(q, ml)); c.reach("entry", g)
        who = uf("mine", 8, q); sess = uf("osess", 64, zext(sub(who, const(1, 8)), 64)); key = init("heap", uf("skey", 64, sess), 256)
        c.same("entry q names complainer q", g, c.out(r.o, add(K(HDR), mul(q, K(33))), 1, g), who, inst)
        c.same("and discloses the key of the channel to this complainer", g, c.out(r.o, add(K(HDR + 1), mul(q, K(33))), 32, g), key, inst)
        c.prove("one entry per complainer and nothing else", r.ok, eq(r.ol, ite(eq(s.ml, const(0, 8)), K(0), add(K(HDR), mul(ml, K(33))))))
        for n_, x in enumerate(insts_at(r, "getkey", (q,))): c.prove("no other key is looked up (%d)" % n_, mkand(r.out, x[1]), mkand(eq(x[0][0], sess), ult(q, ml)), inst)
        c.frame("written inside the buffer", r.o, 0, r.ol)
        c.prove("the run ends", r.out, ule(const(99, 32), s.get("step", r.out)))
        for q_, nm in ((s.sh, "shares"), (s.xsh, "received shares")): c.untouched("%s unchanged" % nm, q_, s.pre)
        c.same("no share of the result is put out", r.out, s.get("share", r.out), s.fld("share"))
    for st in range(6): step(ctx, "peer", st, frame)
    step(ctx, "peer", 6, rec, pre=pre6)
    step(ctx, "peer", 7, reveal)
    with ctx.case("peer after the end") as c:
        s = PE(c, 0); k = c.v("k", 32, 0, (1 << 31) - 1); s.put("step", k); fin = mkand(s.pre, ule(const(10, 32), k), ult(k, const((1 << 31) - 1, 32)))
        il, ol = c.v("inlen", 64, 0, 1 << 30), c.v("outlen", 64, 0, 1 << 30); i, o = c.mem("in", il), c.mem("out", ol)
        c.call(NEXT["peer"], s.p, i, il, o, ol, g=fin); g = mkand(fin, c.gout); c.reach("call", g)
        c.prove("the run stays ended", g, ule(const(10, 32), s.get("step", g))); c.untouched("nothing is put out", o, fin); c.same("no share of the result is put out", g, s.get("share", g), s.fld("share"))
def occ(r, kind, ix, test, g, what, inst):
    """obligation: under g one event of this kind happens; returns (arguments, condition, result)"""
    xs = [x for x in insts_at(r, kind, ix, perm=False) if test(x[0])]
    if len(xs) > 1: xs = [x for x in xs if holds(r.c, g, x[1], inst)][:1] or xs
    r.c.prove(what, g, mkor(*[x[1] for x in xs]) if xs else FALSE, inst)
    return xs[0] if len(xs) == 1 else None
# ------------------------------------------------------------------ C17
CHANNEL = {"dev_create": "ptr", "add_peer": "ptr", "sess_new": "ptr", "sess_write": "bool", "sess_read": "bool", "unpack": "bool", "macok": "bool"}
def chan_ok(x, k): return neg(eq(x, const(0, x.w))) if CHANNEL[k] == "ptr" else x
def occurs(r, kind, g, ix, test, what, inst):
    """obligation: under g an event of this kind with these arguments happens; returns its arguments and result"""
    c = r.c
    for a, cnd, res in insts_at(r, kind, ix):
        if not holds(c, g, cnd, inst): continue
        t = test(a)
        if t is TRUE or (t is not FALSE and holds(c, g, t, inst)):
            c.rec(what, True, "z3"); return a, res
    al = insts_at(r, kind, ix); c.prove(what, g, mkor(*[mkand(cnd, test(a)) for a, cnd, res in al]) if al else FALSE, inst)
    return None
def bts(src, off, n): return mk("pieces", (mk("bytes", (init(src, canon64(off), 8 * n),), -2),), -2)
def C17(ctx):
    def any_(r):
        c, s, st = r.c, r.s, r.st; c.reach("success", r.ok); validated(r, r.ok, "success"); i = c.v("i", 64, 0, 127); inst = insts((i,)); g = mkand(r.ok, rng(r, (i,)))
        q = 0
        for k in CHANNEL:
            for a, cnd, res in insts_at(r, k, (i,)):
                c.prove("a failure of the secure channel fails the step (%s %d)" % (k, q), mkand(g, cnd), chan_ok(res, k), inst); q += 1
        sess = lambda a: s.c.e.ptrint(a) if isinstance(a, Ptr) else a
        D = {1: None, 2: (159, 111, 48), 3: (159, 111, 48), 5: (256, 111, 64)}.get(st)
        if st == 1:
            e1 = occurs(r, "add_peer", g, (i,), lambda a: shape(a[1] is init("in", canon64(add(K(HDR + HDR + 32), mul(i, K(175)))), 256)), "the channel to peer i is set up with the channel key from the message of peer i", inst)
            x = occurs(r, "sess_new", g, (i,), lambda a: shape(len(a) > 1 and e1 is not None and e1[1] in subterms(a[1])), "and belongs to that peer", inst)
            if x: c.same("the session is kept in the slot of peer i", g, c.out(s.outs, mul(i, K(8)), 8, g), x[1], inst)
        if st == 2:
            x = occurs(r, "sess_new", g, (i,), lambda a: TRUE, "a session is created to answer peer i", inst)
            if x:
                c.same("the session is kept in the slot of peer i", g, c.out(s.ins, mul(i, K(8)), 8, g), x[1], inst)
                occurs(r, "sess_read", g, (i,), lambda a: mkand(eq(a[0], x[1]), shape(a[1] is bts("in", add(mul(i, K(159)), K(HDR)), 48))), "the handshake of peer i is processed by it", inst)
        if st == 3: occurs(r, "sess_read", g, (i,), lambda a: mkand(eq(a[0], init("outs", canon64(mul(i, K(8))), 64)), shape(a[1] is bts("in", add(mul(i, K(159)), K(HDR)), 48))), "the handshake answer of peer i is processed by the session with peer i", inst)
        if st == 5:
            me = init("ins", canon64(mul(i, K(8))), 64); at_ = lambda k: add(mul(i, K(256)), K(HDR + k))
            occurs(r, "sess_read", g, (i,), lambda a: mkand(eq(a[0], me), shape(a[1] is bts("in", at_(0), 64))), "the handshake of peer i is completed by the session with peer i", inst)
            occurs(r, "macok", g, (i,), lambda a: mkand(shape(isinstance(a[0], Ptr) and a[0].obj is r.i.obj and a[0].off is canon64(at_(113)) and a[4] is bts("in", at_(64), 49)), eq(a[3], init("heap", uf("skey", 64, me), 256))), "the integrity of the share of peer i is checked with the key of that session", inst)
            x = occurs(r, "sess_read", g, (i,), lambda a: mkand(eq(a[0], me), shape(a[1] is bts("in", at_(64), 49))), "the share of peer i is decrypted by the session with peer i", inst)
            if x:
                y = occurs(r, "unpack", g, (i,), lambda a: eq(a[0], x[0][2]), "the decrypted share is authenticated", inst)
                if y:
                    c.same("at the level of a known sender", g, trunc(y[0][1], 8), const(2, 8), inst); c.same("a share has its exact size", g, zext(y[0][2], 64), K(33), inst)
                    c.same("and kept in the slot of peer i", g, c.out(s.xsh, mul(i, K(33)), 33, g), init("heap", y[0][3], 264), inst)
    def ok_(r):
        c, s, st = r.c, r.s, r.st; n, t = s.N, s.T; i = c.v("i", 64, 0, 127); c.reach("success", r.ok); g = mkand(r.ok, rng(r, (i,))); inst = insts((i,))
        if st == 1:
            region(c, "signature key of peer i", g, s.pks, mul(i, K(32)), "in", add(mul(i, K(175)), K(2 * HDR)), K(32), inst)
            region(c, "channel key of peer i", g, s.npks, mul(i, K(32)), "in", add(mul(i, K(175)), K(2 * HDR + 32)), K(32), inst)
        if st == 4:
            sz = add(K(HDR), mul(K(32), t)); region(c, "commitments of peer i", g, s.com, mul(mul(i, t), K(32)), "in", add(K(2 * HDR), mul(i, sz)), mul(t, K(32)), inst)
        for q, nm, k in ((s.pks, "signature keys", (1,)), (s.npks, "channel keys", (1,)), (s.com, "commitments", (4,)), (s.xsh, "received shares", (5,)), (s.outs, "outgoing sessions", (1,)), (s.ins, "incoming sessions", (2,)), (s.compl, "complaints", (6,)), (s.my, "own complaints", (6,))):
            if st not in k: c.untouched("%s unchanged" % nm, q, r.ok)
        if st == 0: c.same("own number", r.ok, s.get("index", r.ok), init("in", K(offs()["msg.to"][0]), 8))
        else: c.same("own number unchanged", r.ok, s.get("index", r.ok), s.me)
    for st in (0, 1, 2, 3, 4, 5, 6, 9): step(ctx, "peer", st, any_)
    for st in range(10): step(ctx, "peer", st, ok_, "ok")
# ------------------------------------------------------------------ C22
def flat(t):
    """(start value, appended bytes) of a transcript state"""
    ds = []
    while t.op == "uf" and t.args[0] == "hsapp": ds.append(t.args[2]); t = t.args[1]
    return t, REBUILD["pieces"](tuple(x for d in reversed(ds) for x in d.args), -2) if ds else None
def appended(r, g, base, p, L, what):
    """obligation: the transcript was extended by the length in four bytes, high byte first, and the whole message at p"""
    c = r.c; t = under(g, r.s.get("transcript", g)); b, d = flat(t)
    full = lambda d: mk("pieces", tuple(mk("famp", x.args[:-1] + (TRUE,), x.w) if x.op == "famp" and c.e.prove(g, x.args[-1], 2000) else x for x in d.args if not (x.op == "slice" and c.e.prove(g, eq(x.args[2], K(0)), 2000))), -2)
    if d is not None and full(d) is full(REBUILD["pieces"]((mk("bytes", (bswap(trunc(L, 32)),), -2),) + c.pieces(p, 0, L, g).args, -2)):
        c.same(what + ": continues the transcript", g, b, base); return c.rec(what + ": the length and the whole message", True, "rewriting")
    if d is None or c.plen(d) is None: return c.rec(what, False, "rewriting", "transcript is %s" % show(t, 6)[:500], refuted=d is None and opaque(t) is None)
    c.same(what + ": continues the transcript", g, b, base); c.same(what + ": nothing else is added", g, c.plen(d), add(L, K(4)))
    k = c.v("k", 64, 0, 1 << 30)
    for x in range(4): c.same(what + ": length, byte %d" % x, g, c.byteat(d, K(x), g), trunc(lshr(L, K(8 * (3 - x))), 8))
    h = mkand(g, ult(k, L)); c.same(what + ": the whole message", h, c.byteat(d, add(k, K(4)), h), c.out(p, k, 1, h), (k,))
def C22(ctx):
    pre = []
    with ctx.case("announcement, orchestrator") as c:
        logging(c, False); O = offs(); M = O["msg0"][0]
        p = c.mem("tp", O["tp."][0]); nl = c.v("nl", 64, 0, (1 << 40)); name = c.mem("name", nl); m = c.mem("msg0", M)
        c.call("tpdkg_start_tp", p, c.v("eps", 64, 0, (1 << 64) - 1), c.v("n", 8, 0, 255), c.v("t", 8, 0, 255), name, nl, c64(M), m); ok = c.ok(); c.reach("success", ok); first(c, ok, c.out(p, *O["tp.transcript"], g=ok), m, M, pre)
    with ctx.case("announcement, peer") as c:
        logging(c, False); O = offs(); M = O["msg0"][0]; p = c.mem("peer", O["peer."][0]); m = c.mem("msg0", M); lt = c.mem("lt", 64)
        c.call("tpdkg_start_peer", p, c.v("eps", 64, 0, (1 << 61) - 1), lt, m); ok = c.ok(); c.reach("success", ok); first(c, ok, c.out(p, *O["peer.transcript"], g=ok), m, M, pre)
    def tr(r):
        c, s, st = r.c, r.s, r.st; c.reach("success", r.ok); base = s.fld("transcript")
        if st in (1, 4, 6): appended(r, r.ok, base, r.o if r.role == "tp" else r.i, r.ol if r.role == "tp" else r.il, "broadcast")
        elif st == 8:
            fin = [e for e in r.evs if e.k == "hfinal"]; c.prove("the transcript is evaluated once", r.ok, shape(len(fin) == 1))
            if fin: c.same("over everything so far", r.ok, fin[0].a[0], base)
            if r.role == "peer" and fin: c.same("and sent", r.ok, c.out(r.o, HDR, 32, r.ok), fin[0].a[1])
        else: c.same("transcript unchanged", r.ok, s.get("transcript", r.ok), base)
        if (r.role, st) != ("peer", 9) and r.role == "peer": c.same("no share yet", r.out, s.get("share", r.out), s.fld("share")); never(c, "no share is computed", r, "dkg_finish")
    def conf(r):
        c, s, st = r.c, r.s, r.st; i = c.v("i", 64, 0, 127); inst = insts((i,)); gi = mkand(r.out, rng(r, (i,))); OKW = const(0x4b4f, 16)
        c.reach("success", r.ok)
        if r.role == "tp":
            validated(r, r.ok, "success"); off = mul(i, K(143 if st == 8 else 113)); d = lambda w: init("in", canon64(add(off, K(HDR))), w)
            if st == 9: c.prove("success only if peer i acknowledged", mkand(r.ok, rng(r, (i,))), eq(d(16), OKW), inst); return
            fin = [e for e in r.evs if e.k == "hfinal"]; mine = fin[0].a[1]
            c.prove("success only if the transcript of peer i is the same", mkand(r.ok, rng(r, (i,))), eq(d(256), mine), inst)
            w = c.out(r.o, HDR, 2, r.out); sent_ = mkand(gi, *[e.g for e in r.evs if e.k == "sign"][:1])
            said = mkand(sent_, eq(w, OKW)); c.reach("confirmation", said)
            c.prove("a confirmation is sent only if the transcript of peer i is the same", said, eq(d(256), mine), inst)
            rc = [x for x in insts_at(r, "recv", (i,), lambda a: isinstance(a[0], Ptr) and a[0].obj is r.i.obj)]
            one = add(trunc(i, 8), const(1, 8))
            c.prove("a confirmation is sent only if the message of peer i is valid", said, mkor(*[mkand(cnd, eq(a[3], one), eq(res, const(0, 32))) for a, cnd, res in rc]), inst)
            c.same("success means the confirmation was sent", r.ok, c.out(r.o, HDR, 2, r.ok), OKW, inst)
        else:
            validated(r, r.ok, "success"); f = [e for e in r.evs if e.k == "dkg_finish"]
            c.prove("success only on the confirmation", r.ok, eq(init("in", K(HDR), 16), OKW)); c.prove("one share is computed", r.ok, shape(len(f) == 1))
            for e in f:
                c.prove("a share is computed only on the confirmation", mkand(r.out, e.g), mkand(eq(init("in", K(HDR), 16), OKW), *[eq(x.r, const(0, 32)) for x in r.evs if x.k == "recv"])); c.prove("and then it is", r.ok, e.g)
                c.same("from all received shares", r.ok, e.a[0], s.n); c.prove("of this run", r.ok, shape(isinstance(e.a[1], Ptr) and e.a[1].obj is s.xsh.obj and isc(e.a[1].off) and cv(e.a[1].off) == 0))
                c.same("for this peer", r.ok, e.a[2], s.me); c.prove("into the share of the state", r.ok, shape(isinstance(e.a[3], Ptr) and e.a[3].obj is s.p.obj and isc(e.a[3].off) and cv(e.a[3].off) == offs()["peer.share"][0]))
                c.same("the share carries the number of the peer", r.ok, trunc(s.get("share", r.ok), 8), s.me); c.same("and the computed value", r.ok, lshr(s.get("share", r.ok), const(8, 264)), zext(e.r, 264))
            c.same("the acknowledgement is sent", r.ok, c.out(r.o, HDR, 2, r.ok), OKW)
    for role, st in STEPS:
        if (role, st) not in HARD: step(ctx, role, st, tr, "ok")
    for x in (("tp", 8), ("tp", 9), ("peer", 9)): step(ctx, *x, conf)
def first(c, g, t, m, M, pre):
    """the transcript of a new run: a fixed prefix, the length and the announcement; the prefix is the same for all roles"""
    t = under(g, t)
    if t.op != "hs": return c.rec("transcript starts with the announcement", False, "rewriting", show(t, 5)[:400], refuted=False)
    d = t.args[1]; L = c.plen(d)
    if L is None or not isc(L): return c.rec("transcript starts with the announcement", False, "rewriting", "length %s" % show(t, 4)[:300])
    k0 = cv(L) - M - 4; c.prove("transcript covers the announcement", g, shape(k0 >= 0))
    if k0 < 0: return
    by = lambda k: c.byteat(d, K(k), g)
    for x in range(4): c.same("length of the announcement, byte %d" % x, g, by(k0 + x), const((M >> (8 * (3 - x))) & 255, 8))
    for x in range(M): c.same("announcement, byte %d" % x, g, by(k0 + 4 + x), c.out(m, x, 1, g))
    pre.append((t.args[0], [by(x) for x in range(k0)]))
    if len(pre) > 1: c.prove("both roles start in the same way", g, shape(pre[0] == pre[1] and pre[0][0] == pre[1][0]))
# ------------------------------------------------------------------ C25
LIVE = {"outs": ("noise_outs", "osess", 2), "ins": ("noise_ins", "isess", 3)}      # table, name of its entries, first step in which all of them exist
def live(r):
    """state of a run without failures: the channel sessions set up so far exist"""
    takes(r.c, "channel sessions alive at the start of a step are pairwise different objects, and a created session differs from all of them")
    takes(r.c, "the tables of sessions at the start of a step are those of a run without failures so far (postcondition of the steps before)")
    e, s, x, j = r.c.e, r.s, var("lv!x", 64), var("lv!j", 64); VR[j] = (0, 127); r.base = {}
    for t, (_, nm, first_) in LIVE.items():
        r.base[t] = lambda k, t=t: init(t, canon64(mul(k, K(8))), 64)
        if r.st < first_ or r.st == 7 and t == "outs":
            if r.st == 7 and t == "outs": r.base[t] = lambda k: uf("osess", 64, k)
            else: r.base[t] = lambda k: c64(0); e.append(getattr(s, t).obj, E("W", TRUE, mul(j, c64(8)), 8, c64(0), ((j, s.N),), "pre"))
            continue
        engine.SCHEMA[nm] = [((x,), neg(eq(uf(nm, 64, x), c64(0))))]; r.base[t] = lambda k, nm=nm: uf(nm, 64, k)
        e.append(getattr(s, t).obj, E("W", TRUE, mul(j, c64(8)), 8, uf(nm, 64, j), ((j, s.N),), "pre"))
def slot(r, x):
    """table and index of the slot a session belongs to: where it was taken from or the round of the loop that created it"""
    if x.op == "init" and x.args[0] in LIVE: return x.args[0], canon64(lshr(x.args[1], K(3))) if not isc(x.args[1]) else K(cv(x.args[1]) // 8), False
    for t, (_, nm, _f) in LIVE.items():
        if x.op == "uf" and x.args[0] == nm: return t, z64(x.args[1]), False
    if x.op == "uf" and x.args[0].startswith("noise:") and len(x.args) > 1: return {1: "outs", 2: "ins"}.get(r.st), z64(x.args[-1]), True
    return None, None, False
def C25(ctx):
    USE = {"sess_read": 0, "sess_write": 0, "getkey": 0, "sess_free": 0}
    def f(r):
        c, s, st = r.c, r.s, r.st; i = c.v("i", 64, 0, 127); inst = insts((i,)); gi = mkand(r.out, rng(r, (i,))); c.reach("success", r.ok)
        never(c, "the device is not released", r, "dev_free")
        new = [(a, g, x) for a, g, x in insts_at(r, "sess_new", (i,))]; fr = []; rel = []; q = 0
        made = [e for e in r.evs if e.k == "dev_create"]; dev = s.get("dev", r.out); old = s.fld("dev")
        c.prove("the device is the created one or the one before", r.out, mkor(eq(dev, old) if not made else mkand(eq(dev, old), *[neg(e.g) for e in made]), *[mkand(e.g, eq(dev, e.r)) for e in made])); c.prove("a device is created only in step 1", r.out, shape(len(made) == (st == 1)))
        for ev in r.evs:
            if ev.k not in USE: continue
            r2 = Run(); r2.evs = [ev]
            for a, g, res in insts_at(r2, ev.k, (i,)):
                x = a[0]; x = c.e.ptrint(x) if isinstance(x, Ptr) else x; q += 1; nm = "%s %d" % ({"sess_free": "release", "getkey": "key"}.get(ev.k, "use"), q)
                if isinstance(x, T) and x.op == "ite": raise Unsupported("session is %s" % show(x, 3))
                h = mkand(r.out, g); t, k, isnew = slot(r, x)
                if t is None: c.rec(nm + ": session comes from a slot", False, "rewriting", show(x, 4)[:300]); continue
                h = mkand(h, rng(r, (i,))) if ev.vars else h; c.prove(nm + ": slot in range", h, ult(k, s.N), inst)
                c.prove(nm + ": the session exists", h, neg(eq(x, c64(0))), insts((i, k)))
                for h0, k0, n0 in fr: c.prove(nm + ": not after release %s" % n0, mkand(h, h0, eq(k, k0)), FALSE, insts((i, k, k0)))
                if ev.k == "sess_free":
                    fr.append((h, k, nm)); rel.append((h, t, k)); c.same(nm + ": the slot is empty afterwards", h, c.out(getattr(s, t), mul(k, K(8)), 8, h), c64(0), insts((i, k)))
        for t in LIVE:
            T_ = getattr(s, t); fin = c.out(T_, mul(i, K(8)), 8, gi); was = r.base[t](i)
            own = [mkand(g, eq(fin, x)) for a, g, x in new if slot(r, x)[0] == t]
            gone = [mkand(h, eq(k, i)) for h, t1, k in rel if t1 == t]
            c.prove("no session of %s is lost" % t, mkand(gi, neg(eq(was, c64(0)))), mkor(eq(fin, was), *gone), inst)
            for a, g, x in new:
                t1, k1, _ = slot(r, x)
                if t1 == t: h1 = mkand(r.out, g, ult(k1, s.N), neg(eq(x, c64(0)))); c.prove("a new session of %s is kept or released" % t, h1, mkor(eq(c.out(T_, mul(k1, K(8)), 8, h1), x), *[mkand(h, eq(k, k1)) for h, t2, k in rel if t2 == t]), insts((i, k1)))
            c.prove("every slot of %s is empty or holds its session or the new one" % t, gi, mkor(eq(fin, c64(0)), eq(fin, was), *own), inst)
            first_ = LIVE[t][2]
            if st >= first_ - 1: c.prove("after success all sessions of %s exist" % t, mkand(r.ok, rng(r, (i,))), neg(eq(fin, c64(0))), inst)
    for st in range(10):
        if ("peer", st) not in HARD: step(ctx, "peer", st, f, pre=live)
    with ctx.case("release") as c:
        s = PE(c, 3); s.put("step", c.v("step", 32)); c.call("tpdkg_peer_free", s.p, g=s.pre); out = mkand(c.gout, s.pre); i = c.v("i", 64, 0, 127); inst = insts((i,)); gi = mkand(out, ult(i, s.N)); r = Run(); r.evs = c.evs
        back = canon64(sub(sub(s.N, K(1)), i)); P = lambda x: c.e.ptrint(x) if isinstance(x, Ptr) else x; evs = [e for e in c.evs if e.k == "sess_free"]; used = set()
        for t in LIVE:
            x = init(t, canon64(mul(i, K(8))), 64); me = []
            for q, ev in enumerate(evs):
                # the loop may run in either direction
                for k in (i, back):
                    one = Run(); one.evs = [ev]
                    hit = [g for a, g, _ in insts_at(one, "sess_free", (k,)) if P(a[0]) is x] if ev.vars else []
                    if hit: me += hit; used.add(q); break
            c.prove("a session of %s is released if it exists" % t, mkand(gi, neg(eq(x, c64(0)))), mkor(*me) if me else shape(False), inst)
            for g in me: c.prove("only an existing session of %s is released" % t, mkand(gi, g), neg(eq(x, c64(0))), inst)
            for q in range(len(me)):
                for q2 in range(q): c.prove("a session of %s is released once" % t, gi, neg(mkand(me[q], me[q2])), inst)
        c.prove("nothing else is released", out, shape(len(used) == len(evs)))
        d = [e for e in c.evs if e.k == "dev_free"]; c.prove("one place releases the device", out, shape(len(d) == 1)); dv = s.fld("dev")
        for e in d: c.same("it is the device", out, P(e.a[0]), dv); c.prove("released exactly if it exists (device)", out, iff(e.g, neg(eq(dv, c64(0))))); c.prove("once", out, shape(not e.vars))
    with ctx.case("start") as c:
        O = offs(); p = c.mem("peer", O["peer."][0]); logging(c, False); m = c.mem("msg0", O["msg0"][0]); lt = c.mem("lt", 64)
        c.call("tpdkg_start_peer", p, c.v("eps", 64, 0, (1 << 61) - 1), lt, m); ok = c.ok(); c.reach("success", ok); c.same("a new run has no device", ok, c.out(p, *O["peer.dev"], g=ok), c64(0))
    with ctx.case("buffers") as c:
        s = PE(c, 0); b = [c.mem("b%d" % k, mul(mul(s.N, s.N), c64(32))) for k in range(9)]; no, ni = c.mem("no", mul(s.N, c64(8))), c.mem("ni", mul(s.N, c64(8)))
        c.call("tpdkg_peer_set_bufs", s.p, b[0], b[1], no, ni, *b[2:8], g=s.pre); out = mkand(c.gout, s.pre); i = c.v("i", 64, 0, 127); g = mkand(out, ult(i, s.N))
        for x, t in ((no, "noise_outs"), (ni, "noise_ins")): c.same("no session in %s" % t, g, c.out(x, mul(i, K(8)), 8, g), c64(0), insts((i,))); c.same("table is used (%s)" % t, out, s.get(t, out), c.e.ptrint(x))
# ------------------------------------------------------------------ C24
def C24(ctx):
    """the obligations on every memory access of every function, with contents left open: buffers, stack arrays, state and arithmetic of sizes"""
    import specs.oprf as A, specs.toprf as B, specs.dkg as D
    def only(f):
        def g():
            n = len(ctx.res); u = len(ctx.unsup); f(ctx); ctx.res[n:] = [x for x in ctx.res[n:] if x.kind == "safety"]
        return g
    def run(r):
        und = lambda t: any(x.op == "uf" and x.args[0].startswith("undef:") for x in subterms(t))
        r.c.reach("end", r.out); r.c.prove("the result and what is done do not depend on uninitialised memory", TRUE, boolc(not any(und(x) for x in [r.ret, r.out] + [ev.g for ev in r.evs])))
    cheat_contract(ctx)
    for role, st in sorted(STEPS, key=lambda x: -x[1] if x[1] in (6, 7) and x[0] == "tp" else 0):
        for log in (False, True):
            step(ctx, role, st, run, log=log, pre=use_cheat if role == "tp" else None)
    import specs
    for m in (A, B, D):
        for nm in sorted(x for x in dir(m) if len(x) == 3 and x[0] == "C" and x[1:].isdigit()): ctx.later(only(getattr(m, nm)))
    for f in (starts14, C21, C23, C26): ctx.later(only(f))
    ctx.later(only(lambda c: (recv_case(c, False, lambda *a: None), recv_case(c, True, lambda *a: None))))
