"""Symbolic protocol states for the contracts of tp-dkg.c; field positions are taken from the compiler on every run."""
import json, os, subprocess, tempfile
from core import *
TPF = "step prev sessionid n t sig_pk sig_sk last_ts ts_epsilon peer_sig_pks peer_lt_pks commitments encrypted_shares complaints_len complaints cheater_len cheaters cheater_max transcript".split()
PEF = "step prev sessionid n t index lt_sk sig_pk sig_sk noise_pk noise_sk tp_sig_pk tp_last_ts last_ts ts_epsilon peer_sig_pks peer_noise_pks dev noise_outs noise_ins commitments shares xshares complaints_len complaints my_complaints_len my_complaints transcript share".split()
MSF = "sig msgno len from to ts sessionid data".split(); CHF = "step error peer other_peer invalid_index".split()
_off = {}
def offs():
    """offsets and sizes of the state structures, from a program compiled against the current header"""
    if _off: return _off
    with tempfile.TemporaryDirectory(prefix="vf-off-") as d:
        src = os.path.join(d, "o.c")
        with open(src, "w") as f:
            f.write('#include <stdio.h>\n#include <stddef.h>\n#include "tp-dkg.h"\nint main(void){\n')
            for k, ty, fl in (("tp", "TP_DKG_TPState", TPF), ("peer", "TP_DKG_PeerState", PEF), ("msg", "TP_DKG_Message", MSF), ("ch", "TP_DKG_Cheater", CHF)):
                f.write('printf("%s. %%zu 0\\n", sizeof(%s));\n' % (k, ty))
                for x in fl:
                    sz = "0" if (k, x) == ("msg", "data") else "sizeof(((%s*)0)->%s)" % (ty, x)
                    f.write('printf("%s.%s %%zu %%zu\\n", offsetof(%s,%s), (size_t)%s);\n' % (k, x, ty, x, sz))
            f.write('printf("msg0 %zu 0\\n", (size_t) tpdkg_msg0_SIZE); printf("msg8 %zu 0\\n", (size_t) tpdkg_msg8_SIZE); printf("share %zu 0\\n", sizeof(TOPRF_Share)); printf("hs %zu 0\\n", sizeof(crypto_generichash_state)); return 0;}\n')
        r = subprocess.run(["clang", "-w", "-DWITH_SODIUM"] + INC + [src, "-o", os.path.join(d, "o")], stderr=subprocess.PIPE)
        if r.returncode: raise Missing("state structures: " + r.stderr.decode()[-400:])
        for l in subprocess.run([os.path.join(d, "o")], stdout=subprocess.PIPE).stdout.decode().split("\n"):
            if l: n, a, b = l.split(); _off[n] = (int(a), int(b))
    return _off
def z8(x): return zext(x, 64)
def C(x): return c64(x) if isinstance(x, int) else x
class St:
    """base of the two roles: fields by name"""
    def off(s, f): return offs()[s.K + "." + f]
    def put(s, f, v):
        o, n = s.off(f)
        if isinstance(v, int): v = const(v, 8 * n)
        s.c.e.quiet += 1; s.c.e.store(at(s.p, o), v, n, TRUE, "pre"); s.c.e.quiet -= 1
        return v
    def get(s, f, g=TRUE):
        o, n = s.off(f); return s.c.out(s.p, o, n, g)
    def fld(s, f):
        """value before the call of a field that was not preset"""
        o, n = s.off(f); return init(s.p.obj.name, c64(o), 8 * n)
    def arr(s, f, name, size):
        q = s.c.mem(name, size); s.put(f, q); return q
def logging(c, on):
    for m in c.ctx.mods:
        if "log_file" in m.globals and m.globals["log_file"][1] is not None:
            o = c.e.global_(m, "log_file")
            if on is not None:
                v = Ptr(c.e.heap, c64(0)) if not on else Ptr(c.e.obj("logstream", 1 << 20), c64(0))
                c.e.quiet += 1; c.e.store(Ptr(o, c64(0)), v, 8, TRUE, "pre"); c.e.quiet -= 1
            return
HB = 111   # checked against the compiler below
class TP(St):
    K = "tp"
    def __init__(s, c, step, n=None, t=None, log=False, cmax=None):
        s.c = c; O = offs(); logging(c, log)
        s.p = c.mem("tp", O["tp."][0])
        s.n = c.v("n", 8, 3, 128) if n is None else const(n, 8); s.t = c.v("t", 8, 2, 127) if t is None else const(t, 8)
        s.N, s.T = z8(s.n), z8(s.t); s.T2 = mul(s.T, s.T)
        s.pre = ult(s.t, s.n)
        s.put("step", step); s.put("n", s.n); s.put("t", s.t)
        s.put("ts_epsilon", c.v("eps", 64, 0, (1 << 61) - 1))
        s.lts = s.arr("last_ts", "last_ts", mul(s.N, c64(8)))
        s.pks = s.arr("peer_sig_pks", "sigpks", mul(s.N, c64(32))); s.ltpks = s.arr("peer_lt_pks", "ltpks", mul(s.N, c64(32)))
        s.com = s.arr("commitments", "commitments", mul(mul(s.N, s.T), c64(32)))
        s.enc = s.arr("encrypted_shares", "enc", mul(mul(s.N, s.N), c64(O["msg8"][0])))
        s.compl = s.arr("complaints", "complaints", mul(mul(s.N, s.N), c64(2)))
        s.cmax = c.v("cmax", 64, 0, 1 << 20); s.clen0 = c.v("clen", 64, 0, 1 << 20)
        s.put("cheater_max", s.cmax); s.put("cheater_len", s.clen0); s.pre = mkand(s.pre, ule(s.clen0, s.cmax))
        s.ch = s.arr("cheaters", "cheaters", mul(s.cmax, c64(O["ch."][0])))
    def complaints(s, cl):
        """recorded complaints: cl pairs with both numbers in 1..n (precondition of the resolution step, postcondition of the recording step)"""
        takes(s.c, "state of the resolution step: the recorded complaints are pairs with both numbers in 1..n (proved for the recording step in C18)")
        takes(s.c, "at most 128 recorded complaints are about the same peer (the pairs are distinct and in range, C18; the counting argument is not machine-checked)")
        e = s.c.e; j = var("cp!j", 64); VR[j] = (0, 16383); s.put("complaints_len", cl); s.pre = mkand(s.pre, ule(zext(cl, 64), mul(s.N, s.N)))
        x = var("cp!x", 64)
        for nm in ("acc", "cpl"):
            term.VRN[nm] = (1, 128); term.CMAX["acc"] = 128; engine.SCHEMA[nm] = [((x,), mkand(ule(const(1, 8), uf(nm, 8, x)), ule(uf(nm, 8, x), s.n)))]
        e.append(s.compl.obj, E("W", TRUE, mul(j, c64(2)), 2, cat([uf("acc", 8, j), uf("cpl", 8, j)]), ((j, zext(cl, 64)),), "pre"))
    def nabout(s, i, cl, w=64):
        """number of complaints about peer i+1"""
        j = var("cp!q", 64); VR[j] = (0, 16383)
        return binder("count", j, zext(cl, 64), eq(uf("acc", 8, j), add(trunc(i, 8), const(1, 8))), w)
    def next(s, inp, inlen, out, outlen, g=TRUE):
        return s.c.call("tpdkg_tp_next", s.p, inp, C(inlen), out, C(outlen), g=mkand(s.pre, g))
class PE(St):
    K = "peer"
    def __init__(s, c, step, n=None, t=None, log=False):
        s.c = c; O = offs(); logging(c, log)
        s.p = c.mem("peer", O["peer."][0])
        s.n = c.v("n", 8, 3, 128) if n is None else const(n, 8); s.t = c.v("t", 8, 2, 127) if t is None else const(t, 8); s.me = c.v("me", 8, 1, 128)
        s.N, s.T = z8(s.n), z8(s.t)
        s.pre = mkand(ult(s.t, s.n), ule(s.me, s.n))
        s.put("step", step); s.put("n", s.n); s.put("t", s.t); s.put("index", s.me)
        s.put("ts_epsilon", c.v("eps", 64, 0, (1 << 61) - 1))
        s.lts = s.arr("last_ts", "last_ts", mul(s.N, c64(8)))
        s.pks = s.arr("peer_sig_pks", "sigpks", mul(s.N, c64(32))); s.npks = s.arr("peer_noise_pks", "noisepks", mul(s.N, c64(32)))
        s.outs = s.arr("noise_outs", "outs", mul(s.N, c64(8))); s.ins = s.arr("noise_ins", "ins", mul(s.N, c64(8)))
        s.com = s.arr("commitments", "commitments", mul(mul(s.N, s.T), c64(32)))
        s.sh = s.arr("shares", "shares", mul(s.N, c64(33))); s.xsh = s.arr("xshares", "xshares", mul(s.N, c64(33)))
        s.compl = s.arr("complaints", "complaints", mul(mul(s.N, s.N), c64(2))); s.my = s.arr("my_complaints", "my", s.N)
    def mine(s):
        """state in which the keys are revealed: there are complaints, those against this peer (at most one per peer) name numbers in 1..n, all sessions exist
        (postconditions of the recording step and of the handshake steps)"""
        takes(s.c, "state of the disclosing step: complaints against the peer name numbers in 1..n, at most one per peer (recording step, C19), and all sessions exist (handshake steps, C25)")
        e = s.c.e; x = var("mc!x", 64); j = var("mc!j", 64); VR[j] = (0, 127); s.cl = s.c.v("cl", 16, 1, 16384); s.ml = s.c.v("ml", 8, 0, 128)
        s.put("complaints_len", s.cl); s.put("my_complaints_len", s.ml); s.pre = mkand(s.pre, ule(zext(s.cl, 64), mul(s.N, s.N)), ule(s.ml, s.n))
        term.VRN["mine"] = (1, 128); engine.SCHEMA["mine"] = [((x,), mkand(ule(const(1, 8), uf("mine", 8, x)), ule(uf("mine", 8, x), s.n)))]
        engine.SCHEMA["osess"] = [((x,), neg(eq(uf("osess", 64, x), c64(0))))]
        e.append(s.my.obj, E("W", TRUE, j, 1, uf("mine", 8, j), ((j, zext(s.ml, 64)),), "pre"))
        e.append(s.outs.obj, E("W", TRUE, mul(j, c64(8)), 8, uf("osess", 64, j), ((j, s.N),), "pre"))
    def next(s, inp, inlen, out, outlen, g=TRUE):
        return s.c.call("tpdkg_peer_next", s.p, inp, C(inlen), out, C(outlen), g=mkand(s.pre, g))
# ------------------------------------------------------------------ contracts used in place of bodies
def takes(c, text):
    """something a case relies on that is not proved in it: listed in the evidence"""
    if text not in c.ctx.assume: c.ctx.assume.append(text)
RECV = "recv_msg"; RPAR = 9
def has_recv(c): return RECV in c.e.funcs and len(c.e.funcs[RECV][1].params) == RPAR
def use_recv(c, mode="any", hdr=False, n=None):
    """validation of a message by its contract: any outcome (mode any) or acceptance (mode ok); the event records what was asked for"""
    if not has_recv(c): raise Missing(RECV)
    takes(c, "validation of a message is used by its contract, proved in C12 (its new reference timestamp is left open here, proved in C14)")
    if hdr == "fits": takes(c, "valid complaint messages announce at most n complaints in the runs marked as valid messages (others are covered by the run with any outcome)")
    def f(e, a, g, loc, tag):
        r = const(0, 32) if mode == "ok" else e.res("rcv:" + tag, 32)
        if hdr:
            # an accepted message carries its own length (part of the proved contract)
            k = eq(bswap(e.bytesof(ext.rd(e, at(a[0], 65), 4, g, loc))), trunc(a[1], 32))
            if hdr == "from": k = mkand(k, eq(e.bytesof(ext.rd(e, at(a[0], offs()["msg.from"][0]), 1, g, loc)), a[3]))
            if hdr == "fits" and isc(a[2]) and cv(a[2]) == 9: k9 = ule(e.bytesof(ext.rd(e, at(a[0], 111), 1, g, loc)), n)
            else: k9 = TRUE
            if mode == "ok": g = mkand(g, k, k9)
            else: r = ite(k, r, const(2, 32))
        if mode != "ok": term.VRN["rcv:" + tag] = (0, 7)
        e.access(a[0], ipoly(a[1]), g, "read", loc); e.access(a[5], p_const(32), g, "read", loc); e.access(a[6], p_const(32), g, "read", loc); e.access(a[8], p_const(8), g, "write", loc)
        pk = e.bytesof(ext.rd(e, a[5], 32, g, loc)); sid = e.bytesof(ext.rd(e, a[6], 32, g, loc))
        e.event("recv", g, (a[0], a[1], a[2], a[3], a[4], pk, sid, a[7], a[8]), r, loc)
        e.quiet += 1; e.store(a[8], e.res("newts:" + tag, 64), 8, g, loc); e.quiet -= 1
        return r, g
    c.e.contracts[RECV] = f
def use_key(c):
    """key of an established session: some 32 bytes determined by the session"""
    fn = "Noise_XK_session_get_key"
    takes(c, "Noise_XK_session_get_key: some key determined by the session, not NULL")
    def f(e, a, g, loc, tag):
        q = e.ptrint(a[0]); k = uf("skey", 64, q)
        e.oblige("nonnull", loc, g, neg(eq(q, c64(0))))
        e.event("getkey", g, (q,), k, loc)
        e.facts.append(neg(eq(k, c64(0)))) if not e.iters else SCHEMA_key()
        return Ptr(e.heap, k), g
    c.e.contracts[fn] = f
def SCHEMA_key():
    x = var("sk!x", 64)
    engine.SCHEMA.setdefault("skey", [((x,), neg(eq(uf("skey", 64, x), c64(0))))])
def use_dkg(c):
    takes(c, "dealing, verification and finishing of shares are used by contracts: what they access, when they fail; what they compute is proved in C08, C09 and C10")
    def start(e, a, g, loc, tag):
        n, t = z8(a[0]), z8(a[1])
        e.access(a[2], ipoly(mul(t, c64(32))), g, "write", loc); e.access(a[3], ipoly(mul(n, c64(33))), g, "write", loc)
        r = e.res("dkgstart:" + tag, 0)
        e.quiet += 1; e.havoc(a[2], mul(t, c64(32)), mkand(g, r), "dkgcom:" + tag, loc); e.havoc(a[3], mul(n, c64(33)), mkand(g, r), "dkgsh:" + tag, loc); e.quiet -= 1
        e.event("dkg_start", g, tuple(a), r, loc)
        return ite(r, const(0, 32), const(-1, 32)), g
    def verall(e, a, g, loc, tag):
        n, t = z8(a[0]), z8(a[1])
        e.access(a[3], ipoly(mul(mul(n, t), c64(32))), g, "read", loc); e.access(a[4], ipoly(mul(n, c64(33))), g, "read", loc); e.access(a[5], ipoly(n), g, "write", loc)
        fl = e.res("fails:" + tag, 8); e.facts.append(ule(fl, a[0]))
        e.quiet += 1; e.havoc(a[5], n, g, "failset:" + tag, loc); e.quiet -= 1
        e.store(a[6], fl, 1, g, loc)
        e.event("dkg_verify_all", g, tuple(a), fl, loc)
        return ite(eq(fl, const(0, 8)), const(0, 32), const(1, 32)), g
    def ver1(e, a, g, loc, tag):
        t = z8(a[1])
        e.access(a[4], ipoly(mul(t, c64(32))), g, "read", loc); e.access(a[5], p_const(33), g, "read", loc)
        r = e.res("dkgver:" + tag, 32); term.VRN["dkgver:" + tag] = (0, 2)
        sh = e.bytesof(ext.rd(e, a[5], 33, g, loc))
        e.event("dkg_verify_one", g, tuple(a[:5]) + (sh,), r, loc)
        return ite(eq(r, const(0, 32)), const(0, 32), ite(eq(r, const(1, 32)), const(1, 32), const(-1, 32))), g
    def finish(e, a, g, loc, tag):
        n = z8(a[0])
        e.access(a[1], ipoly(mul(n, c64(33))), g, "read", loc); e.access(a[3], p_const(33), g, "write", loc)
        e.quiet += 1; e.store(at(a[3], 1), e.res("dkgfin:" + tag, 256), 32, g, loc); e.quiet -= 1
        e.event("dkg_finish", g, tuple(a), e.res("dkgfin:" + tag, 256), loc)
        return None, g
    for n, f, k in (("dkg_start", start, 4), ("dkg_verify_commitments", verall, 7), ("dkg_verify_commitment", ver1, 6), ("dkg_finish", finish, 4)):
        if n in c.e.funcs and len(c.e.funcs[n][1].params) == k: c.e.contracts[n] = f
def use_all(c, mode="any", hdr=False, n=None): use_recv(c, mode, hdr, n); use_key(c); use_dkg(c)
# ------------------------------------------------------------------ invariants of the loops that record complaints
class Rec:
    """the loops that record complaints: level 0 over the messages, level 1 over the complaints of one message.
    Stated for the fields of the state whatever the local variables are called."""
    name = "complaints"
    def __init__(s, st):
        O = offs(); s.st = st; s.n8 = st.n; s.N = st.N; o = st.p.obj; s.peer = st.K == "peer"; s.stride = add(st.N, c64(112)); s.base = c64(222 if s.peer else 111)
        f = lambda x: (o,) + tuple(O["%s.%s" % (st.K, x)])
        s.cells = {"clen": f("complaints_len")}; s.arrs = {"compl": (st.compl.obj, 2)}; s.size = {"compl": 16383, "my": 255}
        if s.peer: s.cells["mlen"] = f("my_complaints_len"); s.arrs["my"] = (st.my.obj, 1); s.me = st.me
        s.loop = None; s.full = False
    def changes(s, l, ent): return False
    def trip(s, d, its): return s.N if d else None
    def level(s, d):
        if d > 1: raise Unsupported("complaints recorded in a deeper loop")
    def bounds(s, d, k, its):
        s.level(d); i = z64(its[-1]) if d else k
        b = {"clen": add(mul(i, s.N), k) if d else mul(k, s.N)}
        if s.peer: b["mlen"] = add(i, c64(1)) if d else k
        return b
    def pair(s, i, acc): return cat([acc, add(trunc(i, 8), const(1, 8))])
    def found(s, st):
        w = st.ghost("wit"); i = z64(st.its[-1])
        return mkand(ult(w, zext(st.cell("clen"), 64)), eq(st.arr("compl", mul(w, c64(2))), s.pair(i, s.me)))
    def facts(s, d, st):
        if not s.peer or not d: return []
        return [("an entry for the present complainer has its complaint recorded", mkor(ule(zext(st.cell("mlen"), 64), z64(st.its[-1])), s.found(st)))]
    def inside(s, nm, st, off): return ult(off, zext(st.cell("mlen"), 64)) if nm == "my" else ult(off, mul(zext(st.cell("clen"), 64), c64(2)))
    def elems(s, d, st, nm, off, v):
        h = s.inside(nm, st, off); v64 = lambda x: zext(x, 64)
        if nm == "my":
            i = z64(st.its[-1]) if d else None; hi = add(i, c64(1)) if d else st.k
            r = [("entries name complainers", imp(h, mkand(neg(eq(v, const(0, 8))), ule(v64(v), hi))))]
            if d: r.append(("entries name earlier complainers", imp(h, mkor(ule(v64(v), i), s.found(st)))))
            return r
        if s.peer: return []
        hi = add(z64(st.its[-1]), c64(1)) if d else st.k; a, b = trunc(v, 8), trunc(lshr(v, const(8, 16)), 8)
        return [("recorded complaints are in range", imp(h, mkand(neg(eq(a, const(0, 8))), ule(a, s.n8), neg(eq(b, const(0, 8))), ule(v64(b), hi))))]
    def ghost(s, d, nm, old, new):
        o = old.cell("clen"); at_ = mul(zext(o, 64), c64(2)); h = ult(o, new.cell("clen"))
        return ite(mkand(h, eq(new.arr("compl", at_, h), s.pair(z64(old.its[-1]), s.me))), zext(o, 64), old.ghost("wit"))
    def inst(s, d, old):
        if not s.peer or not d: return ()
        w = old.ghost("wit"); return [w, trunc(w, 8), trunc(w, 16), trunc(w, 32)]
    def ob(s, e, lab, g, f, inst=()):
        e.obl.append(("contract", lab, e.prove(g, f, 8000, inst), g, f))
    def put(s, e, q, v, n, g, loc):
        """what is recorded"""
        nm = [k for k, (o, _) in s.arrs.items() if o is q.obj]
        if not nm: return
        nm = nm[0]; it = e.iters
        if len(it) != 2: s.ob(e, "recorded outside of the loops over the complaints", g, FALSE); return
        i, k = z64(it[0]), z64(it[1]); src = add(s.base, mul(i, s.stride)); acc = init("in", canon64(add(src, add(k, c64(1)))), 8)
        rd = lambda c: e.read(s.cells[c][0], c64(s.cells[c][1]), s.cells[c][2], g); j = var("pt!j", 64); VR[j] = (0, s.size[nm])
        if nm == "compl":
            cl = zext(rd("clen"), 64); s.ob(e, "complaint %s is recorded after the others" % loc, g, eq(q.off, mul(sub(cl, c64(1)), c64(2))) if False else mkor(eq(q.off, mul(cl, c64(2))), eq(q.off, mul(sub(cl, c64(1)), c64(2)))))
            s.ob(e, "complaint is taken from the message", g, eq(v, s.pair(i, acc)))
            h = mkand(g, ult(mul(j, c64(2)), q.off)); s.ob(e, "complaint is new", h, neg(eq(e.read(q.obj, canon64(mul(j, c64(2))), 2, h), v)), [j, trunc(j, 8), trunc(j, 16), trunc(j, 32)])
        else:
            s.ob(e, "entry names the complainer", g, eq(v, add(trunc(i, 8), const(1, 8))))
            s.ob(e, "who complained about this peer", g, mkand(eq(acc, s.me), ult(k, zext(init("in", canon64(src), 8), 64))))
            ml = zext(rd("mlen"), 64); s.ob(e, "entry is added after the others", g, mkor(eq(q.off, ml), eq(q.off, sub(ml, c64(1)))))
            h = mkand(g, ult(j, q.off)); w = uf("ghost:x", 64)
            s.ob(e, "entry differs from the others", h, ult(e.read(q.obj, canon64(j), 1, h), v), s.wits(e))
    def wits(s, e):
        s.dw = s.wits_(e); return s.dw
    def wits_(s, e):
        r = []
        for l in e.loopstack:
            if l.ann and l.depth == 1:
                w = l.at(z64(e.iters[-1]), tuple(e.iters[:-1])).ghost("wit"); r += [w, trunc(w, 8), trunc(w, 16), trunc(w, 32)]
        return r
    def after(s, e, d, old, new, g):
        """entries stay"""
        for nm, (o, n) in s.arrs.items():
            j = var("fr!%s" % nm, 64); VR[j] = (0, s.size[nm]); off = mul(j, c64(n)); h = mkand(g, s.inside(nm, old, off))
            if d: s.ob(e, "recorded entries of %s stay" % nm, h, eq(e.read(o, canon64(off), n, h), old.arr(nm, off)))
        if s.full and not s.loop.e.quiet: s.complete(e, d, old, new, g)
    def msg(s, i, k=None):
        """number of complaints of message i, accused number of its complaint k"""
        src = add(s.base, mul(i, s.stride)); return init("in", canon64(src if k is None else add(src, add(k, c64(1)))), 8)
    def complete(s, e, d, old, new, g):
        """nothing is left out: all messages, all complaints of a message, each recorded or reported"""
        K = zext(s.loop.K, 64) if s.loop.K is not None else None
        if K is None: raise Unsupported("loop over complaints without a number of iterations")
        if not d: return s.ob(e, "all messages are gone through", s.loop.g, eq(K, s.N))
        i, k = z64(old.its[-1]), old.k; s.ob(e, "all complaints of a message are gone through", s.loop.g, eq(K, zext(s.msg(i), 64)))
        acc = s.msg(i, k); one = add(trunc(i, 8), const(1, 8)); p = s.pair(i, acc); cl = zext(old.cell("clen"), 64); rep = lambda code: mkor(*[mkand(x.g, eq(x.a[0], const(16, 32)), eq(x.a[1], const(code, 32)), eq(x.a[2], one), eq(x.a[3], acc)) for x in e.events if x.k == "cheat"])
        inr = mkand(ule(const(1, 8), acc), ule(acc, s.n8)) if not s.peer else TRUE
        h = mkand(g, inr); added = mkand(eq(zext(new.cell("clen"), 64), add(cl, c64(1))), eq(new.arr("compl", mul(cl, c64(2)), h), p))
        if not s.peer:
            s.ob(e, "a complaint is recorded or reported as repeated", h, mkor(added, rep(8)))
            s.ob(e, "a complaint about nobody is reported", mkand(g, neg(inr)), rep(7))
        else:
            ws = s.places(mkand(g, added)); s.ob(e, "a complaint is recorded or was recorded before", h, mkor(added, *[mkand(ult(w, cl), eq(old.arr("compl", mul(w, c64(2))), p)) for w in ws]))
            ml = zext(old.cell("mlen"), 64); mine = mkand(h, ult(cl, zext(new.cell("clen"), 64)), eq(acc, s.me))
            s.ob(e, "a complaint about this peer is noted", mine, mkand(eq(zext(new.cell("mlen"), 64), add(ml, c64(1))), eq(new.arr("my", ml, mine), one)), s.wits(e))
    def places(s, g):
        """where a search stopped"""
        return [zext(x, 64) for x in subterms(g) if x.op == "uf" and x.args[0].startswith("X:")]
    def cheat(s, e, a, g, loc):
        """reports about complaints"""
        if not s.full or e.quiet: return
        for code in (7, 8):
            h = mkand(g, eq(a[1], const(code, 32)))
            lo, hi = urange(a[1])
            if h is FALSE or not lo <= code <= hi: continue
            if len(e.iters) != 2: s.ob(e, "reported outside of the loops over the complaints", h, FALSE); continue
            i, k = z64(e.iters[0]), z64(e.iters[1]); acc = s.msg(i, k); rd = e.read(*[s.cells["clen"][0], c64(s.cells["clen"][1]), s.cells["clen"][2], h])
            s.ob(e, "report %d names the complainer and the number" % code, h, mkand(eq(a[2], add(trunc(i, 8), const(1, 8))), eq(a[3], acc)))
            if code == 7: s.ob(e, "a complaint reported as out of range is", h, mkor(eq(acc, const(0, 8)), ult(s.n8, acc)))
            else: s.ob(e, "a complaint reported as repeated was recorded before", h, mkor(*[mkand(ult(w, zext(rd, 64)), eq(e.read(s.st.compl.obj, canon64(mul(w, c64(2))), 2, h), s.pair(i, acc))) for w in s.places(h)]))
class Res:
    """the loops that resolve complaints: the working copy of the complaints is the only array of their size on the stack; each of its elements is the
    recorded complaint or the mark of an answered one"""
    name = "contested shares"; MARK = const(0xffff, 16)
    def __init__(s, st, cl): s.st = st; s.cl = cl; s.cells = {}; s.size = {"copy": 16383}; s.src = None; s.deep = False
    @property
    def arrs(s):
        z_ = mul(zext(s.cl, 64), c64(2))
        return {"copy": (o, 2) for o in s.st.c.e.objs.values() if o is not s.st.compl.obj and canon64(o.size) is canon64(z_)}
    def changes(s, l, ent): 
        und = lambda o: (x := l.e.read(o, c64(0), 2, l.g)).op == "uf" and x.args[0].startswith("undef:")
        return any(o in ent and not und(o) for o, _ in s.arrs.values())
    def trip(s, d, its): return None
    def bounds(s, d, k, its): return {}
    def facts(s, d, st): return []
    def ghost(s, d, nm, old, new): return None
    def inst(s, d, old): return ()
    def inside(s, nm, st, off): return ult(off, mul(zext(s.cl, 64), c64(2)))
    def pair(s, j): return cat([uf("acc", 8, j), uf("cpl", 8, j)])
    def elems(s, d, st, nm, off, v): return [("an element is its complaint or marked as answered", imp(s.inside(nm, st, off), mkor(eq(v, s.MARK), eq(v, s.pair(lshr(off, c64(1)))))))]
    def ob(s, e, lab, g, f, inst=()): e.obl.append(("contract", lab, e.prove(g, f, 8000, inst), g, f))
    def put(s, e, q, v, n, g, loc):
        if not any(q.obj is o for o, _ in s.arrs.values()): return
        if len(e.iters) > 2: s.deep = True
        if len(e.iters) != 2: return
        e.event("marked", g, (q.off, v), None, loc)
        i = z64(e.iters[0]); rc = [x for x in e.events if x.k == "recv" and isc(x.a[2]) and cv(x.a[2]) == 11]
        if not rc: return s.ob(e, "a complaint is answered only in a disclosure", g, FALSE)
        m = rc[-1].a[0]; key = at(m, add(c64(111), mul(z64(e.iters[1]), c64(33)))); who = e.bytesof(ext.rd(e, key, 1, g, loc)); old = e.read(q.obj, q.off, 2, g)
        s.ob(e, "a complaint is only marked as answered", g, eq(v, s.MARK))
        s.ob(e, "by an entry of a valid disclosure of the accused that names the complainer", g, mkand(eq(rc[-1].r, const(0, 32)), eq(old, cat([add(trunc(i, 8), const(1, 8)), who]))))
    def wits(s, e): return ()
    def after(s, e, d, old, new, g): pass
    def cheat(s, e, a, g, loc):
        """an entry is reported as not asked for only if no open complaint matches"""
        lo, hi = urange(a[1])
        if e.quiet or not lo <= 6 <= hi: return
        h = mkand(g, eq(a[1], const(6, 32)))
        if h is FALSE: return
        if len(e.iters) != 2: return s.ob(e, "reported outside of the loops over the disclosures", h, FALSE)
        q = var("sr!q", 64); VR[q] = (0, 16383); (o, _), = s.arrs.values(); v = e.read(o, canon64(mul(q, c64(2))), 2, h)
        s.ob(e, "an entry reported as not asked for answers no open complaint", mkand(h, ult(q, zext(s.cl, 64))), neg(eq(v, cat([a[2], a[3]]))), [q, trunc(q, 8), trunc(q, 16), trunc(q, 32)])
