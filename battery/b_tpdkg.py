"""Concrete batteries for the protocol (tp-dkg.c): an independent oracle over message bytes, applied to the
real code at every step with mutated messages, timestamps, complaint lists and injected faults."""
import ctypes, hashlib, struct, itertools, time
from real import *
from sim import *

STEPS = {1: 4, 2: 6, 3: 8, 4: 12, 5: 14, 6: 16, 7: 18, 8: 20, 9: 22}
M8 = 256
def layout(n, t, step, j, ctr=None):
    """messages of sender j (0 based) to the orchestrator: (offset, size, type, recipient)"""
    if step == 1: return [(0, 175, 2, 255)]
    if step in (2, 3): return [(i * 159, 159, 2 + step, i + 1) for i in range(n)]
    if step == 4: return [(0, 111 + 32 * t, 6, 255)]
    if step == 5: return [(i * M8, M8, 8, i + 1) for i in range(n)]
    if step == 6: return [(0, 112 + n, 9, 255)]
    if step == 7: return [(0, 111 + 33 * ctr[j], 11, 0)] if ctr and ctr[j] else []
    if step == 8: return [(0, 143, 20, 0)]
    if step == 9: return [(0, 113, 22, 0)]
    return []
def fresh(last, ts, eps, now): return (now - eps <= ts <= now + eps) if last == 0 else (last <= ts <= last + eps)
def valid(S, m, size, msgno, frm, to, pk, sid, eps, last, now):
    h = parse(m)
    return (len(m) == size and h["len"] == size and h["msgno"] == msgno and h["frm"] == frm and h["to"] == to and h["sid"] == sid
            and fresh(last, h["ts"], eps, now) and S.verify(h["sig"], m[64:], pk))
class TPOracle:
    """what the orchestrator must do with a batch, from the property texts"""
    def __init__(s, sim, step, batch, ctr=None):
        n, t, S = sim.n, sim.t, sim.S
        s.bad = []; s.msgs = {}; s.last = sim_lts(sim); s.tsbad = set()
        sid = sim.tg("sessionid"); pks = sim.tb["sigpk"].b
        for i in range(n):
            for j in range(n):
                L_ = layout(n, t, step, j, ctr)
                if len(L_) == 1 and i > 0 or i >= len(L_): continue
                off, size, no, to = L_[i]
                m = batch[j][off:off + size]
                pk = m[111:143] if step == 1 else pks[32 * j:32 * j + 32]
                h = parse(m); okts = fresh(s.last[j], h["ts"], sim.eps, sim.now)
                v = valid(S, m, size, no, j + 1, to, pk, sid, sim.eps, s.last[j], sim.now)
                if step == 1: v = v and S.verify(batch[j][175:239], m, sim.lt[j][0])
                if v: s.last[j] = h["ts"]
                else:
                    s.bad.append((STEPS[step], j + 1, to))
                    if not okts: s.tsbad.add(j)
                s.msgs[(j, i)] = (m, v)
        s.ok = not s.bad
def sim_lts(sim): return list(struct.unpack("<%dQ" % sim.n, sim.tb["lastts"].b))
def sim_plts(sim, i): return list(struct.unpack("<%dQ" % sim.n, sim.peers[i].b["lt"].b))
def snap(sim): return (sim.tp.b, {k: v.b for k, v in sim.tb.items()})
def restore(sim, s):
    sim.tp.put(0, s[0])
    for k, v in s[1].items(): sim.tb[k].put(0, v)
def resign_lt(sim, j, full):
    """re-sign a first message with both keys"""
    m = sim.resign(full[:175], sim.peer_sk(j))
    return m + sim.S.sign(m, sim.lt[j][1])
def tp_sign(sim, step, j, part, m):
    """replace one message of sender j, correctly signed"""
    return sim.resign(m, sim.peer_sk(j))
def put(batch, j, off, m):
    b = list(batch); x = bytearray(b[j]); x[off:off + len(m)] = m; b[j] = bytes(x); return b
def mutants(sim, rng, m, sk, others, deep=False):
    """(name, message, intended to be valid or None if it depends) for one message"""
    h = parse(m); n = len(m); S = sim.S
    rs = lambda x: sim.resign(x, sk)
    for k in ("frm", "to", "msgno"):
        for d in (1, -1, 0x80):
            yield "%s%+d signed" % (k, d), rs(header(m, **{k: (h[k] + d) & 255}))
    for x in (0, 255):
        if x != h["to"]: yield "to %d signed" % x, rs(header(m, to=x))
    for d in (1, -1, 256, -111, 1 << 24): yield "length%+d signed" % d, rs(header(m, len=(h["len"] + d) & 0xffffffff))
    for b in (0, 15, 31):
        x = bytearray(h["sid"]); x[b] ^= 1 << rng.randrange(8); yield "session id byte %d signed" % b, rs(header(m, sid=bytes(x)))
    for nm, k in others: yield "signed by " + nm, sim.resign(m, k)
    pos = list(range(n)) if deep else sorted(set([0, 31, 32, 63, 64, 65, 68, 69, 70, 71, 78, 79, 110] + ([111, n - 1, n - 2, 111 + (n - 111) // 2] if n > 111 else []) + [rng.randrange(n) for _ in range(4)]))
    for p in pos:
        if p >= n: continue
        x = bytearray(m); x[p] ^= 1 << rng.randrange(8); yield "byte %d flipped" % p, bytes(x)
    yield "zero signature", bytes(64) + m[64:]
    yield "all zero", bytes(n)
def tsmutants(sim, m, sk, last):
    e, now = sim.eps, sim.now
    c = [last - 1, last, last + 1, last + e - 1, last + e, last + e + 1, last + 2 * e + 1, 1] if last else [now - e - 1, now - e, now - 1, now, now + 1, now + e, now + e + 1, now + 3 * e, 0, 1]
    for ts in sorted(set(x for x in c if x >= 0)): yield "timestamp %+d" % (ts - (last or now)), sim.resign(header(m, ts=ts), sk)
    if last >= 1 << 32: yield "timestamp -2^32", sim.resign(header(m, ts=last - (1 << 32)), sk)
    yield "timestamp in the upper half", sim.resign(header(m, ts=2**63 + (last or now)), sk)
    yield "timestamp max", sim.resign(header(m, ts=2**64 - 1), sk)
def mk(B, n, t, seed, **kw):
    # the clock of the timestamp checks needs more than 32 bits
    if B.prop == "C14": kw.setdefault("now", 1700000000 + (3 << 32))
    return Sim(B.R, B.S, n, t, seed=seed, **kw)
def honest_out(sim, step, batch, ctr=None):
    """output of the orchestrator for a valid batch: list per peer"""
    n, t = sim.n, sim.t
    if step == 1: return b"".join(x[:175] for x in batch)
    if step in (4, 6): return b"".join(batch)
    if step in (2, 3): return [b"".join(batch[j][i * 159:(i + 1) * 159] for j in range(n)) for i in range(n)]
    if step == 5: return [b"".join(batch[j][i * M8:(i + 1) * M8] for j in range(n)) for i in range(n)]
def chk_msg(B, sim, m, size, no, frm, to, pk, sid, what):
    """message emitted by an honest party"""
    if len(m) != size: return "%s has %d bytes instead of %d" % (what, len(m), size)
    h = parse(m)
    for k, v in (("len", size), ("msgno", no), ("frm", frm), ("to", to), ("ts", sim.now), ("sid", sid)):
        if h[k] != v: return "%s: field %s is %r instead of %r" % (what, k, h[k], v)
    if not B.S.verify(h["sig"], m[64:], pk): return "%s: signature over the whole message does not verify under the sender's key" % what
def tpkeys(sim): return sim.tg("sig_pk")
def compl_pairs(batch, n):
    """distinct in-range pairs, and the flagged (complainer, accused, repeated)"""
    pairs = []; fl = []
    for j, m in enumerate(batch):
        d = m[111:]
        for k in range(d[0]):
            a = d[1 + k]
            if not 1 <= a <= n: fl.append((j + 1, a, False)); continue
            if (j + 1, a) in pairs: fl.append((j + 1, a, True)); continue
            pairs.append((j + 1, a))
    return pairs, fl
def tp_call(sim, step, batch, ctr=None):
    o = TPOracle(sim, step, batch, ctr); n0 = len(sim.cheaters())
    r = sim.tp_next(b"".join(batch))
    return o, r, sim.cheaters()[n0:]
def outs(sim):
    l = []
    for i in range(sim.n):
        r, m = sim.tp_msg(i)
        if r: return "slicing the output for peer %d fails with %d" % (i, r)
        l.append(m)
    return l
def at_tp(B, n, t, seed, fn, steps=None, **kw):
    """run the protocol; before each orchestrator step call fn(sim, step, batch) (may try calls, state is restored)"""
    s = mk(B, n, t, seed, **kw)
    if s.start_ret: return "starting fails with %d" % s.start_ret
    res = []
    def hook(k, st, who, d):
        if k == "tp_in" and not res and (steps is None or st in steps):
            sn = snap(s)
            r = fn(s, st, d)
            restore(s, sn)
            if r: res.append(r)
    r = run(s, hook if True else None)
    s.free_peers()
    if res: return res[0]
    if r != ("ok",): return "an honest run with n=%d t=%d ends with %r" % (n, t, r)
SMALL = [(3, 2), (4, 2), (4, 3), (5, 3)]
LARGE = [(17, 16), (45, 44), (128, 2)]      # products and message sizes beyond 8 and 16 bits, largest group
def large(B, what, go, ns=LARGE):
    """go(n, t) on large groups, outside the time budget of the other cases"""
    for (n, t) in ns:
        t0 = time.time(); B.case("%s in a large group" % what, lambda: go(n, t), n=n, t=t); B.budget += time.time() - t0
def sizes(B): return SMALL if B.tier == "quick" else SMALL + [(6, 4), (7, 3), (9, 5)]
def sweep_tp(B, what, check, gen, ns=None, steps=None, cm=None):
    """for every orchestrator step, messages altered by gen: check(sim, step, batch, oracle, ret, new entries, sn, name)"""
    for (n, t) in ns or sizes(B)[:2]:
        def fn(sim, step, batch):
            if step == 0: return
            sn = snap(sim)
            for name, b2 in gen(sim, step, batch):
                if B.left() < 5: return
                def one():
                    restore(sim, sn)
                    o, r, ch = tp_call(sim, step, b2)
                    return check(sim, step, b2, o, r, ch, sn, name)
                B.case("%s: orchestrator step %d, %s" % (what, step, name), one, n=n, t=t, step=step)
                restore(sim, sn)
        def go(): return at_tp(B, n, t, B.rng.randrange(1 << 30), fn, steps, cheater_max=cm)
        B.case("%s: run" % what, go, n=n, t=t)
def gen_single(B, deep=0, ts=False):
    def g(sim, step, batch):
        n, t, rng = sim.n, sim.t, B.rng
        for j in range(n):
            L_ = layout(n, t, step, j)
            for i in (range(len(L_)) if len(L_) <= 3 else sorted({0, len(L_) - 1, rng.randrange(len(L_)), j})):
                off, size, no, to = L_[i]; m = batch[j][off:off + size]
                oth = [("peer %d" % (k + 1), sim.peer_sk(k)) for k in range(n) if k != j][:2] + [("the orchestrator", sim.tp_sk())]
                last = sim_lts(sim)[j]
                for nm, x in (tsmutants(sim, m, sim.peer_sk(j), last) if ts else mutants(sim, rng, m, sim.peer_sk(j), oth, deep and j == deep - 1 and i == 0)):
                    b = put(batch, j, off, x)
                    if step == 1:
                        b = put(b, j, 175, sim.S.sign(x, sim.lt[j][1]))
                    yield "message %d of peer %d: %s" % (i + 1, j + 1, nm), b
                if step == 1 and not ts:
                    for p in (175, 206, 207, 238): x = bytearray(batch[j]); x[p] ^= 1; yield "long-term signature byte %d of peer %d flipped" % (p - 175, j + 1), put(batch, j, 0, bytes(x))
                    yield "long-term signature of peer %d by another peer" % (j + 1), put(batch, j, 175, sim.S.sign(m, sim.lt[(j + 1) % n][1]))
        # exchanged messages
        for a, b in ((0, 1), (n - 1, 0)):
            x = list(batch); x[a], x[b] = x[b], x[a]; yield "batches of peers %d and %d exchanged" % (a + 1, b + 1), x
        if step in (2, 3, 5):
            off, size = layout(n, t, step, 0)[1][:2]
            x = put(batch, 1, 0, batch[1][off:off + size]); yield "message repeated for another recipient", x
    return g
def gen_multi(B, k):
    """several invalid messages at once"""
    def g(sim, step, batch):
        n, t, rng = sim.n, sim.t, B.rng
        allm = [(j, i) for j in range(n) for i in range(len(layout(n, t, step, j)))]
        sets = [[x] for x in allm] + [allm] + [[x for x in allm if x[0] == j] for j in range(n)] + [rng.sample(allm, rng.randrange(2, len(allm) + 1)) for _ in range(k)]
        for ss in sets:
            b = batch
            kinds = []
            for j, i in ss:
                off, size, no, to = layout(n, t, step, j)[i]; m = b[j][off:off + size]; q = rng.randrange(6)
                if q == 0: x = bytearray(m); x[rng.randrange(64)] ^= 4; x = bytes(x)
                elif q == 1: x = bytearray(m); p = size - 1 if size > 111 else 80; x[p] ^= 1; x = bytes(x)
                elif q == 2: x = sim.resign(header(m, to=(parse(m)["to"] + 1) & 255), sim.peer_sk(j))
                elif q == 3: x = sim.resign(m, sim.peer_sk((j + 1) % n))
                elif q == 4: x = sim.resign(header(m, frm=(j + 2) % n + 1), sim.peer_sk(j))
                else: x = sim.resign(header(m, ts=1), sim.peer_sk(j))
                b = put(b, j, off, x)
                if step == 1: b = put(b, j, 175, sim.S.sign(x, sim.lt[j][1]) if q else b[j][175:239])
            yield "invalid messages %s" % (ss if len(ss) < 8 else "%d of %d" % (len(ss), len(allm))), b
    return g
# ------------------------------------------------------------------ peers
PIN = {0: "index", 1: "keys", 2: "handshake 1", 3: "handshake 2", 4: "commitments", 5: "shares", 6: "complaints", 9: "confirmation"}
def players(sim, ps, i):
    """structure of the input of peer i in its step ps: list of (offset, size, type, sender (0 based, None = orchestrator), recipient)"""
    n, t = sim.n, sim.t
    if ps == 0: return [(0, 111, 1, None, i + 1)]
    if ps == 1: return [(0, 111 + 175 * n, 3, None, 255)] + [(111 + 175 * j, 175, 2, j, 255) for j in range(n)]
    if ps in (2, 3): return [(159 * j, 159, ps + 2, j, i + 1) for j in range(n)]
    if ps == 4: return [(0, 111 + (111 + 32 * t) * n, 7, None, 255)] + [(111 + (111 + 32 * t) * j, 111 + 32 * t, 6, j, 255) for j in range(n)]
    if ps == 5: return [(M8 * j, M8, 8, j, i + 1) for j in range(n)]
    if ps == 6: return [(0, 111 + (112 + n) * n, 10, None, 255)] + [(111 + (112 + n) * j, 112 + n, 9, j, 255) for j in range(n)]
    if ps == 9: return [(0, 113, 21, None, 255)]
    return []
def peer_oracle(sim, ps, i, m):
    """validity of every part of a peer's input; None if valid else what is wrong"""
    S = sim.S; sid = sim.pg(i, "sessionid"); tl = struct.unpack("<Q", sim.pg(i, "tp_last_ts"))[0]; lts = sim_plts(sim, i)
    pks = sim.peers[i].b["sig"].b
    for off, size, no, frm, to in players(sim, ps, i):
        x = m[off:off + size]
        if ps == 0:
            to = parse(x)["to"]
            if not 1 <= to <= sim.n: return "index out of range"
        if frm is None:
            if not valid(S, x, size, no, 0, to, sim.pg(i, "tp_sig_pk"), sid, sim.eps, tl, sim.now): return "orchestrator message"
        else:
            pk = x[111:143] if ps == 1 else pks[32 * frm:32 * frm + 32]
            if not valid(S, x, size, no, frm + 1, to, pk, sid, sim.eps, lts[frm], sim.now): return "message of peer %d" % (frm + 1)
    return None
def at_peer(B, n, t, seed, who, ps, change, after, **kw):
    """run until peer `who` is in step ps; hand it change(sim, input); after(sim, input, original, ret, out)"""
    s = mk(B, n, t, seed, **kw)
    if s.start_ret: return "starting fails with %d" % s.start_ret
    st = {}
    def hook(k, step, w, d):
        if k == "peer_in" and w == who and step == ps and "x" not in st:
            x = change(s, d); st["x"] = x; st["d"] = d; st["o"] = peer_oracle(s, ps, who, x)
            st["lts"] = sim_plts(s, who); st["tl"] = struct.unpack("<Q", s.pg(who, "tp_last_ts"))[0]
            st["r"], st["out"] = s.peer_next(who, x)
            raise Stop()
    try: r = run(s, hook)
    except Stop: r = None
    try:
        if "x" not in st: return "an honest run does not reach step %d of peer %d: %r" % (ps, who + 1, r)
        return after(s, st)
    finally: s.free_peers()
class Stop(Exception): pass
def sweep_peer(B, what, after, alter, ns=None, steps=None, frac=1.0):
    for (n, t) in ns or [(3, 2), (4, 3)]:
        for ps in steps or PIN:
            for who in ([B.rng.randrange(n)] if B.tier == "quick" else range(n)):
                seed = B.rng.randrange(1 << 30)
                s0 = {}
                def cap(sim, d): s0["p"] = players(sim, ps, who); s0["names"] = [nm for nm, _ in alter(sim, ps, who, d)]; return d
                def aft(sim, st): return None if st["r"] == 0 else "an honest message is rejected with %d" % st["r"]
                B.case("%s: peer %d step %d honest" % (what, who + 1, ps), lambda: at_peer(B, n, t, seed, who, ps, cap, aft), n=n, t=t, step=ps)
                names = s0.get("names", [])
                idx = list(range(len(names)))
                if frac < 1 and idx: idx = sorted(B.rng.sample(idx, max(1, int(len(idx) * frac))))
                for q in idx:
                    if B.left() < 4: return
                    def ch(sim, d): return next(itertools.islice(alter(sim, ps, who, d), q, None))[1]
                    B.case("%s: peer %d step %d (%s), %s" % (what, who + 1, ps, PIN[ps], names[q]), lambda: at_peer(B, n, t, seed, who, ps, ch, after), n=n, t=t, step=ps, seed=seed)
def tpwrap(sim, d, ps):
    """re-sign the envelope after changing an embedded message"""
    return sim.resign(d, sim.tp_sk()) if ps in (1, 4, 6) else d
class FixedRng:
    """deterministic choices so that a mutant can be rebuilt by its number"""
    def __init__(s, k): import random; s.r = random.Random(k)
    def randrange(s, *a): return s.r.randrange(*a)
def alt_msgs(sim, ps, who, d, ts=False):
    rng = FixedRng(ps * 131 + who)
    P = players(sim, ps, who)
    for q, (off, size, no, frm, to) in enumerate(P):
        m = d[off:off + size]
        sk = sim.tp_sk() if frm is None else sim.peer_sk(frm)
        oth = [("the orchestrator", sim.tp_sk())] if frm is not None else []
        oth += [("peer %d" % (k + 1), sim.peer_sk(k)) for k in range(sim.n) if k != frm][:1]
        last = (struct.unpack("<Q", sim.pg(who, "tp_last_ts"))[0] if frm is None else sim_plts(sim, who)[frm])
        for nm, x in (tsmutants(sim, m, sk, last) if ts else mutants(sim, rng, m, sk, oth)):
            if ps == 0 and nm.startswith("to"): continue
            y = d[:off] + x + d[off + size:]
            if frm is not None: y = tpwrap(sim, y, ps)
            yield "%s: %s" % ("orchestrator message" if frm is None else "message of peer %d" % (frm + 1), nm), y
    two = [p for p in P if p[3] is not None]
    if len(two) > 1:
        (a, sa), (b, sb) = two[0][:2], two[-1][:2]
        y = bytearray(d); y[a:a + sa] = d[b:b + sb]; y[b:b + sb] = d[a:a + sa]
        if not ts: yield "messages of two peers exchanged", tpwrap(sim, bytes(y), ps)
def acc(st, r, sim=None, who=None):
    """verdict: accepted exactly when valid"""
    if st["o"] is None and r: return "a valid input is rejected with %d" % r
    if st["o"] is not None and r == 0: return "accepted although this is invalid: %s" % st["o"]
# ------------------------------------------------------------------ C12
def C12(B):
    def chk(sim, step, b, o, r, ch, sn, name):
        if o.ok and r != 0: return "a batch of valid messages is rejected with %d" % r
        if not o.ok and r == 0: return "accepted although invalid: %s" % o.bad[:3]
        got, want = {(c[2], c[3]) for c in ch}, {(x[1], x[2]) for x in o.bad}
        if any("byte %d flipped" % k in name for k in range(71, 79)): got &= want      # what an unauthenticated timestamp does to later messages is left open
        if got != want and step < 6: return "messages reported invalid %s, really invalid %s" % ([(c[2], c[3]) for c in ch], o.bad)
    start_peer_cases(B, "acceptance", acc_only=True)
    large(B, "acceptance of honest messages", lambda n, t: at_tp(B, n, t, 3, lambda sim, step, batch: None, ()))
    B.budget *= 0.5; sweep_tp(B, "acceptance", chk, gen_single(B, deep=1), ns=[(3, 2)], cm=64)
    B.budget *= 2
    sweep_peer(B, "acceptance", lambda sim, st: acc(st, st["r"]), alt_msgs, ns=[(3, 2)], frac=0.5 if B.tier == "quick" else 1)
def start_peer_cases(B, what, acc_only=False, ts=False):
    """the announcement"""
    def base(): return mk(B, 3, 2, 11)
    def v0(sim, m):
        h = parse(m)
        return valid(B.S, m, len(m), 0, 0, 255, m[111:143], h["sid"], sim.eps, 0, sim.now)
    s = base(); m0 = s.msg0.b
    muts = list(tsmutants(s, m0, s.tp_sk(), 0) if ts else mutants(s, B.rng, m0, s.tp_sk(), [("peer 1", s.lt[0][1])], deep=True))
    for nm, m in muts:
        if nm.startswith("session id"): continue       # any session id may be announced
        def go():
            m_ = m
            r = s.start_peer(0, B.R.buf(m_)); h = parse(m_); n, t = m_[175], m_[176]
            good = v0(s, m_) and 2 <= t < n <= 128
            if good and r: return "a valid announcement is refused with %d" % r
            if not good and r == 0: return "an invalid announcement is accepted"
            if good and ts and struct.unpack("<Q", s.pg(0, "tp_last_ts"))[0] != h["ts"]: return "the announcement's timestamp is not the reference"
            if ts and not fresh(0, h["ts"], s.eps, s.now) and struct.unpack("<Q", s.pg(0, "tp_last_ts"))[0] != 0: return "a rejected timestamp became the reference"
        B.case("%s: announcement, %s" % (what, nm), go)
# ------------------------------------------------------------------ C13
def C13(B):
    for (n, t) in sizes(B) + [(8, 5), (12, 3)] + LARGE:
        if B.left() < 5: break
        t0 = time.time()
        for seed in range(2 if n < 6 else 1):
          def go():
            s = mk(B, n, t, B.rng.randrange(1 << 30), now=1700000000 + 77 * seed)
            sid = s.tg("sessionid"); tpk = s.tg("sig_pk")
            r = chk_msg(B, s, s.msg0.b, 177, 0, 0, 255, tpk, sid, "announcement")
            if r: return r
            bad = []
            def hook(k, st, who, d):
                if bad: return
                if k == "tp_in": s.now += 1; B.R.l.vf_settime(s.now); pend.clear()
                if k == "peer_in" and (who, st) not in pend:
                    pend.add((who, st))
                    # message of the orchestrator as delivered
                    for off, size, no, frm, to in players(s, st, who):
                        if frm is None: bad.append(chk_msg(B, s, d[off:off + size], size, no, 0, to, tpk, sid, "orchestrator message %d to peer %d" % (no, who + 1)))
                if k == "peer_out":
                    pk = s.pg(who, "sig_pk"); what = "message of peer %d in step %d" % (who + 1, st)
                    one = {0: (175, 2, 255), 3: (111 + 32 * t, 6, 255), 5: (112 + n, 9, 255), 8: (143, 20, 0), 9: (113, 22, 0)}
                    if st in one:
                        if st == 0:
                            if len(d) != 239: bad.append("first message has %d bytes" % len(d))
                            elif not B.S.verify(d[175:239], d[:175], s.lt[who][0]): bad.append("long-term signature over the first message does not verify")
                            if any(s.pg(who, "lt_sk")): bad.append("the long-term key is still in the state of peer %d" % (who + 1))
                            if d[111:143] != pk or d[143:175] != s.pg(who, "noise_pk"): bad.append("first message does not carry the peer's keys")
                            d = d[:175]
                        bad.append(chk_msg(B, s, d, one[st][0], one[st][1], who + 1, one[st][2], pk, sid, what))
                    elif st in (1, 2, 4):
                        sz, no = {1: (159, 4), 2: (159, 5), 4: (M8, 8)}[st]
                        for j in range(n): bad.append(chk_msg(B, s, d[j * sz:(j + 1) * sz], sz, no, who + 1, j + 1, pk, sid, what))
                bad[:] = [x for x in bad if x]
            pend = set()
            r = run(s, hook); s.free_peers()
            if bad: return bad[0]
            if r != ("ok",): return "honest run ends with %r" % (r,)
          B.case("messages sent in an honest run", go, n=n, t=t, seed=seed)
        if n > 12: B.budget += time.time() - t0
    # key disclosure message
    for (n, t, pairs) in [(3, 2, [(2, 1)]), (4, 3, [(1, 2), (3, 2)]), (5, 3, [(1, 5), (2, 5), (4, 5), (1, 2)])]:
        def go():
            s = mk(B, n, t, 5); sid = s.tg("sessionid"); bad = []
            def hook(k, st, who, d):
                if k == "peer_out" and st == 5: return complain(s, who, d, [a for c, a in pairs if c == who + 1])
                if k == "peer_out" and st == 7:
                    mine = [c for c, a in pairs if a == who + 1]
                    if mine: bad.append(chk_msg(B, s, d, 111 + 33 * len(mine), 11, who + 1, 0, s.pg(who, "sig_pk"), sid, "key message of peer %d" % (who + 1)))
                    elif d: bad.append("a peer without complaints sends %d bytes" % len(d))
            run(s, hook); s.free_peers()
            bad[:] = [x for x in bad if x]
            return bad[0] if bad else None
        B.case("key disclosure message", go, n=n, t=t, pairs=pairs)
def complain(s, who, d, lst, raw=None):
    m = bytearray(d); m[111:] = bytes(len(m) - 111)
    m[111] = len(lst) if raw is None else raw
    for k, a in enumerate(lst):
        if 112 + k < len(m): m[112 + k] = a
    return s.resign(bytes(m), s.peer_sk(who))
# ------------------------------------------------------------------ C14
def C14(B):
    def chk(sim, step, b, o, r, ch, sn, name):
        if o.ok and r != 0: return "messages with acceptable timestamps are rejected with %d" % r
        if not o.ok and r == 0: return "a stale or premature timestamp is accepted"
        now = sim_lts(sim); n = sim.n
        before = struct.unpack("<%dQ" % n, sn[1]["lastts"])
        for j in range(n):
            if j in o.tsbad:
                if step not in (2, 3, 5) and now[j] != before[j]: return "a rejected timestamp changed the reference of peer %d" % (j + 1)
            elif now[j] != o.last[j]: return "reference of peer %d is %d, last accepted timestamp is %d" % (j + 1, now[j], o.last[j])
    for eps in (1000, 5, 0) if B.tier == "quick" else (1000, 5, 0, 1, 10**6):
        start_peer_cases_eps(B, eps)
    def drift(eps):
        # every peer has its own clock offset that grows during the run; honest for the rules
        for (n, t) in [(3, 2), (4, 2)]:
            def go():
                s = mk(B, n, t, 3, eps=eps)
                k = {}
                def clock(who): return s.now + k.get(who, 0)
                def hook(kind, st, who, d):
                    if kind == "tp_in":
                        s.now += min(eps, 3); B.R.l.vf_settime(s.now)
                    if kind == "peer_out" and st in (1, 2, 4) and d:
                        # timestamps increase within the batch
                        sz = 159 if st < 4 else M8; o = b""
                        base = max(sim_lts(s)[who], s.now)
                        for j in range(n):
                            ts = min(base + j, sim_lts(s)[who] + eps)
                            o += s.resign(header(d[j * sz:(j + 1) * sz], ts=ts), s.peer_sk(who))
                        return o
                r = run(s, hook); s.free_peers()
                return None if r == ("ok",) else "a run whose timestamps follow the rules ends with %r" % (r,)
            B.case("timestamps within the limits", go, n=n, eps=eps)
    drift(1000); drift(50)
    def gen(sim, step, batch):
        g = gen_single(B, ts=True)
        yield from g(sim, step, batch)
        n = sim.n
        # every sender at another point of its window: the references must not be mixed up
        last = sim_lts(sim)
        for rot in range(n):
            b = list(batch); mx = {}
            for j in range(n):
                off = {(rot + j) % n: 0 for _ in (0,)}
                d = sim.eps if (rot + j) % n == 0 else ((rot + j) % n) * 7
                d = min(d, sim.eps)
                for (o, size, no, to) in layout(n, sim.t, step, j):
                    x = sim.resign(header(b[j][o:o + size], ts=last[j] + d), sim.peer_sk(j)); b = put(b, j, o, x)
                    if step == 1: b = put(b, j, 175, sim.S.sign(x, sim.lt[j][1]))
            yield "different but acceptable timestamps, rotation %d" % rot, b
            if step in (2, 3, 5):
                # one sender goes backwards within its own batch
                o, size, no, to = layout(n, sim.t, step, rot)[n - 1]
                x = sim.resign(header(b[rot][o:o + size], ts=last[rot] + max(0, min((rot * 7), sim.eps) - 1) if rot else last[rot]), sim.peer_sk(rot))
                yield "peer %d goes backwards within its batch" % (rot + 1), put(b, rot, o, x)
    b0 = B.budget; B.budget *= 0.55
    sweep_tp(B, "timestamps", chk, gen, ns=[(3, 2)])
    B.budget = b0
    def after2(sim, st):
        r = acc(st, st["r"])
        if r: return r
        return ref_after(sim, st)
    sweep_peer(B, "timestamps", after2, lambda sim, ps, who, d: remember(sim, ps, who, d, alt_msgs(sim, ps, who, d, ts=True)), ns=[(3, 2)], frac=0.6 if B.tier == "quick" else 1)
def remember(sim, ps, who, d, it): sim._ps, sim._who = ps, who; return it
def ref_after(sim, st):
    """references of a peer after the call"""
    ps, who, x = sim._ps, sim._who, st["x"]
    if st["r"] == 0:
        for off, size, no, frm, to in players(sim, ps, who):
            ts = parse(x[off:off + size])["ts"]
            got = struct.unpack("<Q", sim.pg(who, "tp_last_ts"))[0] if frm is None else sim_plts(sim, who)[frm]
            if got != ts: return "accepted timestamp %d of %s is not the reference (%d)" % (ts, "the orchestrator" if frm is None else "peer %d" % (frm + 1), got)
    else:
        tl, lts = st["tl"], list(st["lts"])
        for off, size, no, frm, to in players(sim, ps, who):
            ts = parse(x[off:off + size])["ts"]; last = tl if frm is None else lts[frm]
            if not fresh(last, ts, sim.eps, sim.now):
                got = struct.unpack("<Q", sim.pg(who, "tp_last_ts"))[0] if frm is None else sim_plts(sim, who)[frm]
                if got != last: return "a rejected timestamp became the reference"
def start_peer_cases_eps(B, eps):
    s = mk(B, 3, 2, 12, eps=eps); m0 = s.msg0.b
    for nm, m in tsmutants(s, m0, s.tp_sk(), 0):
        def go():
            r = s.start_peer(0, B.R.buf(m)); ts = parse(m)["ts"]; f = fresh(0, ts, s.eps, s.now); ref = struct.unpack("<Q", s.pg(0, "tp_last_ts"))[0]
            if f and r: return "announcement with acceptable %s is refused with %d" % (nm, r)
            if not f and r == 0: return "announcement with %s is accepted (tolerance %d)" % (nm, eps)
            if f and ref != ts: return "reference is %d after accepting %d" % (ref, ts)
            if not f and ref != 0: return "a rejected timestamp became the reference"
        B.case("announcement with %s, tolerance %d" % (nm, eps), go)
# ------------------------------------------------------------------ C15
def C15(B):
    def tables(sim, step, b):
        n, t = sim.n, sim.t
        if step == 1:
            for j in range(n):
                if sim.tb["sigpk"].get(32 * j, 32) != b[j][111:143]: return "key table slot %d does not hold the key sent by peer %d" % (j, j + 1)
        if step == 4:
            for j in range(n):
                if sim.tb["commit"].get(32 * t * j, 32 * t) != b[j][111:111 + 32 * t]: return "commitments of peer %d are not stored in its slot" % (j + 1)
        if step == 5:
            if sim.tb["enc"].b != b"".join(b): return "the table of encrypted shares differs from the messages"
    def chk(sim, step, b, o, r, ch, sn, name):
        if step not in (1, 2, 3, 4, 5, 6): return
        if (r == 0) != o.ok: return "returns %d for %s" % (r, "valid messages" if o.ok else "invalid messages %s" % o.bad[:3])
        if r: return
        w = tables(sim, step, b)
        if w: return w
        if step in (4, 5, 6):
            # keys must stay those of the senders
            if sim.tb["sigpk"].b != sn[1]["sigpk"]: return "the key table changed in step %d" % step
        exp = honest_out(sim, step, b); out = sim.tp_out.b
        if isinstance(exp, bytes):
            if out[111:] != exp: return "the broadcast does not contain exactly the messages in sender order"
        elif out != b"".join(exp): return "the output is not the messages grouped by recipient in sender order"
        got = outs(sim)
        if isinstance(got, str): return got
        for i in range(sim.n):
            w = out if isinstance(exp, bytes) else exp[i]
            if got[i] != w: return "peer %d is not handed its own part" % (i + 1)
    def honest(sim, step, batch): yield "valid messages", batch
    for (n, t) in sizes(B)[1:] + [(10, 4), (17, 2)] + ([(40, 7)] if B.tier != "quick" else []):
        if B.left() < 20: break
        sweep_tp(B, "routing", chk, honest, ns=[(n, t)])
    large(B, "routing", lambda n, t: sweep_tp(B, "routing", chk, honest, ns=[(n, t)]))
    def vary(sim, step, batch):
        yield "valid messages", batch
        n, t = sim.n, sim.t
        # valid messages with other contents
        for rep in range(3):
            b = list(batch)
            for j in range(n):
                for (o, size, no, to) in layout(n, t, step, j):
                    x = bytearray(b[j][o:o + size])
                    if step in (2, 3, 4, 5) and size > 111:
                        x[111:] = bytes(B.rng.randrange(256) for _ in range(size - 111))
                    if step == 6: x[111:] = bytes(size - 111)
                    x = sim.resign(bytes(x), sim.peer_sk(j)); b = put(b, j, o, x)
                    if step == 1: b = put(b, j, 175, sim.S.sign(x, sim.lt[j][1]))
            yield "valid messages with other contents %d" % rep, b
        yield from gen_multi(B, 3)(sim, step, batch)
    sweep_tp(B, "routing", chk, vary, ns=[(3, 2), (4, 3)])
# ------------------------------------------------------------------ C16
def C16(B):
    def chk(sim, step, b, o, r, ch, sn, name):
        if (r == 0) != o.ok: return "returns %d for %s" % (r, "valid messages" if o.ok else "invalid messages %s" % o.bad[:3])
        room = sim.cm - struct.unpack("<Q", sn[0][sim.R.field("tp.cheater_len")[0]:][:8])[0]
        if len(sim.cheaters()) > sim.cm: return "the list grew beyond its capacity"
        if o.ok:
            if ch: return "valid messages are reported: %s" % ch
        else:
            got = sorted((c[0], c[2], c[3]) for c in ch); want = sorted(o.bad)
            if len(want) <= room and got != want: return "entries (step, sender, recipient) %s, invalid messages %s" % (got, want)
            if len(want) > room and any(w not in want for w in got): return "entries %s for invalid messages %s" % (got, want)
            if len(want) > room and len(got) != room: return "full list with %d of %d entries" % (len(got), room)
            if sim.tp_not_done(): return "after the error the orchestrator is not done"
    b0 = B.budget; B.budget *= 0.6
    sweep_tp(B, "reporting", chk, gen_multi(B, 6), ns=[(3, 2), (4, 2), (5, 3)])
    B.budget = b0
    for cm in (0, 1, 2):
        def go():
            def fn(sim, step, batch):
                if step == 0: return
                sn = snap(sim)
                for name, b2 in gen_multi(B, 1)(sim, step, batch):
                    if B.left() < 3: return
                    restore(sim, sn); o, r, ch = tp_call(sim, step, b2)
                    w = chk(sim, step, b2, o, r, ch, sn, name)
                    if w: return "list of %d, step %d, %s: %s" % (cm, step, name, w)
            return at_tp(B, 4, 2, 9, fn, cheater_max=cm)
        B.case("small violation list", go, capacity=cm)
    def go():
        # invalid key message in the complaint step
        for cm in (None, 1):
            for (n, t, pairs) in [(3, 2, [(2, 1)]), (4, 2, [(1, 2), (3, 4)]), (5, 3, [(1, 2), (2, 4), (3, 4)])]:
                for kind in range(4):
                    s = mk(B, n, t, 5, **({} if cm is None else {"cheater_max": cm})); res = []
                    def hook(k, st, who, d):
                        if k == "peer_out" and st == 5: return complain(s, who, d, [a for c, a in pairs if c == who + 1])
                        if k == "tp_in" and st == 7:
                            acc_ = sorted({a for c, a in pairs}); tgt = acc_[-1] - 1; b = list(d)
                            x = bytearray(b[tgt])
                            if kind == 0: x[5] ^= 1
                            if kind == 1: x[-1] ^= 1
                            b[tgt] = bytes(x)
                            if kind == 2: b[tgt] = s.resign(header(b[tgt], frm=(tgt + 1) % n + 1), s.peer_sk(tgt))
                            if kind == 3: b[tgt] = s.resign(header(b[tgt], sid=bytes(32)), s.peer_sk(tgt))
                            res.append(tgt + 1); return b
                    r = run(s, hook); s.free_peers()
                    if r[0] != "tp" or r[1] != 7: return "run with invalid key message ends with %r" % (r,)
                    e = [c for c in s.cheaters() if c[0] == 18 and c[2] == res[0]]
                    if cm is None and not e: return "invalid key message of peer %d is not reported: %s" % (res[0], s.cheaters())
    B.case("invalid key disclosure message", go)
# ------------------------------------------------------------------ C17
def C17(B):
    def slots(sim, ps, who, x):
        n, t, b = sim.n, sim.t, sim.peers[who].b
        for j in range(n):
            if ps == 1:
                m = x[111 + 175 * j:][:175]
                if b["sig"].get(32 * j, 32) != m[111:143]: return "signing key of peer %d is not stored in its slot" % (j + 1)
                if b["noise"].get(32 * j, 32) != m[143:175]: return "channel key of peer %d is not stored in its slot" % (j + 1)
            if ps == 4:
                m = x[111 + (111 + 32 * t) * j:]
                if b["com"].get(32 * t * j, 32 * t) != m[111:111 + 32 * t]: return "commitments of peer %d are not stored in its slot" % (j + 1)
            if ps == 5:
                if b["xsh"].get(33 * j, 33) != sim.peers[j].b["shares"].get(33 * who, 33): return "share sent by peer %d is not stored in its slot" % (j + 1)
        if ps == 0 and sim.pg(who, "index")[0] != parse(x)["to"]: return "index taken is %d" % sim.pg(who, "index")[0]
    def after(sim, st):
        r = acc(st, st["r"])
        if r: return r
        if st["r"] == 0: return slots(sim, sim._ps, sim._who, st["x"])
    def alter(sim, ps, who, d):
        sim._ps, sim._who = ps, who
        yield "unchanged", d
        yield from alt_msgs(sim, ps, who, d)
    for (n, t) in sizes(B)[1:] + [(9, 4)]:
        for who in {0, n - 1}:
            for ps in (0, 1, 4, 5):
                if B.left() < 10: break
                def ch(sim, d): sim._ps, sim._who = ps, who; return d
                B.case("data taken by peer %d in step %d" % (who + 1, ps), lambda: at_peer(B, n, t, 7 + n, who, ps, ch, after), n=n, t=t)
    def allslots(n, t):
        s = mk(B, n, t, 8); w = []
        def hook(k, st, who, d):
            if k == "peer_in" and who in (0, n - 1): last[who] = d
            if k == "peer_out" and who in (0, n - 1) and st in (0, 1, 4, 5) and not w:
                x = slots(s, st, who, last[who])
                if x: w.append(x)
        last = {}; r = run(s, hook); s.free_peers()
        return w[0] if w else None if r == ("ok",) else "an honest run ends with %r" % (r,)
    large(B, "data taken", allslots)
    # corrupted channel data, correctly signed
    def chan(sim, ps, who, d):
        sim._ps, sim._who = ps, who
        rng = FixedRng(ps + who)
        for off, size, no, frm, to in players(sim, ps, who):
            if frm is None: continue
            pos = {1: [], 2: [111, 111 + 31, 111 + 32, 158], 3: [111, 142, 143, 158], 5: [111, 111 + 31, 111 + 48, 111 + 63, 111 + 64, 111 + 96, 111 + 97, 111 + 112, 111 + 113, 255]}.get(ps, [])
            for p in pos:
                m = bytearray(d[off:off + size]); m[p] ^= 1 << rng.randrange(8)
                yield "corrupted channel data of peer %d at %d" % (frm + 1, p), d[:off] + sim.resign(bytes(m), sim.peer_sk(frm)) + d[off + size:]
    def must(sim, st):
        if st["r"] == 0: return "corrupted handshake or ciphertext is accepted"
    b0 = B.budget; B.budget *= 0.5
    sweep_peer(B, "channel data", must, chan, ns=[(3, 2)], steps=(2, 3, 5))
    # integrity tag computed under another key
    def notag(sim, ps, who, d):
        for off, size, no, frm, to in players(sim, ps, who):
            m = bytearray(d[off:off + size]); m[224:256] = sim.S.auth(bytes(m[175:224]), bytes(32))
            yield "integrity tag of peer %d under another key" % (frm + 1), d[:off] + sim.resign(bytes(m), sim.peer_sk(frm)) + d[off + size:]
    sweep_peer(B, "channel data", must, notag, ns=[(3, 2)], steps=(5,))
    # replayed data of another sender
    def swap(sim, ps, who, d):
        P = [p for p in players(sim, ps, who) if p[3] is not None]
        for a in range(len(P)):
            b = (a + 1) % len(P); off, size = P[a][:2]
            m = bytearray(d[off:off + size]); m[111:] = d[P[b][0] + 111:P[b][0] + size]
            yield "body of peer %d in the message of peer %d" % (b + 1, a + 1), d[:off] + sim.resign(bytes(m), sim.peer_sk(P[a][3])) + d[off + size:]
    def must2(sim, st): return must(sim, st)
    sweep_peer(B, "channel data", must2, swap, ns=[(3, 2)], steps=(3, 5))
    # failing primitives
    for fail in range(0, 60):
        if B.left() < 3: break
        B.case("channel operation %d fails" % fail, lambda: noise_fail(B, 3, 2, fail, True), n=3, t=2, fail=fail)
    B.budget = b0
    sweep_peer(B, "peers", after, alter, ns=[(3, 2)], frac=0.4 if B.tier == "quick" else 1)
def noise_fail(B, n, t, fail, strict=False, log=0):
    s = mk(B, n, t, 21, log=log)
    B.R.l.vf_noise_reset(fail)
    try:
        r = run(s); total = B.R.l.vf_noise_calls()
    finally: B.R.l.vf_noise_reset(-1)
    for i in range(n):
        # calls after the failure
        if s.peers[i].ret:
            r2, _ = s.peer_next(i, b"")
            if r2 == 0: return "after a failed step peer %d reports success" % (i + 1)
    s.free_peers(); B.R.l.vf_log(0)
    if fail < total and r == ("ok",) and strict: return "a failing channel operation (number %d of %d) went unnoticed" % (fail, total)
    if fail >= total and r != ("ok",): return "honest run ends with %r" % (r,)
# ------------------------------------------------------------------ C18
def culprit(B, c):
    o = B.R.buf(bytes(B.R.sizeof("ch")))
    for f, v in zip(("step", "error", "peer", "other_peer", "invalid_index"), c):
        a, z = B.R.field("ch." + f); o.put(a, (v & ((1 << 8 * z) - 1)).to_bytes(z, "little"))
    out = B.R.buf(256)
    return B.R.l.tpdkg_cheater_msg(o.ptr, out.ptr, ctypes.c_size_t(256)), out.b.split(b"\0")[0]
def C18(B):
    rng = B.rng
    # recording
    def lists(n, t):
        yield [[] for _ in range(n)]
        yield [[1] if j else [] for j in range(n)]
        yield [[j + 1] for j in range(n)]
        yield [[0] if j == 1 else [] for j in range(n)]
        yield [[n + 1] if j == 0 else [] for j in range(n)]
        yield [[255, 1] if j == 2 else [] for j in range(n)]
        yield [[1, 1] if j == 1 else [] for j in range(n)]
        yield [[2, 1, 2] if j == n - 1 else [1] for j in range(n)]
        yield [list(range(1, n + 1)) for _ in range(n)]
        # just below / at t*t complaints
        for k in (t * t - 2, t * t - 1, t * t, t * t + 1):
            allp = [(c, a) for c in range(n) for a in range(1, n + 1)]
            if k <= len(allp) and k >= 0:
                p = rng.sample(allp, k); yield [[a for c, a in p if c == j] for j in range(n)]
        for _ in range(12): yield [[rng.choice([0, n, n + 1, 200] + list(range(1, n + 1)) * 3) for _ in range(rng.choice([0, 0, 1, 1, 2, n]))] for _ in range(n)]
    def rec(sim, step, b, o, r, ch, sn, name):
        n, t = sim.n, sim.t
        pairs, fl = compl_pairs(b, n)
        got = [(p >> 8, p & 255) for p in sim.complaints()]
        if len(sim.cheaters()) >= sim.cm: return None if r else "success with a full list"
        if sorted(got) != sorted(pairs): return "recorded pairs %s, sent %s" % (got, pairs)
        want = sorted((c, a) for c, a, d in fl)
        flags = sorted((c[2], c[3]) for c in ch if not (c[2] == 0xfe and c[3] == 0xfe))
        if flags != want: return "flagged (complainer, accused) %s, to be flagged %s" % (flags, want)
        fails = bool(fl) or len(pairs) >= t * t
        if (r != 0) != fails: return "returns %d with %d complaints, %d flagged (t=%d)" % (r, len(pairs), len(fl), t)
        for c in ch:
            if c[2] != 0xfe and culprit(B, c)[0] != c[2]: return "entry %s blames peer %d" % (c, culprit(B, c)[0])
        if r == 0 and sim.tstep() != (7 if pairs else 8): return "next step is %d with %d complaints" % (sim.tstep(), len(pairs))
    def gen(sim, step, batch):
        for i, ls in enumerate(lists(sim.n, sim.t)):
            yield "complaints %s" % ls, [complain(sim, j, batch[j], ls[j][:sim.n]) for j in range(sim.n)]
    B0 = B.budget; B.budget *= 0.5
    for nt in [(3, 2), (4, 3), (5, 2), (6, 5)]: sweep_tp(B, "complaints", rec, gen, ns=[nt], steps=(6,), cm=None if nt[0] < 5 else 64)
    B.budget = B0
    def bigcount(sim, step, batch):
        for c in (sim.n + 1, 128, 255): yield "count byte %d" % c, [complain(sim, 0, batch[0], [2], raw=c)] + batch[1:]
    def recb(sim, step, b, o, r, ch, sn, name):
        if r == 0: return "a complaint message whose count exceeds its length is accepted"
        if not any(c[2] == 1 for c in ch): return "it is not reported against its sender: %s" % ch
    sweep_tp(B, "complaints", recb, bigcount, ns=[(3, 2)], steps=(6,))
    def many(sim, step, batch):
        n, t = sim.n, sim.t; allp = [(c, a) for c in range(n) for a in range(1, n + 1)]
        for k in (255, 256, 257, 300, t * t - 1, t * t):
            p = rng.sample(allp, k); yield "%d complaints" % k, [complain(sim, j, batch[j], [a for c, a in p if c == j]) for j in range(n)]
        yield "%d complaints" % (4 * n), [complain(sim, j, batch[j], [1, 2, n - 1, n]) for j in range(n)]
    large(B, "complaints", lambda n, t: sweep_tp(B, "complaints", rec, many, ns=[(n, t)], steps=(6,), cm=2000), ns=[(20, 18)])
    # resolution
    cmx = [64]
    def scen(n, t, pairs, kind, tgt, seed, cm=None):
        """pairs (complainer, accused) are complained about; kind describes what the accused of pair tgt did"""
        s = mk(B, n, t, seed, cheater_max=cm or cmx[0])
        c, a = pairs[tgt]
        def hook(k, st, who, d):
            if k == "peer_out" and st == 3 and who == a - 1:
                sh = s.peers[who].b["shares"]
                if kind == "bad share": x = bytearray(sh.get(33 * (c - 1), 33)); x[5] ^= 1; sh.put(33 * (c - 1), bytes(x))
                if kind == "bad index": sh.put(33 * (c - 1), bytes([c % n + 1]))
                if kind == "bad commitment":
                    m = bytearray(d); m[111:143] = b"\xff" * 32; return s.resign(bytes(m), s.peer_sk(who))
                if kind == "foreign commitment":
                    m = bytearray(d); m[111:143] = B.S.base(12345); return s.resign(bytes(m), s.peer_sk(who))
            if k == "peer_out" and st == 5:
                return complain(s, who, d, [y for x, y in pairs if x == who + 1])
            if k == "tp_in" and st == 7:
                b = list(d); m = bytearray(b[a - 1]); ents = (len(m) - 111) // 33
                for q in range(ents):
                    if m[111 + 33 * q] == c:
                        if kind == "wrong key": m[111 + 33 * q + 7] ^= 1
                        if kind == "not complained": m[111 + 33 * q] = next(x for x in range(1, n + 1) if (x, a) not in pairs)
                        if kind == "repeated" and ents > 1:
                            o = (q + 1) % ents; m[111 + 33 * q:111 + 33 * q + 33] = m[111 + 33 * o:111 + 33 * o + 33]
                        if kind == "index 0": m[111 + 33 * q] = 0
                b[a - 1] = s.resign(bytes(m), s.peer_sk(a - 1))
                if kind == "invalid message": x = bytearray(b[a - 1]); x[3] ^= 8; b[a - 1] = bytes(x)
                if kind == "altered stored tag": s.tb["enc"].put(M8 * ((a - 1) * n + c - 1) + 230, b"\1\2\3")
                return b
        r = run(s, hook)
        s.free_peers()
        if r != ("tp", 7, 3): return "run with complaints %s ends with %r" % (pairs, r)
        if s.tp_not_done(): return "the orchestrator is not done after resolving complaints"
        blame = sorted(culprit(B, x)[0] for x in s.cheaters())
        want = []
        for q, (x, y) in enumerate(pairs):
            guilty = x
            if q == tgt and kind not in ("fine",): guilty = y
            if kind in ("bad commitment", "foreign commitment", "invalid message") and y == a: guilty = y
            want.append(guilty)
        return s.cheaters(), blame, want
    def judge(n, t, pairs, kind, tgt, seed, full=False):
        r = scen(n, t, pairs, kind, tgt, seed)
        if isinstance(r, str): return r
        ch, blame, want = r; c, a = pairs[tgt]
        per = {}
        for e in ch: per.setdefault((e[3], e[2]), set()).add(culprit(B, e)[0])
        for (x, y), g in zip(pairs, want):
            got = per.get((x, y), set())
            if kind == "invalid message" and y == a: got = {culprit(B, e)[0] for e in ch if e[2] == a}
            if kind == "repeated" and y == a: got = got - {a} or got         # the repeated disclosure itself is the accused's fault
            if got != {g}: return "complaint of %d about %d: blamed %s, at fault %d (%s); entries %s" % (x, y, sorted(got), g, kind, ch)
        if set(blame) - set(want): return "peers %s are blamed, at fault are %s (%s)" % (sorted(set(blame)), sorted(set(want)), kind)
    kinds = ["fine", "bad share", "bad index", "wrong key", "not complained", "repeated", "index 0", "invalid message", "altered stored tag", "bad commitment", "foreign commitment"]
    confs = [(3, 2, [(2, 1)]), (3, 2, [(1, 3), (2, 3)]), (4, 3, [(1, 2), (3, 2), (4, 1)]), (5, 3, [(5, 1), (4, 1), (2, 5), (1, 2)]), (4, 3, [(4, 4), (1, 4)]), (6, 4, [(6, 2), (1, 2), (3, 2), (4, 6), (5, 6), (2, 6)])]
    def lots(n, t):
        pairs = [(c, a) for c in range(1, n + 1) for a in (1, 2, 3, n - 1, n)] + [(c, a) for c in (1, n) for a in range(4, n - 1)]
        rng.shuffle(pairs)
        for kind in ("fine", "bad share", "repeated"):
            r = judge(n, t, pairs, kind, next(i for i, (c, a) in enumerate(pairs) if c == n and a == n - 1), 41)
            if r: return r
    cmx[0] = 2000; large(B, "resolution", lots, ns=[(20, 18), (34, 16)]); cmx[0] = 64
    for ci, (n, t, pairs) in enumerate(confs):
        for kind in kinds:
            for tgt in (range(len(pairs)) if kind != "fine" else [0]):
                c, a = pairs[tgt]
                if c == a and kind in ("bad share", "foreign commitment", "wrong key", "bad index", "bad commitment") : continue
                if kind == "not complained" and all((x, a) in pairs for x in range(1, n + 1)): continue
                if kind == "repeated" and sum(y == a for x, y in pairs) < 2: continue
                if B.left() < 3: return
                B.case("resolution: %s, accused %d, complainer %d" % (kind, a, c), lambda: judge(n, t, pairs, kind, tgt, 31 + ci), n=n, t=t, pairs=pairs)
# ------------------------------------------------------------------ C19
def C19(B):
    confs = [(3, 2, [(2, 1)]), (3, 2, [(1, 3), (2, 3)]), (4, 3, [(1, 2), (3, 2), (4, 1)]), (5, 3, [(5, 1), (4, 1), (2, 5), (1, 2)]), (4, 2, [(1, 1)]), (5, 4, [(1, 2), (2, 3), (3, 4), (4, 5), (5, 1)]), (4, 3, [(4, 1), (3, 1), (2, 1)])]
    for _ in range(6 if B.tier == "quick" else 40):
        n = B.rng.choice([3, 4, 5, 6]); t = B.rng.randrange(2, n)
        allp = [(c, a) for c in range(1, n + 1) for a in range(1, n + 1)]
        confs.append((n, t, B.rng.sample(allp, B.rng.randrange(1, min(len(allp), t * t - 1) + 1))))
    def play(n, t, pairs, dup=False, oor=False):
        s = mk(B, n, t, 77); bad = []; keep = {}; revealed = {}
        def hook(k, st, who, d):
            if k == "peer_out" and st == 4: keep[who] = d
            if k == "peer_out" and st == 5: return complain(s, who, d, [y for x, y in pairs if x == who + 1])
            if k == "peer_in" and st == 6 and (dup or oor):
                # a broadcast with repeated / out of range entries, validly signed by its sender and the orchestrator
                x = d
                for j in range(n):
                    o = 111 + (112 + n) * j; mine = [b_ for a_, b_ in pairs if a_ == j + 1]
                    l = (mine + mine if dup else mine) + ([0, 200] if oor else [])
                    x = x[:o] + complain(s, j, x[o:o + 112 + n], l[:n]) + x[o + 112 + n:]
                return s.resign(x, s.tp_sk())
            if k == "peer_out" and st == 7: revealed[who] = d
        r = run(s, hook)
        for i in range(n):
            mine = [x for x, y in pairs if y == i + 1]
            if i not in revealed:
                if mine and not (dup or oor): bad.append("peer %d did not answer complaints of %s" % (i + 1, mine))
                continue
            d = revealed[i]; ents = [(d[111 + 33 * q], d[112 + 33 * q:144 + 33 * q]) for q in range((len(d) - 111) // 33)] if d else []
            if sorted(e[0] for e in ents) != sorted(set(mine)): bad.append("peer %d discloses keys for %s, complained %s" % (i + 1, [e[0] for e in ents], mine))
            for c, key in ents:
                m8 = keep[i][M8 * (c - 1):][:M8]
                if not B.S.auth_verify(m8[224:256], m8[175:224], key): bad.append("key disclosed for %d by %d does not open the share sent to %d" % (c, i + 1, c))
            for q in range(n):
                if q + 1 in mine: continue
                m8 = keep[i][M8 * q:][:M8]
                if any(B.S.auth_verify(m8[224:256], m8[175:224], d[o:o + 32]) for o in range(111, max(111, len(d) - 31))): bad.append("peer %d discloses the key of the share sent to %d, who did not complain" % (i + 1, q + 1))
        sh0 = [s.pg(i, "share") for i in range(n)]
        for i in range(n):
            for k in range(4):
                if s.peer_not_done(i) and s.pstep(i) == 6: break
                need = B.R.l.tpdkg_peer_input_size(s.peers[i].st.ptr)
                ok = s.resign(header(bytes(111) + b"OK", msgno=21, len=113, frm=0, to=255, ts=s.now, sid=s.pg(i, "sessionid")), s.tp_sk())
                r_, o_ = s.peer_next(i, ok if need == 113 else bytes(need))
                if r_ == 0 and len(o_) in (113, 143): bad.append("peer %d proceeds to the success phase in a run with complaints" % (i + 1))
                if s.pg(i, "share") != sh0[i]: bad.append("peer %d outputs a share in a run with complaints" % (i + 1))
            if s.pstep(i) != 6 and s.peer_not_done(i): bad.append("peer %d is not done" % (i + 1))
        s.free_peers()
        return bad[0] if bad else None
    for (n, t, pairs) in confs:
        if B.left() < 3: return
        B.case("disclosure of keys", lambda: play(n, t, pairs), n=n, t=t, pairs=pairs)
    large(B, "disclosure of keys", lambda n, t: play(n, t, [(3, 66), (70, 2), (66, 70)]), ns=[(70, 2)])
    large(B, "disclosure of keys", lambda n, t: play(n, t, [(c, a) for c in range(1, n + 1) for a in (1, 3, n - 1, n)] + [(c, a) for c in (1, n) for a in range(4, n - 1)]), ns=[(34, 16)])
    for (n, t, pairs) in confs[:5]:
        if B.left() < 3: return
        if all(sum(x == j for x, y in pairs) * 2 <= n for j in range(1, n + 1)):
            B.case("disclosure of keys, repeated complaints", lambda: play(n, t, pairs, dup=True), n=n, t=t, pairs=pairs)
        B.case("disclosure of keys, out of range complaints", lambda: play(n, t, pairs, oor=True), n=n, t=t, pairs=pairs)
    def none(n, t):
        s = mk(B, n, t, 78); sizes_ = []
        def hook(k, st, who, d):
            if k == "peer_out" and st == 7: sizes_.append((who, len(d)))
        r = run(s, hook); s.free_peers()
        if sizes_: return "without complaints the disclosure step is run"
        if r != ("ok",): return "honest run ends with %r" % (r,)
    for nt in SMALL: B.case("no complaints", lambda: none(*nt), n=nt[0], t=nt[1])
# ------------------------------------------------------------------ C20
def C20(B):
    def order(n, t, pairs):
        s = mk(B, n, t, 41); bad = []; tps = []; pst = {i: [] for i in range(n)}
        def hook(k, st, who, d):
            if k == "tp_in": tps.append(st)
            if k == "peer_in": pst[who].append(st)
            if k == "peer_out" and st == 5 and pairs: return complain(s, who, d, [y for x, y in pairs if x == who + 1])
        r = run(s, hook)
        want = list(range(10)) if pairs else [0, 1, 2, 3, 4, 5, 6, 8, 9]
        if pairs: want = [0, 1, 2, 3, 4, 5, 6, 7]
        if tps != want: bad.append("orchestrator steps %s" % tps)
        if s.tp_not_done(): bad.append("orchestrator not done at the end")
        for i in range(n):
            w = [0, 1, 2, 3, 4, 5, 6] + ([7] if pairs else [8, 9])
            if pst[i][:len(w)] != w or any(x not in (10,) for x in pst[i][len(w):]): bad.append("peer %d steps %s" % (i + 1, pst[i]))
            if s.peer_not_done(i): bad.append("peer %d not done at the end" % (i + 1))
            bad += dead_peer(s, i)
        bad += dead_tp(s, n)
        s.free_peers()
        return bad[0] if bad else None
    def dead_tp(s, n):
        o = []
        for ln, ol in ((0, 0), (0, 111 * n), (239 * n, 111 + 175 * n), (113 * n, 0), (143 * n, 113), (159 * n * n, 159 * n * n)):
            st0 = s.tb["sigpk"].b, s.tb["enc"].b, s.cheaters()
            r = s.tp_next(bytes(ln), ol)
            if r == 0: o.append("a call after the end reports success")
            if s.tp_not_done(): o.append("after the end a further call makes the orchestrator not done")
            if (s.tb["sigpk"].b, s.tb["enc"].b, s.cheaters()) != st0: o.append("a call after the end performed a step")
            if any(x != 0xa5 for x in s.tp_out.b): o.append("a call after the end wrote output")
        return o
    def dead_peer(s, i):
        o = []
        for ln, ol in ((0, 0), (0, 143), (113, 113), (111, 239), (0, 0)):
            r, out = s.peer_next(i, bytes(ln), ol)
            if r == 0 and (ol or ln): o.append("a call of peer %d after the end reports success" % (i + 1))
            if r == 0: o.append("a call of peer %d after the end reports success" % (i + 1))
            if s.peer_not_done(i): o.append("after the end a further call makes peer %d not done" % (i + 1))
            if any(x != 0xa5 for x in out): o.append("a call of peer %d after the end wrote output" % (i + 1))
        return o
    for (n, t) in sizes(B):
        B.case("order of steps", lambda: order(n, t, []), n=n, t=t)
        B.case("order of steps with complaints", lambda: order(n, t, [(2, 1)]), n=n, t=t)
    # failure is final: orchestrator
    def chk(sim, step, b, o, r, ch, sn, name):
        if r == 0:
            if step < 9 and not sim.tp_not_done(): return "done after a successful step %d" % step
            want = {6: 8 if not sim.complaints() else 7}.get(step, step + 1)
            if sim.tstep() != want: return "after step %d the next step is %d" % (step, sim.tstep())
            return
        if sim.tp_not_done(): return "not done after step %d returned %d" % (step, r)
        w = dead_tp(sim, sim.n)
        return w[0] if w else None
    def gen(sim, step, batch):
        yield "valid messages", batch
        k = 0
        for x in gen_multi(B, 1)(sim, step, batch):
            k += 1
            if k < 5: yield x
        if step == 6:
            n, t = sim.n, sim.t
            for ls in ([[0]] + [[]] * (n - 1), [[1, 1]] + [[]] * (n - 1), [list(range(1, n + 1))] * n): yield "complaints %s" % ls, [complain(sim, j, batch[j], ls[j]) for j in range(n)]
            yield "count too large", [complain(sim, 0, batch[0], [], raw=200)] + batch[1:]
        if step == 8:
            m = bytearray(batch[0]); m[111] ^= 1; yield "wrong transcript", [sim.resign(bytes(m), sim.peer_sk(0))] + batch[1:]
        if step == 9: yield "refused acknowledgement", [sim.resign(header(batch[0], data=b"NO"), sim.peer_sk(0))] + batch[1:]
    b0 = B.budget; B.budget *= 0.5
    sweep_tp(B, "failure is final", chk, gen, ns=[(3, 2), (4, 2)])
    B.budget = b0
    def sizes_(sim, step, batch):
        inp = b"".join(batch); sn = snap(sim); out = B.R.l.tpdkg_tp_output_size(sim.tp.ptr)
        for a, o in ((inp + b"\0", out), (inp[:-1] if inp else b"\0\0", out), (inp, out + 1), (inp, max(0, out - 1) if out else 5)):
            restore(sim, sn); r = sim.tp_next(a, o)
            if r == 0: return "step %d accepts wrong sizes" % step
            if sim.tp_not_done(): return "not done after step %d refused wrong sizes" % step
            w = dead_tp(sim, sim.n)
            if w: return w[0]
    B.case("wrong sizes end the orchestrator", lambda: at_tp(B, 3, 2, 17, sizes_), n=3, t=2)
    # peers
    def after(sim, st):
        if st["r"] == 0: return "invalid input accepted" if st["o"] else None
        if sim.peer_not_done(sim._who): return "peer not done after an error"
        w = dead_peer(sim, sim._who)
        return w[0] if w else None
    def alter(sim, ps, who, d):
        sim._ps, sim._who = ps, who
        for off, size, no, frm, to in players(sim, ps, who):
            m = bytearray(d[off:off + size]); m[2] ^= 1
            y = d[:off] + bytes(m) + d[off + size:]
            yield "invalid signature", tpwrap(sim, y, ps) if frm is not None else y
        if ps == 9:
            for w in (b"NO", b"ok", b"O\0"): yield "refused", sim.resign(d[:111] + w, sim.tp_sk())
        if ps == 5:
            m = bytearray(d[:M8]); m[200] ^= 1; yield "corrupted share", sim.resign(bytes(m), sim.peer_sk(0)) + d[M8:]
    def after9(sim, st):
        if st["x"][111:] != b"OK" and st["r"] == 0 and sim._ps == 9: return "a refused confirmation is taken as success"
        return after(sim, st)
    sweep_peer(B, "failure is final", after9, alter, ns=[(3, 2)])
    def psz():
        for ps in list(PIN) + [7, 8]:
            if ps == 7: continue
            for di, do in ((1, 0), (-1, 0), (0, 1), (0, -1)):
                s = mk(B, 3, 2, 19); res = []
                def hook(k, st, who, d):
                    if k == "peer_in" and who == 1 and st == ps:
                        out = B.R.l.tpdkg_peer_output_size(s.peers[1].st.ptr)
                        x = d + bytes(di) if di > 0 else d[:len(d) + di] if di and d else d
                        o = max(0, out + do)
                        if len(x) == len(d) and o == out: raise Stop()
                        r, _ = s.peer_next(1, x, o)
                        if r == 0: res.append("peer step %d accepts wrong sizes" % ps)
                        elif s.peer_not_done(1): res.append("peer not done after step %d refused wrong sizes" % ps)
                        else: res.extend(dead_peer(s, 1))
                        raise Stop()
                try: run(s, hook)
                except Stop: pass
                s.free_peers()
                if res: return res[0]
    B.case("wrong sizes end the peer", psz)
    for fail in range(0, 40, 1 if B.tier != "quick" else 3):
        if B.left() < 3: break
        B.case("channel operation %d fails" % fail, lambda: noise_fail(B, 3, 2, fail), fail=fail)
# ------------------------------------------------------------------ C21
def C21(B):
    R = B.R; l = R.l; HDR_ = 111
    def tp_in(n, t, st): return {0: 0, 1: 239, 2: 159 * n, 3: 159 * n, 4: 111 + 32 * t, 5: n * M8, 6: 112 + n, 8: 143, 9: 113}[st]
    def tp_out(n, t, st): return {0: 111 * n, 1: 111 + 175 * n, 2: 159 * n * n, 3: 159 * n * n, 4: 111 + (111 + 32 * t) * n, 5: n * n * M8, 6: 111 + n * (112 + n), 7: 0, 8: 113, 9: 0}[st]
    def to_peer(n, t, st): return {0: (111, True), 1: (111 + 175 * n, False), 2: (159 * n, True), 3: (159 * n, True), 4: (111 + (111 + 32 * t) * n, False), 5: (n * M8, True), 6: (111 + n * (112 + n), False), 7: (0, False), 8: (113, False), 9: (0, False)}[st]
    def p_in(n, t, ps): return {0: 111, 1: 111 + 175 * n, 2: 159 * n, 3: 159 * n, 4: 111 + (111 + 32 * t) * n, 5: n * M8, 6: 111 + n * (112 + n), 7: 0, 8: 0, 9: 113, 10: 0}[ps]
    def p_out(n, t, ps): return {0: 239, 1: 159 * n, 2: 159 * n, 3: 111 + 32 * t, 4: n * M8, 5: 112 + n, 6: 0, 8: 143, 9: 113, 10: 0}[ps]
    def table(n, t):
        tp = R.buf(bytes(R.sizeof("tp"))); pe = R.buf(bytes(R.sizeof("peer")))
        def f(b, role, k, v): o, z = R.field(role + "." + k); b.put(o, v.to_bytes(z, "little"))
        for b, role in ((tp, "tp"), (pe, "peer")): f(b, role, "n", n); f(b, role, "t", t)
        for st in (0, 1, 2, 3, 4, 5, 6, 8, 9):
            f(tp, "tp", "step", st); sz = R.buf(8 * n)
            same = l.tpdkg_tp_input_sizes(tp.ptr, sz.ptr); ss = struct.unpack("<%dQ" % n, sz.b)
            if any(x != tp_in(n, t, st) for x in ss): return "per-peer input sizes of orchestrator step %d are %s" % (st, ss[:3])
            if l.tpdkg_tp_input_size(tp.ptr) != sum(ss): return "total input size of step %d is %d, sum of parts %d" % (st, l.tpdkg_tp_input_size(tp.ptr), sum(ss))
            if l.tpdkg_tp_output_size(tp.ptr) != tp_out(n, t, st): return "output size of orchestrator step %d is %d" % (st, l.tpdkg_tp_output_size(tp.ptr))
        for st in range(10):
            f(tp, "tp", "prev", st); tot = tp_out(n, t, st); base = R.buf(16); B0 = base.p; prevend = 0
            ln0, own = to_peer(n, t, st)
            for i in range(n):
                m = ctypes.c_void_p(); ln = ctypes.c_size_t(12345)
                r = l.tpdkg_tp_peer_msg(tp.ptr, VP(B0), ctypes.c_size_t(tot), ctypes.c_uint8(i), ctypes.byref(m), ctypes.byref(ln))
                if r and not (st in (7, 9)): return "slicing after step %d for peer %d fails with %d" % (st, i, r)
                if ln.value != ln0: return "slice for peer %d after step %d has %d bytes" % (i, st, ln.value)
                if ln0:
                    if (m.value - B0) != (i * ln0 if own else 0): return "slice for peer %d after step %d starts at %d" % (i, st, m.value - B0)
                    if m.value - B0 + ln.value > tot: return "slice for peer %d after step %d leaves the buffer" % (i, st)
            for i in (n, n + 1, 255):
                m = ctypes.c_void_p(); ln = ctypes.c_size_t()
                if l.tpdkg_tp_peer_msg(tp.ptr, VP(B0), ctypes.c_size_t(tot), ctypes.c_uint8(i), ctypes.byref(m), ctypes.byref(ln)) == 0: return "slice for peer %d of %d is given" % (i, n)
            if ln0:
                m = ctypes.c_void_p(); ln = ctypes.c_size_t()
                if l.tpdkg_tp_peer_msg(tp.ptr, VP(B0), ctypes.c_size_t(tot - 1), ctypes.c_uint8(n - 1), ctypes.byref(m), ctypes.byref(ln)) == 0: return "slice beyond a short buffer is given after step %d" % st
        for ps in (0, 1, 2, 3, 4, 5, 6, 8, 9, 10):
            f(pe, "peer", "step", ps)
            if l.tpdkg_peer_input_size(pe.ptr) != p_in(n, t, ps): return "input size of peer step %d is %d" % (ps, l.tpdkg_peer_input_size(pe.ptr))
            if l.tpdkg_peer_output_size(pe.ptr) != p_out(n, t, ps): return "output size of peer step %d is %d" % (ps, l.tpdkg_peer_output_size(pe.ptr))
        f(pe, "peer", "step", 7)
        for c, my in ((0, 0), (1, 0), (1, 1), (5, 3), (n * n if n * n < 65536 else 65535, min(n, 255))):
            f(pe, "peer", "complaints_len", c); f(pe, "peer", "my_complaints_len", my)
            want = 143 if c == 0 else (111 + 33 * my if my else 0)
            if l.tpdkg_peer_output_size(pe.ptr) != want: return "output size of the disclosure step is %d with %d complaints, %d own" % (l.tpdkg_peer_output_size(pe.ptr), c, my)
        # key disclosures
        compl = R.buf(2 * n * n); f(tp, "tp", "step", 7); o, z = R.field("tp.complaints"); tp.put(o, struct.pack("<Q", compl.p))
        allp = [(c, a) for c in range(1, n + 1) for a in range(1, n + 1)]
        for prs in ([(1, n)], [(c, 1) for c in range(1, n + 1)], [(c, n) for c in range(1, n + 1)] + [(1, 1)], [allp[B.rng.randrange(len(allp))]], list({allp[B.rng.randrange(len(allp))] for _ in range(min(t * t - 1, n))}), B.rng.sample(allp, min(t * t - 1, len(allp), 4000))):
            f(tp, "tp", "complaints_len", len(prs)); compl.put(0, b"".join(struct.pack("<H", c << 8 | a) for c, a in prs))
            sz = R.buf(8 * n); l.tpdkg_tp_input_sizes(tp.ptr, sz.ptr); ss = struct.unpack("<%dQ" % n, sz.b)
            want = [111 + 33 * k if k else 0 for k in [sum(a == i + 1 for c, a in prs) for i in range(n)]]
            if list(ss) != want: return "disclosure sizes %s, expected %s" % (ss[:6], want[:6])
            if l.tpdkg_tp_input_size(tp.ptr) != sum(want): return "total of disclosure sizes is %d, expected %d" % (l.tpdkg_tp_input_size(tp.ptr), sum(want))
    nts = [(3, 2), (4, 2), (4, 3), (5, 3), (16, 8), (17, 16), (127, 126), (128, 2), (128, 127), (64, 63), (100, 31), (128, 8), (33, 5)]
    nts += [(n, B.rng.randrange(2, n)) for n in (range(3, 129, 5) if B.tier == "quick" else range(3, 129))]
    for n, t in nts: B.case("size table", lambda: table(n, t), n=n, t=t)
    def exact(n, t):
        def fn(sim, step, batch):
            inp = b"".join(batch); sn = snap(sim); out = l.tpdkg_tp_output_size(sim.tp.ptr)
            for a, o in ((len(inp) + 1, out), (len(inp) - 1, out), (len(inp), out + 1), (len(inp), out - 1), (0, out), (len(inp), 0)):
                if a < 0 or o < 0 or (a, o) == (len(inp), out): continue
                restore(sim, sn); r = sim.tp_next((inp + b"\0")[:a], o)
                if r == 0: return "orchestrator step %d accepts input %d, output %d; announced %d and %d" % (step, a, o, len(inp), out)
        return at_tp(B, n, t, 23, fn)
    for (n, t) in SMALL[:3]: B.case("announced sizes are the accepted ones", lambda: exact(n, t), n=n, t=t)
    def disclosure(n, t, pairs):
        s = mk(B, n, t, 3)
        def hook(k, st, who, d):
            if k == "peer_out" and st == 5: return complain(s, who, d, [y for x, y in pairs if x == who + 1])
        r = run(s, hook); s.free_peers()
        if r[0].startswith("size"): return "sizes of the disclosure step do not match: %r" % (r,)
        if r != ("tp", 7, 3): return "run with complaints ends with %r" % (r,)
    for n, t, pr in [(3, 2, [(2, 1), (3, 1)]), (5, 3, [(1, 2), (3, 2), (4, 2), (5, 1)]), (4, 3, [(1, 4), (4, 1)])]: B.case("sizes of key disclosure agree", lambda: disclosure(n, t, pr), n=n, t=t, pairs=pr)
    def psz(n, t):
        for ps in list(PIN) + [8]:
            for di, do in ((1, 0), (-1, 0), (0, 1), (0, -1)):
                s = mk(B, n, t, 19); res = []
                def hook(k, st, who, d):
                    if k == "peer_in" and who == 1 and st == ps:
                        out = l.tpdkg_peer_output_size(s.peers[1].st.ptr)
                        x = d + bytes(di) if di > 0 else d[:len(d) + di] if di and d else d
                        o = max(0, out + do)
                        if len(x) == len(d) and o == out: raise Stop()
                        if s.peer_next(1, x, o)[0] == 0: res.append("peer step %d accepts input %d, output %d; announced %d and %d" % (ps, len(x), o, len(d), out))
                        raise Stop()
                try: run(s, hook)
                except Stop: pass
                s.free_peers()
                if res: return res[0]
    for (n, t) in SMALL[:2]: B.case("announced sizes are the accepted ones (peer)", lambda: psz(n, t), n=n, t=t)
# ------------------------------------------------------------------ C22
def C22(B):
    def upd(h, m): h.update(struct.pack(">I", len(m))); h.update(m)
    def go(n, t):
        s = mk(B, n, t, B.rng.randrange(1 << 30)); h = hashlib.blake2b(digest_size=32); h.update(b"tp dkg session transcript"); upd(h, s.msg0.b); bad = []
        seen = set(); sh = {}
        def hook(k, st, who, d):
            if k == "peer_in" and st in (1, 4, 6) and st not in seen: seen.add(st); upd(h, d)
            if k == "peer_out" and st == 8:
                sh[who] = s.pg(who, "share")
                if d[111:143] != h.digest(): bad.append("transcript of peer %d is not the hash of the length-prefixed broadcasts" % (who + 1))
            if k == "peer_in" and st == 9 and d[111:] != b"OK": bad.append("confirmation is %r" % d[111:])
            if k == "peer_out" and st == 9:
                xs = s.peers[who].b["xsh"]; v = sum(isc(xs.get(33 * j + 1, 32)) for j in range(n))
                if s.pg(who, "share") != bytes([who + 1]) + sc(v): bad.append("share of peer %d is not the sum of the received ones" % (who + 1))
                if d[111:] != b"OK": bad.append("acknowledgement is %r" % d[111:])
        r = run(s, hook); s.free_peers()
        if bad: return bad[0]
        if r != ("ok",): return "honest run ends with %r" % (r,)
    for (n, t) in sizes(B) + [(8, 3), (11, 6)]: B.case("transcripts", lambda: go(n, t), n=n, t=t)
    large(B, "transcripts", go)
    # a wrong transcript
    def chk(sim, step, b, o, r, ch, sn, name):
        n = sim.n
        if step == 8:
            good = o.ok and all(m[111:143] == tr[0] for m in b)
            if good != (r == 0): return "returns %d with transcripts that %s" % (r, "all agree" if good else "do not all agree")
            c = sim.tp_out.b[111:]
            if r == 0 and c != b"OK": return "confirmation is %r although all agree" % c
            if r != 0 and c == b"OK" and sim.tp_out.b[64:65] != b"\xa5" and B.S.verify(sim.tp_out.b[:64], sim.tp_out.b[64:], sim.tg("sig_pk")): return "success is confirmed although transcripts do not agree"
            if r != 0 and sim.tp_not_done(): return "not done after disagreement"
            bad = {j + 1 for j in range(n) if b[j][111:143] != tr[0]} | {x[1] for x in o.bad}
            if len(bad) <= sim.cm and {c_[2] for c_ in ch} != bad: return "blamed %s, deviating %s" % (sorted({c_[2] for c_ in ch}), sorted(bad))
        if step == 9:
            good = o.ok and all(m[111:113] == b"OK" for m in b)
            if good != (r == 0): return "returns %d when %s" % (r, "every peer acknowledged" if good else "not every peer acknowledged")
            bad = {j + 1 for j in range(n) if b[j][111:113] != b"OK"} | {x[1] for x in o.bad}
            if len(bad) <= sim.cm and {c_[2] for c_ in ch} != bad: return "blamed %s, not acknowledging %s" % (sorted({c_[2] for c_ in ch}), sorted(bad))
    tr = [None]
    def gen(sim, step, batch):
        n = sim.n
        if step == 8: tr[0] = batch[0][111:143]
        yield "valid messages", batch
        w = 32 if step == 8 else 2
        for j in range(n):
            for p in range(w):
                m = bytearray(batch[j]); m[111 + p] ^= 1 << B.rng.randrange(8); yield "peer %d deviates in byte %d" % (j + 1, p), batch[:j] + [sim.resign(bytes(m), sim.peer_sk(j))] + batch[j + 1:]
            m = sim.resign(header(batch[j], data=b"NO" if step == 9 else bytes(32)), sim.peer_sk(j)); yield "peer %d refuses" % (j + 1), batch[:j] + [m] + batch[j + 1:]
        yield "all deviate", [sim.resign(header(m, data=bytes(w)), sim.peer_sk(j)) for j, m in enumerate(batch)]
        yield from gen_multi(B, 2)(sim, step, batch)
    sweep_tp(B, "confirmation", chk, gen, ns=[(3, 2), (4, 2), (5, 3)], steps=(8, 9))
    def conf(sim, ps, who, d):
        sim._ps, sim._who = ps, who; sim._sh = sim.pg(who, "share")
        for w in (b"NO", b"OL", b"PK", b"ok", b"O\0", b"\0\0", b"KO", b"NK", b"OO"): yield "confirmation %r" % w, sim.resign(d[:111] + w, sim.tp_sk())
        yield "confirmation not signed", d[:20] + bytes([d[20] ^ 1]) + d[21:]
        yield "confirmation signed by a peer", sim.resign(d, sim.peer_sk(0))
    def after(sim, st):
        if st["r"] == 0: return "acknowledged on %r" % st["x"][111:]
        if sim.pg(sim._who, "share") != sim._sh: return "computed its share without confirmation"
        if st["out"][111:] == b"OK": return "acknowledges without confirmation"
    for who in range(3): sweep_peer(B, "confirmation", after, conf, ns=[(3, 2)], steps=(9,))
    def altered(ps, which):
        # one peer sees another (validly signed) broadcast: its transcript must differ and the run must fail
        n, t = 4, 2; s = mk(B, n, t, 51)
        def hook(k, st, who, d):
            if k == "peer_in" and st == ps and who == which:
                return s.resign(header(d, ts=parse(d)["ts"] + 1), s.tp_sk())
        r = run(s, hook); s.free_peers()
        if r[0] == "ok": return "a run succeeds although peer %d saw another broadcast in step %d" % (which + 1, ps)
    for ps in (1, 4, 6):
        for w in (0, 3): B.case("different broadcast for one peer", lambda: altered(ps, w), step=ps, peer=w + 1)
    def ann(pos):
        s = mk(B, 3, 2, 61); m = bytearray(s.msg0.b); m[143 + pos] ^= 1
        s.start_peer(2, B.R.buf(s.resign(bytes(m), s.tp_sk())))
        r = run(s); s.free_peers()
        if r[0] == "ok": return "a run succeeds although one peer saw another announcement"
    for p in (0, 31): B.case("different announcement for one peer", lambda: ann(p), byte=p)
# ------------------------------------------------------------------ C23
def C23(B):
    R = B.R; l = R.l
    def start(n, t, name, ln, m0):
        tp = R.buf(bytes(R.sizeof("tp"))); msg = R.buf(m0)
        r = l.tpdkg_start_tp(tp.ptr, ctypes.c_uint64(1000), ctypes.c_uint8(n), ctypes.c_uint8(t), R.buf(name).ptr, ctypes.c_size_t(ln), ctypes.c_size_t(m0), msg.ptr)
        return r, tp, msg
    def one(n, t, name, m0=177):
        l.vf_settime(1700000000)
        r, tp, msg = start(n, t, name, len(name), m0)
        good = 2 <= t < n <= 128 and 1 <= len(name) <= 1024 and m0 == 177
        if good != (r == 0): return "starting with n=%d t=%d name of %d bytes, buffer %d returns %d" % (n, t, len(name), m0, r)
        if r: return
        g = lambda f: tp.get(*R.field("tp." + f)); m = msg.b
        dst = hashlib.blake2b(struct.pack(">H", len(name) + 20) + b"TP DKG for protocol " + name, digest_size=32).digest()
        if m[111:143] != g("sig_pk"): return "announcement does not carry the orchestrator's key"
        if m[143:175] != dst: return "announcement does not carry the hash of the length-prefixed name"
        if m[175:177] != bytes([n, t]): return "announcement carries n=%d t=%d" % (m[175], m[176])
        if g("n")[0] != n or g("t")[0] != t: return "state has n=%d t=%d" % (g("n")[0], g("t")[0])
        if struct.unpack("<i", g("step"))[0] != 0 or struct.unpack("<H", g("complaints_len"))[0] or struct.unpack("<Q", g("cheater_len"))[0]: return "state does not start empty"
        if parse(m)["sid"] != g("sessionid"): return "announcement carries another session id"
    ns = range(256) if B.tier != "quick" else list(range(0, 8)) + [15, 16, 17, 63, 64, 65, 126, 127, 128, 129, 130, 200, 254, 255]
    for n in ns:
        for t in (sorted({0, 1, 2, 3, n - 2, n - 1, n, n + 1, n // 2, 127, 128, 129, 255}) if B.tier == "quick" else range(0, 256, 1 if n in (2, 3, 128, 129) else 7)):
            if 0 <= t <= 255: B.case("orchestrator parameters", lambda: one(n, t, b"name"), n=n, t=t)
    for k in (0, 1, 2, 12, 13, 44, 107, 108, 109, 127, 128, 235, 236, 237, 255, 256, 257, 1003, 1004, 1023, 1024, 1025, 1026, 2000, 65535, 65536, 65541): B.case("protocol name length", lambda: one(5, 3, bytes(B.rng.randrange(256) for _ in range(k))), length=k)
    for m0 in (0, 1, 111, 145, 176, 178, 256): B.case("announcement buffer", lambda: one(5, 3, b"x", m0), size=m0)
    s = mk(B, 3, 2, 4)
    def peer(n, t):
        m = bytearray(s.msg0.b); m[175] = n; m[176] = t
        r = s.start_peer(0, R.buf(s.resign(bytes(m), s.tp_sk())))
        good = 2 <= t < n <= 128
        if good != (r == 0): return "a peer joining with n=%d t=%d returns %d" % (n, t, r)
        if good and (s.pg(0, "n")[0], s.pg(0, "t")[0]) != (n, t): return "the peer takes n=%d t=%d" % (s.pg(0, "n")[0], s.pg(0, "t")[0])
        if good and s.pg(0, "tp_sig_pk") != s.msg0.b[111:143]: return "the peer takes another orchestrator key"
        if good and s.pg(0, "sessionid") != s.msg0.b[79:111]: return "the peer takes another session id"
    for n in ns:
        for t in sorted({0, 1, 2, 3, n - 2, n - 1, n, n + 1, n // 2, 127, 128, 129, 255}):
            if 0 <= t <= 255: B.case("peer parameters", lambda: peer(n, t), n=n, t=t)
    def index(n, t, idx):
        def ch(sim, d): return sim.resign(header(d, to=idx), sim.tp_sk())
        def after(sim, st):
            good = 1 <= idx <= n
            if good != (st["r"] == 0): return "index %d of %d returns %d" % (idx, n, st["r"])
            if good and sim.pg(1, "index")[0] != idx: return "index taken is %d" % sim.pg(1, "index")[0]
            if good and parse(st["out"])["frm"] != idx: return "sends as %d" % parse(st["out"])["frm"]
        return at_peer(B, n, t, 8, 1, 0, ch, after)
    for n, t in ((3, 2), (5, 4)):
        for idx in sorted({0, 1, 2, n - 1, n, n + 1, n + 2, 100, 127, 128, 129, 254, 255}): B.case("own index", lambda: index(n, t, idx), n=n, index=idx)
# ------------------------------------------------------------------ C24
def C24(B):
    """everything above runs under the address sanitizer; here the contents are random or extreme, with and without logging"""
    rng = B.rng
    def fuzz(n, t, seed, log):
        s = mk(B, n, t, seed, log=log, cheater_max=rng.choice([1, 2, 64]))
        try:
            def junk(x):
                y = bytearray(x)
                for _ in range(rng.choice([1, 1, 3, 20])):
                    if y: y[rng.randrange(len(y))] = rng.choice([0, 1, 255, 128, rng.randrange(256)])
                return bytes(y)
            at = rng.randrange(1, 10); role = rng.random() < 0.5; pw = rng.randrange(n); pst = rng.choice(list(PIN))
            def hook(k, st, who, d):
                if k == "tp_in" and role and st == at:
                    b = list(d)
                    for j in range(n):
                        if b[j] and rng.random() < 0.6:
                            x = junk(b[j])
                            for off, size, no, to in layout(n, t, st, j):
                                m = bytearray(x[off:off + size]); m[64:111] = b[j][off + 64:off + 111]
                                m = s.resign(bytes(m), s.peer_sk(j)); x = x[:off] + m + x[off + size:]
                            b[j] = x
                    return b
                if k == "peer_in" and not role and st == pst and who == pw and d:
                    x = d
                    for off, size, no, frm, to in reversed(players(s, st, who)):
                        m = bytearray(x[off:off + size])
                        if frm is not None or len(players(s, st, who)) == 1:
                            m = bytearray(m[:111] + junk(m[111:]))
                        x = x[:off] + s.resign(bytes(m), s.tp_sk() if frm is None else s.peer_sk(frm)) + x[off + size:]
                    return x
            run(s, hook)
        finally: s.free_peers(); B.R.l.vf_log(0)
    def logged(n, t):
        s = mk(B, n, t, 5, log=1); r = run(s); s.free_peers(); B.R.l.vf_log(0)
        if r != ("ok",): return "honest run with logging ends with %r" % (r,)
    for nt in [(3, 2), (5, 3), (9, 4)]: B.case("honest run with logging", lambda: logged(*nt), n=nt[0], t=nt[1])
    def invalid(n, t, log):
        # every kind of invalid message in every orchestrator step, logging on/off, list full
        for cm in (1, 64):
            s = None
            def fn(sim, step, batch):
                if step == 0: return
                sn = snap(sim)
                for nm, b in gen_multi(B, 1)(sim, step, batch):
                    restore(sim, sn); sim.tp_next(b"".join(b)); o = outs(sim) if 0 else None
            r = at_tp(B, n, t, 14, fn, log=log, cheater_max=cm)
            if r: return r
    for lg in (0, 1): B.case("invalid messages", lambda: invalid(3, 2, lg), logging=lg)
    def compl(n, t, log, raw, entries):
        s = mk(B, n, t, 15, log=log, cheater_max=64)
        def hook(k, st, who, d):
            if k == "tp_in" and st == 6: return [complain(s, j, d[j], entries[:n], raw=raw) for j in range(n)]
        run(s, hook)
        s.free_peers(); B.R.l.vf_log(0)
        # the same towards a peer
        s = mk(B, n, t, 15, log=log)
        def hook2(k, st, who, d):
            if k == "peer_in" and st == 6:
                x = d
                for j in range(n): o = 111 + (112 + n) * j; x = x[:o] + complain(s, j, x[o:o + 112 + n], entries[:n], raw=raw) + x[o + 112 + n:]
                return s.resign(x, s.tp_sk())
        run(s, hook2); 
        for i in range(n):
            for _ in range(3): s.peer_next(i, b"")
        s.free_peers(); B.R.l.vf_log(0)
    for n, t in ((3, 2), (5, 4)):
        for raw in (0, 1, n, n + 1, n + 2, 127, 128, 255):
            for e in ([1] * n, list(range(1, n + 1)), [0] * n, [255] * n, [n + 1] * n): B.case("complaint lists", lambda: compl(n, t, raw & 1, raw, e), n=n, count=raw, entries=e)
    def reveal(n, t, log, data):
        s = mk(B, n, t, 16, log=log, cheater_max=64)
        def hook(k, st, who, d):
            if k == "peer_out" and st == 5: return complain(s, who, d, [1] if who else [2])
            if k == "tp_in" and st == 7:
                b = list(d)
                for j in range(n):
                    if b[j]: b[j] = s.resign(b[j][:111] + (data * 40)[:len(b[j]) - 111], s.peer_sk(j))
                return b
        run(s, hook); s.free_peers(); B.R.l.vf_log(0)
    for data in (b"\0", b"\xff", b"\x01", b"\x02" + bytes(32), bytes([200]) + bytes(32), b"\x80\x7f"): B.case("disclosed keys", lambda: reveal(4, 3, 1, data), data=data); B.case("disclosed keys, no logging", lambda: reveal(4, 3, 0, data), data=data)
    for lg in (0, 1):
        for fail in (range(0, 60, 4) if B.tier == "quick" else range(60)):
            if B.left() < B.budget * 0.35: break
            B.case("channel operation %d fails" % fail, lambda: noise_fail(B, 3, 2, fail, log=lg), fail=fail, logging=lg)
    corners(B)
    while B.left() > 4:
        seed = rng.randrange(1 << 30); n = rng.choice([3, 3, 3, 4, 4, 5, 6]); t = rng.randrange(2, n); lg = rng.random() < 0.3
        B.case("random contents", lambda: fuzz(n, t, seed, int(lg)), n=n, t=t, seed=seed)
        if B.n > 1500: break
def corners(B):
    """extreme arguments of the other functions"""
    R = B.R; l = R.l; S = B.S
    u8 = ctypes.c_uint8
    def shares(n, t):
        sh = R.buf(33 * n); sec = R.buf(sc(5)); l.toprf_create_shares(sec.ptr, u8(n), u8(t), sh.ptr)
    def dk(n, t):
        sh = R.buf(33 * n); cm = R.buf(32 * t); l.dkg_start(u8(n), u8(t), cm.ptr, sh.ptr)
    def verall(n, t, kind):
        sh = R.buf(b"".join(bytes([i + 1]) + sc(i) for i in range(n))); cm = R.buf({0: bytes(32), 1: b"\xff" * 32, 2: S.base(3)}[kind] * (n * t)); f = R.buf(n); k = R.buf(1)
        l.dkg_verify_commitments(u8(n), u8(t), u8(1), cm.ptr, sh.ptr, f.ptr, k.ptr)
    for n, t in ((1, 1), (2, 1), (2, 2), (3, 2), (254, 3), (255, 2), (255, 254), (255, 255), (254, 254)):
        B.case("sharing", lambda: shares(n, t), n=n, t=t); B.case("dealing", lambda: dk(n, t), n=n, t=t)
    for n, t in ((1, 1), (3, 2), (255, 1), (254, 2)):
        for k in range(3): B.case("verifying all dealers", lambda: verall(n, t, k), n=n, t=t, kind=k)
    def comb(k, fill):
        r = R.buf(fill * k if k else b""); out = R.buf(32)
        l.toprf_thresholdcombine(ctypes.c_size_t(k), r.ptr, out.ptr)
    for k in (1, 2, 3, 254, 255):
        for fill in (bytes(33), b"\xff" * 33, b"\1" + S.base(2)): B.case("combining", lambda: comb(k, fill), parts=k)
    def tm(k, fill):
        r = R.buf(fill * k if k else b""); out = R.buf(32)
        l.toprf_thresholdmult(ctypes.c_size_t(k), r.ptr, out.ptr)
    for k in (1, 2, 255):
        for fill in (bytes(33), b"\xff" * 33, b"\1" + S.base(2)): B.case("combining", lambda: tm(k, fill), parts=k)
    def tmbig(k):
        out = R.buf(32)
        return None if l.toprf_thresholdmult(ctypes.c_size_t(k), R.buf(0).ptr, out.ptr) else "accepts %d parts" % k
    for k in (256, 257, 1 << 20, 1 << 40): B.case("too many parts", lambda: tmbig(k), parts=k)
# ------------------------------------------------------------------ C25
def C25(B):
    """the sanitizer reports any double release or use after release; what was created is counted"""
    case = B.case
    def counted(name, fn, /, **kw):
        def go():
            B.R.l.vf_live(1); r = fn(); k = B.R.l.vf_live(1)
            return r or (None if k == 0 else "%d channel sessions or devices are never released" % k if k > 0 else "%d more releases than sessions and devices" % -k)
        return case(name, go, **kw)
    B.case = counted
    for (n, t) in [(3, 2), (4, 2)]:
        tot = None
        for fail in range(0, 400):
            if B.left() < B.budget * (0.4 if n == 3 else 0.3): break
            B.case("channel operation %d fails, then everything is released" % fail, lambda: noise_fail(B, n, t, fail, log=fail % 2), n=n, t=t, fail=fail)
            if fail > 9 * n * n + 12 * n: break
    def stop_at(n, t, ps, who):
        s = mk(B, n, t, 6)
        def hook(k, st, w, d):
            if k == "peer_in" and st == ps and w == who: raise Stop()
        try: run(s, hook)
        except Stop: pass
        s.free_peers()
    for ps in range(10):
        for who in range(3): B.case("released in step %d" % ps, lambda: stop_at(3, 2, ps, who), step=ps, peer=who + 1)
    def bad_data(sim, ps, who, d):
        sim._ps, sim._who = ps, who
        for off, size, no, frm, to in players(sim, ps, who):
            if frm is None: continue
            for p in ((115, 150, 158) if size == 159 else (115, 150, 180, 230)):
                m = bytearray(d[off:off + size])
                if p < size: m[p] ^= 1
                yield "channel data of peer %d at %d" % (frm + 1, p), d[:off] + sim.resign(bytes(m), sim.peer_sk(frm)) + d[off + size:]
    def after(sim, st):
        who = sim._who
        for ln, ol in ((0, 0), (159 * sim.n, 159 * sim.n), (159 * sim.n, 111 + 32 * sim.t), (M8 * sim.n, 112 + sim.n)): sim.peer_next(who, bytes(ln), ol)
    sweep_peer(B, "release after corrupted channel data", after, bad_data, ns=[(3, 2)], steps=(1, 2, 3, 5))
    def again(n, t):
        s = mk(B, n, t, 7); run(s); s.free_peers(); s2 = mk(B, n, t, 8); r = run(s2); s2.free_peers()
        return None if r == ("ok",) else "a second run ends with %r" % (r,)
    B.case("two runs", lambda: again(3, 2))
    def fresh_():
        s = mk(B, 3, 2, 9); s.free_peers()
    B.case("released before the first step", fresh_)
    def seq(n, t, pairs):
        s = mk(B, n, t, 10)
        def hook(k, st, who, d):
            if k == "peer_out" and st == 5: return complain(s, who, d, [y for x, y in pairs if x == who + 1])
        run(s, hook); s.free_peers()
    for pr in ([(1, 2)], [(1, 2), (3, 2)], [(2, 2)]): B.case("released after a run with complaints", lambda: seq(4, 3, pr), pairs=pr)
    def freed(n, t, fail):
        """no slot may keep a session that was released"""
        s = mk(B, n, t, 22); B.R.l.vf_noise_reset(fail)
        try: r = run(s)
        finally: B.R.l.vf_noise_reset(-1)
        for i in range(n):
            p = s.peers[i]
            if p.ret:
                # whatever is called later
                for _ in range(2): s.peer_next(i, b"")
        s.free_peers()
    for fail in range(0, 60, 2):
        if B.left() < 3: break
        B.case("further calls after failing operation %d" % fail, lambda: freed(3, 2, fail), fail=fail)
# ------------------------------------------------------------------ C26
def C26(B):
    def ent(step, error, peer, other, inv=0, cap=512):
        R = B.R; o = R.buf(bytes(R.sizeof("ch")))
        for f, v in zip(("step", "error", "peer", "other_peer", "invalid_index"), (step, error, peer, other, inv)):
            a, z = R.field("ch." + f); o.put(a, (v & ((1 << 8 * z) - 1)).to_bytes(z, "little"))
        out = R.buf(cap); r = R.l.tpdkg_cheater_msg(o.ptr, out.ptr, ctypes.c_size_t(cap))
        return r, out.b
    def expect(step, err, p, q, want, inv=0):
        for cap in (1, 2, 20, 60, 100, 256):
            r, b = ent(step, err, p, q, inv, cap)
            if r != want: return "entry of step %d, code %d, peers %d/%d blames %d instead of %d" % (step, err, p, q, r, want)
            if 0 not in b: return "description of step %d, code %d is not terminated in %d bytes" % (step, err, cap)
        if want and not b.split(b"\0")[0]: return "empty description"
        if p < 200 and want and str(want).encode() not in b.split(b"\0")[0]: return "description of step %d, code %d does not name peer %d: %r" % (step, err, want, b.split(b"\0")[0])
    ps = [(1, 2), (2, 1), (128, 1), (3, 128), (7, 255), (5, 0), (100, 99)]
    for p, q in ps:
        for st in (4, 6, 8, 12, 14, 16, 22):
            for e in range(1, 8): B.case("invalid message", lambda: expect(st, 64 + e, p, q, p), step=st, code=64 + e, peer=p)
        for e in range(1, 8): B.case("invalid key message", lambda: expect(18, 32 + e, p, 0xfe, p), code=32 + e, peer=p)
        for e in range(1, 8): B.case("invalid stored share", lambda: expect(18, 16 + e, p, q, p), code=16 + e, peer=p)
        for e in (3, 4, 5, 6, 7, 127, 129): B.case("complaint resolution", lambda: expect(18, e, p, q, p, 9), code=e, peer=p)
        if q not in (0, 255): B.case("false accusation", lambda: expect(18, 128, p, q, q), peer=p, other=q)
        for e in (7, 8): B.case("bad complaint", lambda: expect(16, e, p, q, p), code=e, peer=p)
        for e in range(1, 9): B.case("transcript", lambda: expect(20, e, p, 0, p), code=e, peer=p)
        B.case("acknowledgement", lambda: expect(22, 1, p, 0, p), peer=p)
    B.case("too many complaints", lambda: expect(16, 6, 0xfe, 0xfe, 0))
    # entries really recorded
    def chk2(sim, step, b, o, r, ch, sn, name):
        got = sorted(culprit(B, c)[0] for c in sim.cheaters()); want = sorted(x[1] for x in o.bad)
        if len(want) <= sim.cm and got != want: return "step %d: the report names %s, at fault %s" % (step, got, want)
    b0 = B.budget; B.budget *= 0.6
    sweep_tp(B, "recorded violations", chk2, gen_multi(B, 4), ns=[(3, 2), (4, 3), (5, 3)])
    B.budget = b0
    def more(sim, step, batch):
        n = sim.n
        if step == 8:
            for j in range(n): yield "peer %d deviates" % (j + 1), batch[:j] + [sim.resign(header(batch[j], data=bytes(32)), sim.peer_sk(j))] + batch[j + 1:]
        if step == 9:
            for j in range(n): yield "peer %d refuses" % (j + 1), batch[:j] + [sim.resign(header(batch[j], data=b"NO"), sim.peer_sk(j))] + batch[j + 1:]
        if step == 6:
            for j in range(n): yield "peer %d complains about 0" % (j + 1), batch[:j] + [complain(sim, j, batch[j], [0])] + batch[j + 1:]
            for j in range(n): yield "peer %d complains twice" % (j + 1), batch[:j] + [complain(sim, j, batch[j], [1, 1])] + batch[j + 1:]
            for j in range(n): yield "peer %d sends a count beyond the message" % (j + 1), batch[:j] + [complain(sim, j, batch[j], [], raw=99)] + batch[j + 1:]
    def chk3(sim, step, b, o, r, ch, sn, name):
        j = int(name.split("peer ")[1].split()[0]); got = {culprit(B, c)[0] for c in sim.cheaters()}
        if got != {j}: return "step %d, %s: the report names %s" % (step, name, sorted(got))
    sweep_tp(B, "recorded violations", chk3, more, ns=[(3, 2), (5, 3)], steps=(6, 8, 9))
    def too_many():
        def fn(sim, step, batch):
            n = sim.n; sim.tp_next(b"".join(complain(sim, j, batch[j], list(range(1, n + 1))) for j in range(n)))
            got = [culprit(B, c)[0] for c in sim.cheaters()]
            if got != [0]: return "too many complaints: the report names %s" % got
        return at_tp(B, 3, 2, 4, fn, steps=(6,))
    B.case("too many complaints recorded", too_many)
