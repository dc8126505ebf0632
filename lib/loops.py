"""Loop summaries.

For a loop the body is executed with symbolic values for everything it carries (header phis and
memory cells).  Closed forms for the carried values follow from their recurrences by induction
on the iteration number k; the trip count K is derived from the exit test and both halves of
`K is the first iteration that leaves' are proof obligations.  The body is then executed once
more for a generic iteration, giving families of writes/events and the safety obligations."""
from engine import *
import engine, alg, term

class Loop:
    def __init__(s, eng, fr, L, recs):
        s.e = eng; s.fr = fr; s.L = L; s.recs = [r for r in recs if r[0] is not FALSE]
        s.tag = "%s#%s%s" % (fr.path, L.head, eng.ph)
        s.cells = {}            # (obj name, key) -> cell
        s.ann = None; s.annc = {}; s.anna = {}; s.annx = {}
        s.discover = False
        s.mods = {}
    # ---------------------------------------------------------------- driver
    def run(s):
        if not s.recs: return {}
        e = s.e; fr = s.fr
        s.g = mkor(*[r[0] for r in s.recs])
        s.phis = [i for i in fr.fn.blocks[s.L.head].ins if i.op == "phi"]
        s.v0 = {i.res: merge([(r[0], r[1][i.res]) for r in s.recs]) for i in s.phis}
        if e.unroll: return s.unrolled(e.unroll)
        r = s.tryunroll(e.uclimit, False)
        if r is not None: return r
        sn = s.snap(); regs = dict(fr.regs); it = list(e.iters); nr = len(fr.rets); q = e.quiet; nl = len(e.loopinfo); nf = len(e.facts)
        s.lvars = set(); e.loopstack.append(s)
        try:
            try: return s.summary()
            finally: e.loopstack.remove(s)
        except Unsupported as x:
            # loops with a small bound
            s.restore(sn); fr.regs.clear(); fr.regs.update(regs); e.iters[:] = it; del fr.rets[nr:]; e.quiet = q; del e.loopinfo[nl:]; del e.facts[nf:]
            r = s.tryunroll(6, True)
            if r is not None: return r
            raise
    def snap(s): return ({o: o.head for o in list(s.e.objs.values())}, len(s.e.events), len(s.e.obl), len(s.e.qf))
    def restore(s, sn):
        e = s.e
        for o, h in sn[0].items(): o.head = h
        del e.events[sn[1]:]; del e.obl[sn[2]:]; del e.qf[sn[3]:]
        for n in [n for n, o in e.objs.items() if o not in sn[0]]: del e.objs[n]
    def body(s, g, regs, mode=None):
        """one iteration starting with the given header values; mode stay/leave: known to be a complete / the leaving one"""
        s.fr.regs.update(regs)
        old = s.fr.prune
        s.assumed = set()
        if mode: s.fr.prune = (mode, s.own(), s.forbidden(mode), s.assumed, conj(g))
        else: s.fr.prune = None
        try: return s.e.region(s.fr, s.L.body, s.L.head, [(g, {})], s.L)
        finally: s.fr.prune = old
    def own(s):
        f = s.fr.fn
        kids = [l for l in f.looplist if l.parent is s.L]
        return {b for b in s.L.body if not any(b in l.body for l in kids)}
    def forbidden(s, mode):
        f = s.fr.fn; body = s.L.body
        if mode == "stay": return {t for b in body for t in f.succ[b] if t not in body}
        # blocks from which every path returns to the head
        can = {b for b in body if not f.succ[b] or any(t not in body for t in f.succ[b])}
        ch = True
        while ch:
            ch = False
            for b in body:
                if b not in can and any(t in can and t != s.L.head for t in f.succ[b]): can.add(b); ch = True
        return (set(body) - can) | {s.L.head}
    # ---------------------------------------------------------------- unrolling
    def unrolled(s, lim):
        e = s.e; out = {}
        recs = [(s.g, s.v0)]; it = 0
        nret = len(s.fr.rets)
        e.iters.append(c64(0))
        while recs:
            g = mkor(*[r[0] for r in recs])
            if g is FALSE: break
            if it > 0 and not all(isc(x) for x in []) and s.dead(g): break
            if it >= lim: raise Unsupported("unroll limit in %s" % s.fr.fn.name)
            e.iters[-1] = c64(it)
            vals = {n: merge([(r[0], r[1][n]) for r in recs]) for n in recs[0][1]}
            ex, recs = s.body(g, vals)
            for to, rs in ex.items(): out.setdefault(to, []).extend(rs)
            it += 1
        e.iters.pop()
        return out
    def dead(s, g):
        return s.e.unsat(g, 1000)
    def tryunroll(s, lim, sym):
        """loops with a constant (or, with sym, a small) trip count"""
        e = s.e
        sn = s.snap(); e.quiet += 1
        rets = len(s.fr.rets)
        regs = dict(s.fr.regs)
        it = list(e.iters)
        ok = False
        try:
            vals = s.v0; g = s.g; n = 0; e.iters.append(c64(0))
            while n <= lim:
                e.iters[-1] = c64(n)
                ex, la = s.body(g, vals)
                if not la: ok = True; break
                lg = mkor(*[r[0] for r in la])
                if not sym and conj(lg) - conj(g): break
                if sym and s.dead(lg): ok = True; break
                vals = {k: merge([(r[0], r[1][k]) for r in la]) for k in la[0][1]}
                g = lg if sym else s.g; n += 1
        except Unsupported as x:
            e.note("unroll: %s" % x)
        finally:
            e.iters[:] = it; e.quiet -= 1; s.restore(sn); del s.fr.rets[rets:]
            s.fr.regs.clear(); s.fr.regs.update(regs)
        if not ok: return None
        return s.unrolled(lim + 1)
    # ---------------------------------------------------------------- summary
    def carried(s, node, off, n, g):
        """read of a location at the start of an iteration (discovery pass)"""
        obj = node.obj
        ms = s.mods.get(obj)
        if not ms: return None
        N = p_const(n)
        hit = False
        for (vars_, eoff, en, k) in ms:
            if k in ("S", "A"): hit = True; break
            el = ipoly(en) if isinstance(en, T) else p_const(en)
            gg = mkand(g, *[ult(z64(v), z64(K)) for v, K in vars_])
            R = cen(p_add(mpoly(off), mpoly(eoff), -1))
            # entries of other iterations: decide only by constant differences or ranges independent of the loop
            if s.varies(eoff) or s.varies(off):
                if s.sepranges(off, N, eoff, el, gg): continue
                hit = True; break
            rl, _ = s.e.rel(off, N, eoff, el, gg)
            if rl != "no": hit = True; break
        if not hit: return None
        if s.varies(off):
            return uf("carry:%s:%s" % (s.tag, obj.name), 8 * n, off, s.k, *s.e.iters[:-1])
        key = (obj.name, p_key(mpoly(off)), n)
        for (on, pk, m), c in s.cells.items():
            if on != obj.name: continue
            d = cen(p_add(mpoly(off), mpoly(c["off"]), -1))
            if p_isconst(d):
                r = p_cval(d)
                if 0 <= r and r + n <= m: return vext(c["var"], 8 * r, 8 * n)
                if r + n <= 0 or r >= m: continue
                # overlap: widen the cell
                lo, hi = min(0, r), max(m, r + n)
                if (hi - lo, lo) not in s.widen.setdefault((on, pk, m), []): s.widen[(on, pk, m)].append((hi - lo, lo)); s.changed = True
                return uf("pending:" + s.tag, 8 * n)
        off = canon64(off)
        v = var("%s:%s:%s:%d" % (s.tag, obj.name, s.offname(off), n), 8 * n)
        # the value before the loop decides whether the cell holds a pointer
        c = dict(obj=obj, off=off, n=n, var=v)
        s.cells[key] = c; s.changed = True
        return v
    def offname(s, off): return "%d" % cv(off) if isc(off) else "o%d" % off.id
    def varies(s, t):
        f = fv(t)
        if f & s.lvars: return True
        st = s.e.loopstack
        return any(f & l.lvars for l in st[st.index(s) + 1:]) if s in st else False
    def sepranges(s, off, N, eoff, el, g):
        """[off,off+N) and the entry cannot meet whatever the iterations are"""
        a, b = mpoly(off), mpoly(eoff)
        def strip_(p):
            r = {}
            for m, c in p.items(): r[m] = c
            return r
        lo1, hi1 = p_range(a); lo2, hi2 = p_range(b)
        n = p_range(N)[1]; m = p_range(el)[1]
        if hi1 + n <= lo2 or hi2 + m <= lo1: return True
        # residues: both offsets congruent to constants modulo a common stride
        if p_isconst(N) and p_isconst(el):
            import math
            st = 0
            for p in (a, b):
                for mo, c in p.items():
                    if mo: st = math.gcd(st, abs(c))
            if st > 1:
                d = (p_cval(a) - p_cval(b)) % st
                if d >= p_cval(el) and d + p_cval(N) <= st: return True
        return False
    def unmodified(s, obj, pos, lim, g):
        ms = s.mods.get(obj)
        if not ms: return True
        for (vars_, eoff, en, k) in ms:
            el = ipoly(en) if isinstance(en, T) else p_const(en)
            gg = mkand(g, *[ult(z64(v), z64(K)) for v, K in vars_])
            d = p_add(pos, mpoly(eoff), -1)
            if k not in ("S", "A") and not s.varies(eoff) and not any(s.varies(a) for m in pos for a in m) and (s.e.nonneg(p_add(d, el, -1), gg) or s.e.nonneg(p_add(p_scale(d, -1), lim, -1), gg)): continue
            if k not in ("S", "A") and s.sepranges(p_term(pos), lim, eoff, el, gg): continue
            return False
        return True
    def summary(s):
        e = s.e; fr = s.fr
        s.k = var("k:" + s.tag, 64)
        s.discover = True
        s.widen = {}
        lv = {}
        for i in s.phis:
            x = s.v0[i.res]
            if isinstance(x, PSel): raise Unsupported("pointer choice carried by loop in %s" % fr.fn.name)
            if isinstance(x, T): lv[i.res] = var("%s:%%%s" % (s.tag, i.res), x.w)
            else: lv[i.res] = Ptr(x.obj, var("%s:%%%s" % (s.tag, i.res), 64))
        regs0 = dict(fr.regs)
        s.pre = {o: o.head for o in list(e.objs.values())}
        known = set(s.pre)
        rounds = 0
        while True:
            rounds += 1
            if rounds > 12: raise Unsupported("loop discovery does not converge in %s" % fr.fn.name)
            s.changed = False
            s.lvars = {x if isinstance(x, T) else x.off for x in lv.values()} | {c["var"] for c in s.cells.values()} | {s.k}
            sn = s.snap(); e.quiet += 1; rl = len(fr.rets)
            keep = (dict(SCHEMA), dict(e.rng), dict(PERM), list(e.facts))
            for o in known: o.head = Node(o.head, E("M", TRUE, c64(0), 0, x=s), o)
            e.iters.append(s.k)
            try:
                ex, la = s.body(s.g, lv)
                lg = mkor(*[r[0] for r in la]) if la else FALSE
                nxt = {i.res: merge([(r[0], r[1][i.res]) for r in la]) if la else None for i in s.phis}
                cn = {}
                if la:
                    for key, c in list(s.cells.items()):
                        cn[key] = e.read(c["obj"], c["off"], c["n"], lg)
                mods = {}; ent = {}
                for o in known:
                    nd = o.head; l = []
                    while not (nd.e is not None and nd.e.k == "M" and nd.e.x is s):
                        l.append(nd.e); nd = nd.prev
                    l.reverse()
                    if l:
                        ent[o] = l
                        mods[o] = [(x.vars, x.off, x.n, x.k) for x in l]
            finally:
                s.late = {k: v for k, v in SCHEMA.items() if k.startswith("opq:") and k not in keep[0]}
                e.iters.pop(); e.quiet -= 1; s.restore(sn); del fr.rets[rl:]
                fr.regs.clear(); fr.regs.update(regs0)
                for a, b in ((SCHEMA, keep[0]), (e.rng, keep[1]), (PERM, keep[2])): a.clear(); a.update(b)
                e.facts[:] = keep[3]
            if not la:
                # the body never returns to the head: not a loop under this guard
                return s.once(lv)
            if s.widen:
                for (on, pk, m), ws in s.widen.items():
                    c = s.cells.pop((on, pk, m), None)
                    if c is None: continue
                    n2, lo = max(w[0] for w in ws), min(w[1] for w in ws)
                    off = canon64(add(c["off"], c64(lo)))
                    key = (on, p_key(mpoly(off)), n2)
                    s.cells[key] = dict(obj=c["obj"], off=off, n=n2, var=var("%s:%s:%s:%d" % (s.tag, on, s.offname(off), n2), 8 * n2))
                s.widen = {}; s.changed = True
            sig = {o: [(x[1], x[2] if not isinstance(x[2], T) else x[2].id, x[3]) for x in l] for o, l in mods.items()}
            if sig != getattr(s, "sig", None): s.changed = True
            s.sig = sig; s.mods = mods
            if not s.changed: break
        s.discover = False
        # ---- recurrences
        unk = {}
        for i in s.phis:
            a = lv[i.res]; b = nxt[i.res]; c = s.v0[i.res]
            if isinstance(a, T): unk[a] = (b, c)
            else:
                for q in ptrs(b, TRUE):
                    if q[1].obj is not a.obj: raise Unsupported("loop pointer changes object in %s" % fr.fn.name)
                unk[a.off] = (poff(b), c.off)
        prevheads = s.pre
        for key, c in s.cells.items():
            v0 = e.read(c["obj"], c["off"], c["n"], s.g)
            b = cn[key]
            if not isinstance(b, T) or not isinstance(v0, T):
                c["ptr"] = True
                b = e.ptrint(b) if not isinstance(b, T) else b
                if isinstance(v0, T) and isinstance(cn[key], T): pass
                v0 = v0 if isinstance(v0, T) else e.ptrint(v0)
            unk[c["var"]] = (b, v0)
        s.kK = None
        s.annotate(ent); s.late0 = {k: SCHEMA.get(k) for k in s.late}; SCHEMA.update(s.late)
        s.solve(unk, lg)
        sol = s.sol
        # ---- trip count
        exits = []
        for to, rs in ex.items():
            for g2, pv in rs: exits.append((strip(subst(g2, sol), s.g), to))
        lat = strip(subst(lg, sol), s.g)
        s.find_trip(exits, lat)
        s.k0 = s.k
        if s.K is not None and urange(s.K)[1] > 65535 and s.K not in VR:
            for hi in (255, 65535):
                if e.prove(TRUE, ule(s.K, c64(hi)), 1000): VR[s.K] = (0, hi); term._ur.pop(s.K, None); break
        if s.K is not None and urange(s.K)[1] < (1 << 62):
            # second solution with the range of the iteration number known
            hi = urange(s.K)[1]
            k2 = var("k2:%s:%d" % (s.tag, hi), 64); VR[k2] = (0, hi); s.kK = s.K
            s.rng_(k2, ule(k2, s.K))
            m = {s.k: k2}
            s.k = k2
            s.solve({v: (subst(a, m), b) for v, (a, b) in unk.items()}, subst(lg, m))
            lat = subst(lat, m); s.mainc = subst(s.mainc, m); s.others = [(subst(c, m), to) for c, to in s.others]
        for k, v in s.late0.items():
            if v is None: SCHEMA.pop(k, None)
            else: SCHEMA[k] = v
        if s.K is not None and not (isc(s.K) and cv(s.K) == 0) and (urange(s.K)[1] <= 6 or e.prove(s.g, ule(s.K, c64(4)), 500)):
            return s.unrolled(8)
        return s.emit(lv, ent, lat)
    def rng_(s, v, f): s.e.rng[v] = f
    def newj(s):
        j = fresh("j", 64)
        if s.kK is not None:
            VR[j] = (0, max(0, urange(s.kK)[1] - 1)); BOUND[j] = p_add(ipoly(s.kK), p_const(-1)); s.rng_(j, ult(j, s.kK))
        return j
    # ---------------------------------------------------------------- stated invariants
    def annotate(s, ent):
        """cells and arrays of a stated invariant which this loop changes"""
        e = s.e; a = e.annot
        if a is None: return
        for key, c in s.cells.items():
            for nm, (o, off, n) in a.cells.items():
                if c["obj"] is o and isc(c["off"]) and cv(c["off"]) == off and c["n"] == n and o in ent: s.annc[c["var"]] = nm
        if not s.annc and not a.changes(s, ent): return
        s.ann = a; s.depth = len([l for l in e.loopstack if l is not s and l.ann])
        s.anna = {o: "arr:%s:%s" % (s.tag, o.name) for nm, (o, n) in a.arrs.items() if o in ent}
        # single elements seen as cells belong to the array
        s.annx = {c["var"]: c for c in s.cells.values() if c["obj"] in s.anna}
        s.cells = {k: c for k, c in s.cells.items() if c["obj"] not in s.anna}
    def at(s, k, its):
        """the state at the start of iteration k in terms of the unknown functions of the loop"""
        e = s.e; a = s.ann; cn = {nm: v for v, nm in s.annc.items()}
        class St: pass
        st = St(); st.its = its; st.k = k
        st.ghost = lambda nm, w=64: uf("ghost:%s:%s" % (s.tag, nm), w, k, *its)
        st.cell = lambda nm: uf("opq:" + cn[nm].args[0], cn[nm].w, k, *its) if nm in cn else e.read(a.cells[nm][0], c64(a.cells[nm][1]), a.cells[nm][2], s.g)
        st.arr = lambda nm, off: uf("%s:%d" % (s.anna[a.arrs[nm][0]], 8 * a.arrs[nm][1]), 8 * a.arrs[nm][1], canon64(off), k, *its) if a.arrs[nm][0] in s.anna else e.read(a.arrs[nm][0], off, a.arrs[nm][1], s.g)
        return st
    def now(s, its, k, g, ghost):
        """the state of the memory as it is"""
        e = s.e; a = s.ann
        class St: pass
        st = St(); st.its = its; st.k = k; st.ghost = ghost
        st.cell = lambda nm: e.read(a.cells[nm][0], c64(a.cells[nm][1]), a.cells[nm][2], g)
        st.arr = lambda nm, off, h=TRUE: e.read(a.arrs[nm][0], off, a.arrs[nm][1], mkand(g, h))
        return st
    def invariant(s, kb, kb64, Ns, ps):
        e = s.e; a = s.ann; its = tuple(e.iters); cn = {nm: v for v, nm in s.annc.items()}
        up = a.trip(s.depth, its)
        if up is not None and s.K is not None and e.prove(s.g, ule(s.K, up), 4000): BOUND[kb] = p_add(ipoly(up), p_const(-1))
        else: up = None
        for k in [kb64] + Ns:
            st = s.at(k, its)
            for nm, t in a.bounds(s.depth, up if up is not None and k is not kb64 else k, its).items():
                if nm in cn: BOUND[st.cell(nm)] = ipoly(t)
        kp = var("sx!%s!k" % s.tag, 64); qp = var("sx!%s!q" % s.tag, 64)
        pm = tuple(trunc(p, x.w) if x.w < 64 else p for p, x in zip(ps, its))
        pr = tuple(var(p.args[0] + "!%d" % x.w, x.w) for p, x in zip(ps, its))
        st = s.at(kp, pr)
        fx = [ule(zext(st.cell(nm), 64), t) for nm, t in a.bounds(s.depth, kp, pr).items() if nm in cn] + [f for _, f in a.facts(s.depth, st)]
        for v in s.annc: SCHEMA["opq:" + v.args[0]] = [((kp,) + pr, f) for f in fx if any(u.op == "uf" and u.args[0] == "opq:" + v.args[0] for u in subterms(f))]
        for nm, (o, n) in a.arrs.items():
            if o not in s.anna: continue
            SCHEMA["%s:%d" % (s.anna[o], 8 * n)] = [((qp, kp) + pr, f) for _, f in a.elems(s.depth, st, nm, qp, st.arr(nm, qp))]
        if not e.quiet: s.proves("holds at the start", s.now(its, c64(0), s.g, lambda nm, w=64: const(0, w)), s.g, its, ())
    def preserved(s, kb64, g):
        its = tuple(s.e.iters[:-1]); a = s.ann; old = s.at(kb64, its)
        st = s.now(its, add(kb64, c64(1)), g, None)
        st.ghost = lambda nm, w=64: a.ghost(s.depth, nm, old, st)
        s.proves("is preserved", st, g, its, a.inst(s.depth, old))
        a.loop = s; a.after(s.e, s.depth, old, st, g)
    def proves(s, what, st, g, its, inst):
        e = s.e; a = s.ann; loc = "%s loop over %s" % (s.fr.fn.name, a.name)
        def ob(lab, h, f):
            q = e.prove(h, f, 8000, inst) or s.e.nonneg_goal(h, f)
            e.obl.append(("invariant", "%s: %s %s (level %d)" % (loc, lab, what, s.depth), q, h, f))
        for nm, t in a.bounds(s.depth, st.k, its).items(): ob("bound of " + nm, g, ule(zext(st.cell(nm), 64), t))
        for lab, f in a.facts(s.depth, st): ob(lab, g, f)
        for nm, (o, n) in a.arrs.items():
            j = var("el!%s" % nm, 64); VR[j] = (0, a.size[nm]); off = mul(j, c64(n)); h = mkand(g, a.inside(nm, st, off)); v = e.read(o, canon64(off), n, h)
            for lab, f in a.elems(s.depth, st, nm, off, v): ob(lab, g, f)
    def once(s, lv):
        return s.unrolled(2)
    # ---------------------------------------------------------------- recurrences
    def solve(s, unk, lg):
        s.sol = {}; k = s.k
        todo = dict(unk); tried = False
        lg = strip(lg, s.g); s.lg = lg
        names = set(unk)
        while todo:
            prog = False
            for v in list(todo):
                nx, v0 = todo[v]
                nx = subst(nx, s.sol) if s.sol else nx
                nx = under(subst(lg, s.sol) if s.sol else lg, nx)
                dep = fv(nx) & names - set(s.sol)
                r = None
                if nx is v and v not in s.annx: r = v0
                elif v in s.annx: r = uf("%s:%d" % (s.anna[s.annx[v]["obj"]], v.w), v.w, canon64(s.annx[v]["off"]), k, *s.e.iters)
                elif v in s.annc: r = uf("opq:" + v.args[0], v.w, s.k, *s.e.iters)
                elif dep <= {v}:
                    if v.w in (8, 16, 32, 64) and v in fv(nx): nx = s.simple(v, nx, subst(lg, s.sol) if s.sol else lg)
                    r = s.rec(v, nx, v0)
                if r is not None:
                    s.sol[v] = r; del todo[v]; prog = True
            if not prog and not tried:
                # drop tests on other carried values whose outcome follows from the iteration completing
                tried = True; l2 = subst(lg, s.sol) if s.sol else lg
                for v in list(todo):
                    nx, v0 = todo[v]; nx = under(l2, subst(nx, s.sol) if s.sol else nx); ns = fv(nx) & names - set(s.sol)
                    if v.w in (8, 16, 32, 64) and ns - {v} and v not in s.annc and v not in s.annx and nx.op != "ite" or delta(v, nx) is not None:
                        y = s.simple(v, nx, l2, ns)
                        if not (fv(y) & names - set(s.sol) - {v}): todo[v] = (y, v0); prog = True
                if prog: continue
            if not prog:
                # cyclic group: everything left is an unknown function of k
                for v in list(todo):
                    if s.permgroup(v, todo[v]): pass
                v = sorted(todo, key=lambda t: t.args[0])[0]
                s.sol[v] = s.opaque(v, todo[v][1], todo[v][0], lg); del todo[v]
        # close under substitution
        for _ in range(4):
            ch = False
            for v in s.sol:
                if fv(s.sol[v]) & names:
                    n = subst(s.sol[v], s.sol)
                    if n is not s.sol[v]: s.sol[v] = n; ch = True
            if not ch: break
    def permgroup(s, v, x): return False
    def limit(s, v, v0, nx, lg):
        """stated bounds that hold inductively for a value without closed form: if it starts below it stays below"""
        e = s.e; nm = "opq:" + v.args[0]
        ts = getattr(e.annot, "limits", ()) if e.annot is not None else ()
        if not ts: return
        lg = subst(lg, s.sol) if s.sol else lg
        its = tuple(e.iters); kp = var("sl!%s!k" % s.tag, 64); pr = tuple(var("sl!%s!%d!%d" % (s.tag, j, x.w), x.w) for j, x in enumerate(its)); m = dict(zip(its, pr)); out = []
        for t in ts:
            if e.prove(mkand(s.g, lg, ult(zext(v0, 64), t), ult(zext(v, 64), t)), ult(zext(nx, 64), t), 2000):
                out.append(((kp,) + pr, imp(ult(zext(subst(v0, m), 64), subst(t, m)), ult(zext(uf(nm, v.w, kp, *pr), 64), subst(t, m)))))
        if out: SCHEMA[nm] = out
    def opaque(s, v, v0, nx=None, lg=None):
        nm = "opq:" + v.args[0]
        if nx is not None and v.w in (8, 16, 32): s.limit(v, v0, nx, lg)
        s.e.note("opaque loop value " + v.args[0])
        t = uf(nm, v.w, s.k, *s.e.iters)
        if isc(v0) and v.w == 0: return t
        return ite(eq(s.k, c64(0)), v0, t)
    def rec(s, v, nx, v0):
        k = s.k
        w = v.w
        if v not in fv(nx):
            # overwritten in every iteration: value of the previous iteration
            return ite(eq(k, c64(0)), v0, subst(nx, {k: sub(k, c64(1))}))
        if w in (8, 16, 32, 64):
            d = delta(v, nx)
            if d is not None and v not in fv(d):
                kk = trunc(k, w) if w < 64 else k
                if k not in fv(d): return add(v0, mul(d, kk))
                j = s.newj()
                body = subst(d, {k: j})
                if body.op == "b2i": return add(v0, binder("count", j, k, body.args[0], w))
                return add(v0, binder("isum", j, k, body, w))
        if w == 256:
            r = s.ferec(v, nx, v0)
            if r is not None: return r
        # flags: once changed to a constant they stay
        if w and v0.w == w:
            r = s.latch(v, nx, v0)
            if r is not None: return r
        return s.opaque(v, v0, nx, s.lg)
    def simple(s, v, nx, lg, ns=None):
        """drop tests on the carried value whose outcome follows from the iteration completing"""
        d = delta(v, nx); ns = ns or {v}
        if d is not None and not (ns & fv(d)): return nx
        at = [t for t in subterms(nx) if t.w == 0 and ns & fv(t) and t.op not in ("and", "or", "not", "ite")]
        if len(at) > 8: return nx
        for a in at:
            for val in (TRUE, FALSE):
                y = subst(nx, {a: val})
                if y is not nx and s.e.prove(mkand(s.g, lg), eq(nx, y), 2000): nx = y; break
        return nx
    def latch(s, v, nx, v0):
        """nx = ite(c, const, v): value is const as soon as some earlier iteration satisfied c"""
        if nx.op == "ite" and nx.args[2] is v and isc(nx.args[1]): c, a = nx.args[0], nx.args[1]
        elif nx.op == "ite" and nx.args[1] is v and isc(nx.args[2]): c, a = neg(nx.args[0]), nx.args[2]
        else: return None
        if v in fv(c): return None
        j = s.newj()
        return ite(eq(binder("count", j, s.k, subst(c, {s.k: j}), 64), c64(0)), v0, a)
    def ferec(s, v, nx, v0):
        """linear recurrences over the scalar field / in the group"""
        k = s.k
        for kind in ("s", "p"):
            V = mk("pvalid", (v,), 0)
            y = nx
            if kind == "p" and any(t is V for t in subterms(y)):
                # candidate invariant: validity of the accumulator never changes
                pv0 = pvalid(v0)
                y = subst(y, {V: pv0})
                nv = under_ite(pvalid(y), V, pv0)
                if not s.e.prove(s.g, eq(nv, pv0), 1000): continue
            fsub = fs if kind == "s" else fp
            a = fsub(y)
            at = mk("fval" if kind == "s" else "fdlog", (v,), FW)
            A = f_const(0); D = f_const(0); bad = False
            for key, (c, m) in a.d.items():
                if at in m:
                    ex = m[at]
                    if not (p_isconst(ex) and p_cval(ex) == 1): bad = True; break
                    mm = {x: q for x, q in m.items() if x is not at}
                    if any(v in fv(x) for x in mm): bad = True; break
                    kk, mo = m_norm(list(mm.items()))
                    A = f_add(A, FP({kk: (c, mo)}))
                else:
                    if any(v in fv(x) for x in m): bad = True; break
                    D = f_add(D, FP({key: (c, m)}))
            if bad: continue
            if not any(at in m for c, m in a.d.values()): continue
            enc = senc if kind == "s" else penc
            V0 = fsub(v0)
            j = s.newj()
            one = f_isconst(A) and f_cval(A) == 1
            if one:
                r = f_add(V0, f_sum(j, k, FPof(subst(F(D), {k: j}))))
            elif not D.d:
                r = f_mul(V0, f_prod(j, k, FPof(subst(F(A), {k: j}))))
            elif k not in fv(F(A)) and k not in fv(F(D)):
                # r_{k+1} = A r_k + D : A^k r0 + D * sum A^j
                r = f_add(f_mul(V0, f_pow(A, mpoly(k))), f_mul(D, f_sum(j, k, f_pow(A, p_atom(j)))))
            elif k not in fv(F(A)):
                # sum_j D(j) A^(k-1-j)
                ex = p_add(p_add(p_atom(k), p_const(-1)), p_atom(j), -1)
                r = f_add(f_mul(V0, f_pow(A, mpoly(k))), f_sum(j, k, f_mul(FPof(subst(F(D), {k: j})), f_pow(A, ex))))
            else: continue
            if kind == "p" and not isc(v0):
                # an invalid starting point is never overwritten
                pv0 = pvalid(v0)
                return ite(pv0, enc(r), v0) if pv0 is not TRUE else enc(r)
            return enc(r)
        return None
    # ---------------------------------------------------------------- trip count
    def find_trip(s, exits, lat):
        e = s.e; k = s.k
        s.others = []; s.K = None; s.main = None
        for i, (c, to) in enumerate(exits):
            for K in s.cands(c):
                if K is None: continue
                x = subst(c, {k: K})
                # leaves at K
                if not e.prove(mkand(s.g), x, 2000): continue
                kk = var("kq", 64)
                if not e.prove(mkand(s.g, ult(kk, K)), neg(subst(c, {k: kk})), 2000): continue
                s.K = K; s.main = i; break
            if s.K is not None: break
        if s.K is not None:
            s.others = [x for j, x in enumerate(exits) if j != s.main]
            s.mainc = exits[s.main][0]
            # exits that can only be taken together with the main one in its iteration do not matter before K
            s.others = [(c, to) for c, to in s.others if not e.unsat(mkand(s.g, ult(s.k, s.K), c), 1000)]
            return
        # no exact count: look for a bound
        for i, (c, to) in enumerate(exits):
            for x in lits(c):
                for K in sorted(s.cands(x), key=lambda t: urange(t)[1]):
                    if e.prove(s.g, subst(mkor(*[c2 for c2, _ in exits]), {k: K}), 2000):
                        s.Kmax = K; s.others = exits; return
        e.obl.append(("termination", "%s loop %s" % (s.fr.fn.name, s.L.head), False, s.g, FALSE)) if not e.quiet else None
        s.Kmax = None; s.others = exits
    def cands(s, c):
        k = s.k
        for l in lits(c):
            n = l.op == "not"; x = l.args[0] if n else l
            if x.op not in ("ult", "slt", "eq") or k not in fv(x): continue
            a, b = x.args
            if a.w == 0: continue
            sg = x.op in ("slt", "eq")
            pa, pb = lin64(a, sg), lin64(b, sg)
            if pa is None or pb is None: continue
            # difference as polynomial in k
            d = p_add(pa, pb, -1)
            ck = coef_of(d, k)
            rest = {m: q for m, q in d.items() if k not in m}
            if not p_isconst(ck) or not ck: continue
            ckv = p_cval(ck)
            # d = ckv*k + rest ; candidates where d crosses 0 or 1 or -1
            outs = []
            for sh in (0, 1, -1):
                r = p_add(rest, p_const(sh))
                r = p_scale(r, -1 if ckv > 0 else 1)
                q = abs(ckv)
                if all(v % q == 0 for v in r.values()): r = {m: v // q for m, v in r.items()}
                elif q > 1:
                    outs.append(udiv(add(p_term(r), c64(q - 1)), c64(q))); continue
                outs.append(p_term(r))
            for t in outs:
                yield t
                # loop may not be entered at all
                ent = subst(c, {k: c64(0)})
                if ent is not FALSE and not isc(t): yield ite(ent, c64(0), t)
    # ---------------------------------------------------------------- emission
    def emit(s, lv, ent, lat):
        e = s.e; fr = s.fr; g = s.g; it = tuple(e.iters)
        fn = fr.fn.name
        if s.K is not None and isc(s.K) and cv(s.K) == 0 and not s.others:
            # never iterates: only the header runs
            return s.last(lv, g, c64(0), s.mainc, {}, g)
        # instances of this loop in enclosing loops: by index variable, or by name where the index is a particular value
        it64 = tuple(z64(x) for x in it)
        sfx = "".join("/" if x.op == "v" else "/%s" % x.id for x in it)
        ps = []; pm = {}
        for q, x in enumerate(it):
            p = var("sx!%s!%d" % (s.tag, q), 64); VR[p] = urange(x); ps.append(p)
            if x.op == "v": pm[x] = trunc(p, x.w) if x.w < 64 else p
        if s.K is not None:
            khi = urange(s.K)[1]
            B = None
            if s.others: B = uf("B:" + s.tag + sfx, 0, *it64)
        else:
            if s.Kmax is None: khi = (1 << 64) - 1
            else: khi = urange(s.Kmax)[1] + 1
            B = FALSE
        w = 8 if khi <= 256 else 16 if khi <= 65536 else 32 if khi <= (1 << 32) else 64
        s.w = w
        # bounds
        X = None
        if B is not None:
            xn = "X:" + s.tag + sfx + ("" if w == 8 else ".%d" % w)
            VRN[xn] = (0, max(0, khi - 1))
            X = uf(xn, w, *it64)
            SCHEMA[xn] = []
            if s.K is not None: SCHEMA[xn].append((tuple(ps), subst(mkor(B, ult(z64(X), s.K)), pm)))
            elif s.Kmax is not None: SCHEMA[xn].append((tuple(ps), subst(ule(z64(X), s.Kmax), pm)))
        N0 = s.K if s.K is not None else z64(X)
        kb = var("i:%s:%d:%d" % (s.tag, w, N0.id), w)
        s.kb = kb
        if w < 64 or khi < (1 << 64): VR[kb] = (0, max(0, khi - 1))
        kb64 = z64(kb)
        s.lvars = set(s.lvars) | {kb, var(kb.args[0] + "'", kb.w)}
        runs = []
        if s.K is not None:
            runs.append((TRUE if B is None else B, s.K, "main"))
        if B is not None:
            runs.append((neg(B), z64(X), "early"))
        # families from the discovery pass, used as the state at the start of iteration k
        sol_b = {v: subst(t, {s.k: kb64}) for v, t in s.sol.items()}
        sol_b[s.k] = kb64; sol_b[s.k0] = kb64
        first = {}
        for o, l in ent.items():
            first[o] = [s.esub(x, sol_b) for x in l]
        lvb = {n: vsubst(x, sol_b) for n, x in lv.items()}
        latb = subst(lat, {s.k: kb64})
        s.perms = {}
        for o, l in ent.items():
            pr = s.permuted(o, l)
            if pr: s.perms[o] = pr
        s.hist = {}
        for o, l in ent.items():
            h = s.counters(o, l)
            if h: s.hist[o] = E("A", subst(h.g, sol_b), subst(h.off, sol_b), h.n, subst(h.v, sol_b), (), h.loc)
        fams = None
        out = {}
        heads = dict(s.pre)
        BOUND[kb] = p_add(ipoly(N0), p_const(-1))
        s.rng_(kb, ult(kb64, N0))
        if s.ann: s.invariant(kb, kb64, [N for _, N, _ in runs], ps)
        # ---- generic complete iteration
        sn = s.snap(); rl = len(fr.rets); regs0 = dict(fr.regs)
        s.state(first, kb64, kb, lat_strip(latb), g)
        e.iters.append(kb)
        gb = mkand(g, latb)
        if B is not None and s.K is not None: pass
        ex, la = s.body(gb, lvb, "stay")
        if s.ann and not e.quiet: s.preserved(kb64, mkand(gb, *s.assumed))
        e.iters.pop()
        gb = mkand(gb, *s.assumed)
        fams = {}
        for o in s.pre:
            nd = o.head; l = []
            stop = s.statehead.get(o, s.pre[o])
            while nd is not stop: l.append(nd.e); nd = nd.prev
            l.reverse()
            if l: fams[o] = [s.gstrip(x, gb) for x in l]
        evs = e.events[sn[1]:]; obls = e.obl[sn[2]:]; qfs = e.qf[sn[3]:]
        s.restore(sn); del fr.rets[rl:]; fr.regs.clear(); fr.regs.update(regs0)
        e.obl += obls
        e.qf += qfs
        for ev in evs: ev.g = strip(ev.g, gb)
        s.fams = fams
        # ---- effects of all complete iterations
        s.loopinfo = dict(tag=s.tag, k=kb, K=s.K, B=B, X=X, lat=latb, fn=fn)
        e.loopinfo.append(s.loopinfo)
        for bg, N, kind in runs:
            gg = mkand(g, bg)
            if gg is FALSE: continue
            for ev in evs:
                n = Ev(ev.k, mkand(ev.g, gg), ev.a, ev.r, ((kb, N),) + tuple(ev.vars), ev.loc, ev.it); e.events.append(n)
            if latb is not TRUE:
                e.qf.append((kb, trunc(N, kb.w) if urange(N)[1] <= mask(kb.w) else N, gg, latb, "%s/%s" % (s.tag, kind)))
            s.apply(fams, N, gg, lambda t, N=N: subst(t, {s.k: N}))
        # ---- leaving iterations
        if s.K is not None:
            bg = TRUE if B is None else B
            for to, rs in s.last(lv, mkand(g, bg), s.K, s.mainc, None, mkand(g, bg)).items(): out.setdefault(to, []).extend(rs)
        if B is not None:
            gg = mkand(g, neg(B))
            cs = mkor(*[subst(c, {s.k: z64(X)}) for c, to in s.others])
            SCHEMA[xn].append((tuple(ps), subst(mkor(neg(mkand(g, neg(B))), cs), pm)))
            for to, rs in s.last(lv, gg, z64(X), mkor(*[c for c, to in s.others]), None, gg).items(): out.setdefault(to, []).extend(rs)
        return out
    def last(s, lv, g, K, mainc, fams, gstr):
        """the iteration that leaves"""
        e = s.e
        m = {v: subst(t, {s.k: K}) for v, t in s.sol.items()}; m[s.k] = K; m[s.k0] = K
        vals = {n: vsubst(x, m) for n, x in lv.items()}
        kx = trunc(K, s.w) if getattr(s, "w", 64) < 64 and urange(K)[1] <= mask(s.w) else K
        e.iters.append(kx)
        gb = g
        extra = frozenset()
        if mainc is not None:
            x = subst(mainc, {s.k: K})
            extra = conj(x) - conj(g)
            gb = mkand(g, x)
        sn = s.snap(); rl = len(s.fr.rets)
        ph = e.ph; e.ph = ph + ("L" if fams is None and s.K is K else "E")
        ex, la = s.body(gb, vals, "leave")
        e.ph = ph
        extra = extra | (frozenset(s.assumed) - conj(g))
        e.iters.pop()
        if extra:
            for o in list(e.objs.values()):
                base = sn[0].get(o)
                if base is None: continue
                nd = o.head; l = []
                while nd is not base: l.append(nd.e); nd = nd.prev
                if l:
                    o.head = base
                    for x in reversed(l):
                        x2 = E(x.k, gsub(x.g, extra), x.off, x.n, x.v, x.vars, x.loc, x.x, x.tag); e.append(o, x2)
            for ev in e.events[sn[1]:]: ev.g = gsub(ev.g, extra)
            s.fr.rets[rl:] = [(gsub(a, extra), b) for a, b in s.fr.rets[rl:]]
        return {to: [(gsub(a, extra), pv) for a, pv in rs] for to, rs in ex.items()}
    def esub(s, x, m):
        v = x.v
        if x.k == "W": v = vsubst(v, m)
        elif x.k == "F": v = subst(v, m)
        elif x.k == "C": v = ("lazy", v, m)
        return E(x.k, subst(x.g, m), subst(x.off, m), subst(x.n, m) if isinstance(x.n, T) else x.n, v, tuple((a, subst(b, m)) for a, b in x.vars), x.loc, x.x, x.tag)
    def gstrip(s, x, g): return E(x.k, strip(x.g, g), x.off, x.n, x.v, x.vars, x.loc, x.x, x.tag)
    def state(s, fams, k, kb, latl, g):
        """state of all objects at the start of iteration k (families over earlier iterations)"""
        s.statehead = {}
        s.apply({o: [s.gstrip(x, mkand(g)) for x in l] for o, l in fams.items()}, k, g, lambda t: subst(t, {s.k: k}), prior=True, lat=latl)
        for o in s.pre: s.statehead[o] = o.head
    def apply(s, fams, N, g, cl, prior=False, lat=()):
        """append the effect of iterations [0,N): families, then the closed forms of the cells"""
        e = s.e; kb = s.kb
        cellobjs = {}
        for c in s.cells.values(): cellobjs.setdefault(c["obj"], []).append(c)
        j = kb
        if prior:
            j = var(kb.args[0] + "'", kb.w); s.rng_(j, ult(z64(j), N)); VR[j] = VR.get(kb, (0, mask(kb.w))); BOUND[j] = p_add(ipoly(N), p_const(-1))
        for o, l in fams.items():
            if o in s.anna:
                e.append(o, E("S", g, c64(0), o.size, None, ((j, N),), "invariant", ("arr", s.anna[o], (N,) + tuple(e.iters)), s.tag)); continue
            if o in s.perms:
                lo, ln, sz = s.perms[o]
                nm = "perm:%s:%s:%s" % (s.tag, o.name, "k" if prior else N.id)
                its = tuple(e.iters) + ((N,) if prior else ())
                cnt = udiv(ln, c64(sz)) if sz > 1 else ln
                hi = urange(cnt)[1]
                VRN[nm] = (0, max(0, hi - 1))
                if not prior: PERM[nm] = cnt
                ps = tuple(var("pq%d" % q, 64 if q == 0 else its[q - 1].w) for q in range(1 + len(its)))
                SCHEMA[nm] = [(ps, imp(ult(ps[0], cnt), ult(mk("uf", (nm,) + ps, 64), cnt)))]
                e.append(o, E("P", g, lo, ln, None, (), "permutation", (lo, sz, nm, its), s.tag))
                continue
            if o in s.hist:
                x = s.hist[o]; m = {kb: j}
                gx = mkand(*(conj(x.g) - conj(g) - frozenset(lat)))
                e.append(o, E("A", mkand(g, subst(gx, m) if prior else gx), subst(x.off, m), x.n, subst(x.v, m), ((j, N),), x.loc, s.srange_(x, N), s.tag))
                continue
            for x in l:
                if not prior: x = s.reindex(x, N)
                off = x.off
                gx = mkand(*(conj(x.g) - frozenset(lat))) if lat else x.g
                dep = kb in fv(off)
                iscell = False
                for c in cellobjs.get(o, ()):
                    d = cen(p_add(mpoly(off), mpoly(c["off"]), -1))
                    ln = x.n if not isinstance(x.n, T) else (cv(x.n) if isc(x.n) else None)
                    if p_isconst(d) and ln is not None and 0 <= p_cval(d) and p_cval(d) + ln <= c["n"] and not x.vars: iscell = True
                if iscell: continue
                m = {kb: j}
                if x.k in ("P", "A") or (x.k == "C" and isinstance(x.v, tuple) and len(x.v) == 3):
                    # copy found in the discovery pass: content not needed precisely
                    x = E("S", x.g, x.off, x.n, None, x.vars, x.loc, None, x.tag)
                ng = mkand(g, subst(gx, m) if prior else gx)
                vars_ = ((j, N),) + x.vars
                if x.k == "S":
                    e.append(o, E("S", ng, subst(off, m), x.n, None, vars_, x.loc, s.srange_(x, N), tag=s.tag)); continue
                v = x.v
                if prior and x.k in ("W",): v = vsubst(v, m)
                elif prior and x.k == "F": v = subst(v, m)
                if not dep:
                    # same place every time: the last iteration wins if it always writes
                    if not x.vars and gx is TRUE or (x.vars and s.last_full(x)):
                        last = {kb: trunc(sub(N, c64(1)), kb.w) if kb.w < 64 else sub(N, c64(1))}
                        y = E(x.k, mkand(g, neg(eq(N, c64(0))), subst(x.g, last)), subst(off, last), subst(x.n, last) if isinstance(x.n, T) else x.n, None, tuple((a, subst(b, last)) for a, b in x.vars), x.loc, None, s.tag)
                        if x.k == "W": y.v = vsubst(x.v, last)
                        elif x.k == "F": y.v = subst(x.v, last)
                        else: y = E("S", ng, off, x.n, None, vars_, x.loc, None, tag=s.tag)
                        e.append(o, y)
                    elif x.k == "W" and not x.vars and isinstance(v, T) and not isinstance(x.n, T) and not {kb, j} & fv(v):
                        e.append(o, E("W", ng, off, x.n, v, vars_, x.loc, None, tag=s.tag))
                    else:
                        e.append(o, E("S", ng, off, x.n, None, vars_, x.loc, s.srange_(x, N), tag=s.tag))
                    continue
                if not s.injective(x): 
                    y = E("S", ng, subst(off, m), x.n, None, vars_, x.loc, s.srange_(x, N), tag=s.tag)
                    if x.k == "W" and not x.vars and isinstance(v, T) and not isinstance(x.n, T):
                        ca = compact_atom(y.off, j)
                        if ca and ca[1] >= x.n:
                            cond = subst(ca[0].args[2], {ca[0].args[0]: z64(j)})
                            if e.prove(mkand(ng, ult(z64(j), z64(N))), cond): y.v = subst(v, m) if not prior else v
                    e.append(o, y); continue
                e.append(o, E(x.k, ng, subst(off, m), subst(x.n, m) if isinstance(x.n, T) else x.n, v if not (prior and x.k == "C") else None, vars_, x.loc, None, s.tag))
        for c in s.cells.values():
            v = cl(s.sol[c["var"]])
            e.append(c["obj"], E("W", g, c["off"], c["n"], v if not c.get("ptr") else Ptr(e.heap, v), loc="cell", tag=s.tag))
    def reindex(s, x, N):
        """a family that depends on the index only through a permutation of its whole range"""
        kb = s.kb
        if x.k != "W" or x.vars or not isinstance(x.v, T): return x
        for t in subterms(x.off):
            if t.op == "uf" and t.args[0] in PERM and len(t.args) == 2 and kb in fv(t) and mpoly(z64(t.args[1])) == p_atom(kb) and canon64(z64(PERM[t.args[0]])) is canon64(z64(N)):
                m = {t: z64(kb)}
                def app(y): return subst(y, m)
                # the index may not occur otherwise
                d = var("noidx", kb.w)
                def clean(y): return kb not in fv(subst(y, {t: c64(0)}))
                if clean(x.off) and clean(x.v) and clean(x.g):
                    return E("W", app(x.g), canon64(app(x.off)), x.n, app(x.v), (), x.loc, x.x, x.tag)
        return x
    def permuted(s, o, l):
        """the iteration only exchanges elements of the object: (element size)"""
        if all(x.k == "P" for x in l):
            z = {x.x[1] for x in l}
            if len(z) == 1 and l and all(x.off is l[0].off and x.n is l[0].n and not s.varies(x.off) and not s.varies(x.n) for x in l): return (l[0].off, l[0].n, z.pop())
            return None
        if len(l) != 2 or any(x.k != "W" or x.vars or not isinstance(x.v, T) for x in l) or l[0].g is not l[1].g or l[0].n != l[1].n: return None
        a, b = l; sz = a.n
        def carried(x, y):
            v = x.v
            return v.op == "uf" and v.args[0] == "carry:%s:%s" % (s.tag, o.name) and mpoly(v.args[1]) == mpoly(y.off)
        if not (carried(a, b) and carried(b, a)): return None
        if sz > 1 and any(c % sz for x in l for c in mpoly(x.off).values()): return None
        if urange(o.size)[1] >= (1 << 40): return None
        return (c64(0), o.size, sz)
    def counters(s, o, l):
        """the iteration only adds to one element of the object that was not touched otherwise"""
        if len(l) != 1 or l[0].k != "W" or l[0].vars or not isinstance(l[0].v, T) or not isinstance(l[0].n, int) or l[0].n not in (1, 2, 4, 8) or any(q % l[0].n for q in mpoly(l[0].off).values()) or any(c["obj"] is o for c in s.cells.values()): return None
        x = l[0]
        cs = [t for t in subterms(x.v) if t.op == "uf" and t.args[0] == "carry:%s:%s" % (s.tag, o.name)]
        if len(cs) != 1 or cs[0].w != 8 * x.n or mpoly(cs[0].args[1]) != mpoly(x.off): return None
        cv_ = var("cnt!v", x.v.w); d = delta(cv_, subst(x.v, {cs[0]: cv_}))
        if d is None or cv_ in fv(d) or any(cs[0] is t for y in (x.g, x.off) for t in subterms(y)): return None
        return E("W", strip(x.g, s.g), x.off, x.n, d, (), x.loc)
    def srange_(s, x, N):
        """byte range touched by a scatter entry when its offset is monotone in the loop index"""
        try:
            lo, hi = p_range(mpoly(x.off))
            ln = ipoly(x.n) if isinstance(x.n, T) else p_const(x.n)
            return (p_const(lo), p_const(hi + p_range(ln)[1]))
        except Exception: return None
    def last_full(s, x): return False
    def injective(s, x):
        """different iterations write different places"""
        kb = s.kb
        eo = mpoly(x.off)
        c = {}
        for m, q in eo.items():
            if kb in m:
                if m.count(kb) > 1: return False
                l = list(m); l.remove(kb); c[tuple(l)] = q
            elif any(kb in fv(a) for a in m): return False
        if not c: return False
        if any(kb in fv(a) for m in c for a in m): return False
        el = ipoly(x.n) if isinstance(x.n, T) else p_const(x.n)
        # extent of the inner family
        ext = el
        for v, K in x.vars:
            cv_ = coef_of(eo, v)
            if not cv_: continue
            if any(kb in fv(a) for m in cv_ for a in m): return False
            if p_range(cv_)[0] < 0: return False
            ext = p_add(ext, p_mul(cv_, p_add(ipoly(K), p_const(-1))))
        if s.e.nonneg(p_add(c, ext, -1)) or s.e.nonneg(p_add(p_scale(c, -1), ext, -1)): return True
        # column-wise: the outer index has the small stride
        if len(x.vars) == 1:
            v, K = x.vars[0]; cv_ = coef_of(eo, v)
            inner = p_add(el, p_mul(c, p_add(ipoly(s.K), p_const(-1)))) if s.K is not None else None
            if inner is not None and s.e.nonneg(p_add(c, el, -1)) and s.e.nonneg(p_add(cv_, inner, -1)): return True
        return False

def lits(c):
    r = set()
    for x in conj(c):
        r.add(x)
        if x.op == "or":
            for y in x.args: r |= set(conj(y))
    return sorted(r, key=lambda t: t.id)
def lat_strip(l): return conj(l)
def gsub(g, extra): return mkand(*(conj(g) - extra)) if extra else g
def vext(v, lo, n): return extract(v, lo, n)
def poff(p):
    if isinstance(p, PSel): return ite(p.c, poff(p.a), poff(p.b))
    return p.off
def lin64(t, signed):
    """value of t as integer polynomial in k allowing truncated loop counters (checked afterwards)"""
    if t.op == "c": return p_const(sv(t) if signed else cv(t))
    if t.op in ("zext", "sext"): return lin64(t.args[0], t.op == "sext")
    if t.op == "ext" and t.args[1] == 0: return lin64(t.args[0], signed)
    if t.op == "add":
        a, b = lin64(t.args[0], signed), (p_const(sv(t.args[1])) if isc(t.args[1]) else lin64(t.args[1], signed))
        return p_add(a, b)
    if t.op == "sub": return p_add(lin64(t.args[0], signed), lin64(t.args[1], signed), -1)
    if t.op == "mul":
        b = p_const(sv(t.args[1])) if isc(t.args[1]) else lin64(t.args[1], signed)
        return p_mul(lin64(t.args[0], signed), b)
    return p_atom(t)
def delta(v, nx):
    """nx - v when it does not mention v"""
    if nx is v: return const(0, v.w)
    if nx.op == "ite":
        if v in fv(nx.args[0]): return None
        a, b = delta(v, nx.args[1]), delta(v, nx.args[2])
        if a is None or b is None: return None
        if isc(a) and isc(b) and cv(a) == 1 and cv(b) == 0: return b2i(nx.args[0], v.w)
        if isc(a) and isc(b) and cv(a) == 0 and cv(b) == 1: return b2i(neg(nx.args[0]), v.w)
        return ite(nx.args[0], a, b)
    if nx.op in ("add", "sub"):
        x, y = nx.args
        if nx.op == "add":
            if v in fv(y) and v in fv(x): return None
            if v in fv(x):
                d = delta(v, x); return None if d is None else add(d, y)
            d = delta(v, y); return None if d is None else add(d, x)
        if v in fv(y): return None
        d = delta(v, x); return None if d is None else sub(d, y)
    return None
def under(g, t):
    """replace ite conditions decided by the literals of g"""
    cs = conj(g)
    if not cs or not isinstance(t, T): return t
    m = {}
    for c in cs:
        if c.op == "not": m[c.args[0]] = FALSE
        else: m[c] = TRUE
    m = {a: b for a, b in m.items() if a.op != "v"}
    if not m: return t
    return subst(t, m)
def under_ite(t, V, pv0): return subst(t, {V: pv0}) if t is not V else pv0
