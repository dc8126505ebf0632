"""Verification driver: extracts LLVM IR from the current sources, runs the symbolic executor on a
function under a contract and records every obligation with its outcome."""
import os, subprocess, sys, time, traceback
sys.setrecursionlimit(200000)
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import z3
import ir, engine, ext, term, alg, loops
from engine import *
REPO = os.environ.get("VF_REPO", "/repo")
INC = ["-I%s/src" % REPO, "-I%s/src/noise_xk/include" % REPO, "-I%s/src/noise_xk/include/karmel" % REPO,
       "-I%s/src/noise_xk/include/karmel/minimal" % REPO]
UNITS = sorted(f[:-2] for f in os.listdir(os.path.join(os.environ.get("VF_REPO", "/repo"), "src")) if f.endswith(".c"))
L = alg.L

def extract_ir(outdir, units):
    """clang -O0 bitcode of the units, register promotion and loop normalisation only"""
    jobs = []
    for u in units:
        src = "%s/src/%s.c" % (REPO, u)
        ll = os.path.join(outdir, u + ".ll"); opt = os.path.join(outdir, u + ".opt.ll")
        cmd = ("clang -O0 -Xclang -disable-O0-optnone -g -S -emit-llvm -w -DWITH_SODIUM %s %s -o %s && "
               "opt -passes=mem2reg,loop-simplify,lcssa -S %s -o %s") % (" ".join(INC), src, ll, ll, opt)
        jobs.append((u, opt, subprocess.Popen(["sh", "-c", cmd], stderr=subprocess.PIPE)))
    mods = []
    for u, opt, j in jobs:
        err = j.communicate()[1]
        if j.returncode: raise RuntimeError("extraction of %s.c failed: %s" % (u, err.decode()[-1500:]))
        mods.append(ir.parse(open(opt).read()))
    return mods

def reset():
    VR.clear(); term.VRN.clear(); term.CMAX.clear()
    for m in (alg, engine, loops, term):
        for n in ("_ip", "_mp", "_sp", "_ur", "_nn", "BOUND", "SCHEMA", "PERM", "_at"):
            d = getattr(m, n, None)
            if isinstance(d, dict): d.clear()
    del engine.FACTS[:]

class Res:
    __slots__ = ("name", "kind", "ok", "back", "info", "refuted")
    def __init__(s, name, kind, ok, back, info="", refuted=False):
        s.name, s.kind, s.ok, s.back, s.info, s.refuted = name, kind, ok, back, info, refuted

OPAQUE = ("scat", "opq", "carry", "pend", "undef", "hsapp", "blk")
def opaque(t):
    for x in subterms(t):
        if x.op in term.BIND: return x
        if x.op == "slice" and x.args[0].startswith("mem:"): return x
        if x.op in ("uf", "v") and isinstance(x.args[0], str) and x.args[0].split(":")[0].rstrip("!0123456789") in OPAQUE: return x
        if x.op in ("uf", "v") and isinstance(x.args[0], str) and x.args[0].startswith(OPAQUE): return x
    return None

def behind(e, t):
    """a value left open in what is known about the rounds of a loop whose way of ending occurs in t"""
    tags = {x.args[0].split(":", 1)[1] for x in subterms(t) if x.op == "uf" and isinstance(x.args[0], str) and x.args[0][:2] in ("B:", "X:")}
    if not tags: return None
    for (v, K, cond, fact, nm) in e.qf:
        if not any(nm.startswith(y.split(".")[0]) or y.startswith(nm.rsplit("/", 1)[0]) for y in tags): continue
        for x in subterms(fact):
            if x.op in ("uf", "v", "slice") and isinstance(x.args[0], str) and x.args[0].startswith(OPAQUE + ("mem:",)): return x
    return None
def shape(b):
    """a test on the form of the executed text: if it fails, the statement is undecided, not refuted"""
    return TRUE if b else uf("opq:shape", 0)
class Missing(Exception): pass

class Ctx:
    def __init__(s, prop, mods, tier="quick", only=None):
        s.prop = prop; s.mods = mods; s.tier = tier; s.res = []; s.fns = set(); s.zt = 0.0; s.zn = 0; s.unsup = []
        s.loops = 0; s.assume = []; s.only = only; s.ctime = []; s.jobs = None
    def later(s, f):
        """run f now or, if the driver collects jobs, in a process of its own"""
        if s.jobs is None: f()
        else: s.jobs.append(f)
    def parallel(s, n):
        """run the collected jobs in n processes and gather the results"""
        jobs, s.jobs = s.jobs, None; run = {}; todo = list(range(len(jobs))); got = {}
        import pickle, select
        def start(k):
            r, w = os.pipe(); pid = os.fork()
            if pid: os.close(w); run[r] = (k, pid, []); return
            code = 0
            try:
                os.close(r); s.res = []; s.fns = set(); s.zt = 0.0; s.zn = 0; s.unsup = []; s.loops = 0; s.ctime = []; s.assume = []
                jobs[k]()
                d = pickle.dumps(([(x.name, x.kind, x.ok, x.back, x.info, x.refuted) for x in s.res], s.fns, s.zt, s.zn, s.unsup, s.loops, s.ctime, s.assume, set(ext.USED)))
                while d: d = d[os.write(w, d):]
            except BaseException: traceback.print_exc(); code = 1
            finally: os._exit(code)
        try:
            while todo or run:
                while todo and len(run) < n: start(todo.pop(0))
                for r in select.select(list(run), [], [])[0]:
                    b = os.read(r, 1 << 20)
                    if b: run[r][2].append(b); continue
                    k, pid, d = run.pop(r); os.close(r); st = os.waitpid(pid, 0)[1]
                    got[k] = pickle.loads(b"".join(d)) if st == 0 and d else None
        finally:
            for r, (k, pid, d) in run.items():
                try: os.kill(pid, 9); os.waitpid(pid, 0)
                except OSError: pass
            for k in range(len(jobs)):
                x = got.get(k)
                if x is None: s.unsup.append(("job %d" % k, "did not finish")); continue
                s.res += [Res(*y) for y in x[0]]; s.fns |= x[1]; s.zt += x[2]; s.zn += x[3]; s.unsup += x[4]; s.loops += x[5]; s.ctime += x[6]; s.assume += [y for y in x[7] if y not in s.assume]
                ext.USED.update(x[8])
    def case(s, name): return Case(s, name)
    def has(s, fn): return any(fn in m.funcs for m in s.mods)

class Case:
    """one symbolic run of real functions under stated preconditions"""
    def __init__(s, ctx, name):
        s.ctx = ctx; s.name = name
    def __enter__(s):
        reset(); s.t0 = time.time()
        s.e = Eng(s.ctx.mods, ext.EXT); engine.HEAP[0] = s.e.heap
        s.nobl = 0; s.cut = TRUE
        return s
    def __exit__(s, et, ev, tb):
        e = s.e
        for kind, loc, ok, g, goal in e.obl:
            ref = False
            if not ok and s.ctx.prop == "C24" and goal is not TRUE and (kind.startswith("bounds") or kind in ("nonnull", "const-write")):
                # memory safety is the property itself here: look for a countermodel
                f = mkand(g, neg(goal)); ref = opaque(f) is None and e.model(f, 10000)[1] == z3.sat
            s.ctx.res.append(Res("%s/%s@%s" % (s.name, kind, loc), "safety", bool(ok), "z3",
                                 "" if ok else "%s under %s" % (show(goal, 5), show(g, 4)[:300]), ref))
        s.ctx.fns |= set(e.inlined); s.ctx.zt += e.zt; s.ctx.zn += e.zn; s.ctx.loops += len(e.loopinfo)
        s.ctx.ctime.append((s.name, round(time.time() - s.t0, 2)))
        if et is None: return False
        if et is Missing: s.ctx.unsup.append((s.name, "missing: %s" % ev)); return True
        if issubclass(et, (Unsupported, AssertionError, KeyError, IndexError, TypeError, AttributeError, ValueError, RecursionError, z3.Z3Exception, NotImplementedError)):
            s.ctx.unsup.append((s.name, "%s: %s" % (et.__name__, str(ev)[:300]) + ("" if et is Unsupported else " " + "".join(traceback.format_tb(tb)[-2:])[-400:])))
            return True
        return False
    # ------------------------------------------------------------ inputs
    def v(s, name, w, lo=None, hi=None):
        if lo is not None and lo == hi: return const(lo, w)
        x = var(name, w)
        if lo is not None: VR[x] = (lo, hi)
        return x
    def mem(s, name, size=1 << 40): return Ptr(s.e.obj(name, size), c64(0))
    def put(s, p, off, v):
        s.e.quiet += 1; s.e.store(at(p, off), v, v.w // 8, TRUE, "pre"); s.e.quiet -= 1
    def scalar(s, name, nonzero=False):
        """32 byte buffer holding an arbitrary reduced scalar; returns (pointer, field value)"""
        p = s.mem(name, 32)
        v = uf("rnd:in:" + name, 256) if nonzero else senc(f_atom(mk("fval", (var("s_" + name, 256),), alg.FW)))
        s.put(p, 0, v)
        return p, fs(v)
    def element(s, name):
        """32 byte buffer holding an arbitrary valid group element; returns (pointer, discrete log)"""
        p = s.mem(name, 32)
        v = penc(f_atom(mk("fdlog", (var("e_" + name, 256),), alg.FW)))
        s.put(p, 0, v)
        return p, fp(v)
    # ------------------------------------------------------------ running
    def fn(s, name):
        if name not in s.e.funcs: raise Missing(name)
        return s.e.funcs[name][1]
    def call(s, name, *args, g=TRUE):
        f = s.fn(name); a = []
        if len(f.params) != len(args): raise Missing("%s has %d parameters" % (name, len(f.params)))
        for (n, t, _), x in zip(f.params, args):
            if isinstance(x, int): x = const(x, t.w)
            a.append(x)
        n0 = len(s.e.events)
        r, g1 = s.e.call(name, a, g)
        s.ret = r; s.gout = g1; s.evs = s.e.events[n0:]
        s.ctx.fns.add(name)
        return r
    def out(s, p, off=0, n=32, g=TRUE):
        off = c64(off) if isinstance(off, int) else off
        return s.e.bytesof(s.e.read(p.obj, add(p.off, off), n, g))
    def pieces(s, p, off, n, g=TRUE):
        n = c64(n) if isinstance(n, int) else zext(n, 64)
        off = c64(off) if isinstance(off, int) else zext(off, 64)
        return pieces_term(s.e.content(p.obj, add(p.off, off), n, g))
    def plen(s, d):
        """number of bytes of a byte string"""
        n = c64(0)
        for x in d.args:
            if x.op == "famp": return None
            n = add(n, c64(x.args[0].w // 8) if x.op == "bytes" else x.args[1] if x.op == "fill" else x.args[2])
        return n
    def byteat(s, d, k, g):
        """byte k of a byte string; slices of an object are read from the object as it was at that point"""
        at = c64(0); out = []
        for x in d.args:
            j = sub(k, at)
            if x.op == "bytes": n = c64(x.args[0].w // 8); v = trunc(lshr(x.args[0], mul(zext(j, x.args[0].w) if x.args[0].w > 64 else trunc(j, x.args[0].w), const(8, x.args[0].w))), 8)
            elif x.op == "fill": n = x.args[1]; v = const(x.args[0], 8) if isinstance(x.args[0], int) else x.args[0]
            elif x.op == "slice":
                n = x.args[2]; nd = [q for nm, q in s.e.memref.values() if nm == x.args[0]]
                h = mkand(g, ult(j, n))
                v = s.e.bytesof(s.e.rd(nd[0], canon64(add(x.args[1], j)), 1, h, 0)) if nd else init(x.args[0], canon64(add(x.args[1], j)), 8)
            else: return None
            out.append((ult(j, n), v)); at = add(at, n)
        r = out[-1][1]
        for c, v in reversed(out[:-1]): r = ite(c, v, r)
        return r
    def samebytes(s, name, g, d, p, off, n, inst=()):
        """obligation: the byte string is what the memory holds at the end"""
        if d is s.pieces(p, off, n, g): return s.rec(name, True, "rewriting")
        if s.plen(d) is None: return s.rec(name, False, "z3", "not expressible: %s" % show(d, 5)[:500])
        k = s.v("byte", 64, 0, (1 << 30)); h = mkand(g, ult(k, n))
        s.same("%s (length)" % name, g, s.plen(d), n, inst)
        return s.same(name, h, s.byteat(d, k, h), s.out(p, canon64(add(off, k)), 1, h), tuple(inst) + (k,))
    # ------------------------------------------------------------ goals
    def rec(s, name, ok, back, info="", refuted=False, kind="post"):
        s.ctx.res.append(Res("%s/%s" % (s.name, name), kind, ok, back, info, refuted)); s.nobl += 1
        return ok
    def prove(s, name, g, goal, inst=(), tmo=20000, kind="post"):
        """obligation: g implies goal"""
        e = s.e
        g = selfsimp(g)
        if goal is TRUE or g is FALSE: return s.rec(name, True, "rewriting", kind=kind)
        if conj(goal) <= conj(g) and goal is not FALSE: return s.rec(name, True, "rewriting", kind=kind)
        goal2 = under(g, goal)
        if goal2 is TRUE: return s.rec(name, True, "rewriting", kind=kind)
        f = mkand(g, neg(goal2))
        if f is FALSE: return s.rec(name, True, "rewriting", kind=kind)
        m, r = e.model(f, tmo, inst)
        if r == z3.unsat: return s.rec(name, True, "z3", kind=kind)
        if r == z3.unknown:
            # fewer hypotheses are often easier
            for k in (30, 50, 70, 150):
                if e.model(mkand(e.slim(g, k), neg(goal2)), 5000, inst)[1] == z3.unsat: return s.rec(name, True, "z3", kind=kind)
        # case split on the indicators inside field expressions
        cs = [t.args[0] for t in subterms(f) if t.op == "find" and not any(v.args[0].startswith("b!") for v in fv(t))][:3]
        for c in cs:
            if all(split_ok(e, mkand(f, x), inst, tmo) for x in (c, neg(c))): return s.rec(name, True, "z3", kind=kind)
        o = opaque(f)
        if o is None: o = behind(e, f)
        info = "goal %s\nunder %s" % (show(goal2, 9)[:1500], show(g, 6)[:900])
        if r == z3.sat:
            vals = ", ".join(sorted("%s=%s" % (d.name(), str(m[d])[:40]) for d in m.decls() if d.arity() == 0))[:800]
            info += "\ncountermodel " + vals
        else: info += "\nz3: %s" % r
        return s.rec(name, False, "z3", info, refuted=(r == z3.sat and o is None), kind=kind)
    def reach(s, name, g, inst=()):
        """vacuity guard: the situation a contract speaks about exists"""
        m, r = s.e.model(g, 20000, inst)
        ok = r != z3.unsat and g is not FALSE
        return s.rec(name + " (reachable)", ok, "z3", "" if ok else "unreachable: %s" % show(g, 6)[:800], refuted=not ok, kind="vacuity")
    def same(s, name, g, a, b, inst=(), kind="post"):
        """obligation: under g the two values are equal"""
        ok = s._same(g, a, b, inst, 0)
        if ok is True: return s.rec(name, True, s._back, kind=kind)
        info, ref = ok
        return s.rec(name, False, "z3", info, refuted=ref, kind=kind)
    def _same(s, g, a, b, inst, d):
        s._back = "rewriting"
        if g is FALSE: return True
        a, b = under(g, a), under(g, b)
        if a is b: return True
        for x in (a, b):
            if x.op == "ite" and d < 8:
                c = x.args[0]
                l = s._same(mkand(g, c), a, b, inst, d + 1)
                if l is not True: return l
                return s._same(mkand(g, neg(c)), a, b, inst, d + 1)
        info = "%s\n!= %s\nunder %s" % (show(a, 12)[:1500], show(b, 12)[:1500], show(g, 6)[:900])
        if a.w == 256 and isgrp(a) and isgrp(b): goal = fzero(f_add(fp(a), fp(b), -1))
        elif a.w == 256 and issc(a) and issc(b): goal = fzero(f_add(fs(a), fs(b), -1))
        elif a.w == alg.FW: goal = fzero(f_add(FPof(a), FPof(b), -1))
        elif a.w < 0:
            m, r = s.e.model(g, 10000, inst)
            if r == z3.unsat: s._back = "z3"; return True
            return info, (r == z3.sat and opaque(a) is None and opaque(b) is None and opaque(g) is None and behind(s.e, g) is None)
        else: goal = eq(a, b)
        if goal is TRUE: return True
        f = mkand(g, neg(goal))
        m, r = s.e.model(f, 20000, inst)
        s._back = "z3"
        if r == z3.unsat: return True
        return info + "\nz3: %s" % r, (r == z3.sat and opaque(f) is None and opaque(a) is None and opaque(b) is None and behind(s.e, f) is None)
    def ok(s): return mkand(s.gout, eq(s.ret, const(0, s.ret.w)))
    def bad(s): return mkand(s.gout, neg(eq(s.ret, const(0, s.ret.w))))
    def writes(s, p):
        """write log of an object, oldest first (excluding preset contents)"""
        o = p.obj if isinstance(p, Ptr) else p
        l = []; nd = o.head
        while nd.e is not None: l.append(nd.e); nd = nd.prev
        return [x for x in reversed(l) if x.loc != "pre"]
    def untouched(s, name, p, g):
        """obligation: no write to the object happens under g"""
        gs = [x.g for x in s.writes(p)]
        return s.prove(name, g, neg(mkor(*[exq(x) for x in s.writes(p)]))) if gs else s.rec(name, True, "rewriting")
    def frame(s, name, p, lo, hi, g=TRUE, inst=()):
        """obligation: every write to the object lies in [lo,hi)"""
        okk = True
        for i, x in enumerate(s.writes(p)):
            n = x.n if isinstance(x.n, T) else c64(x.n)
            o = zext(x.off, 64) if x.off.w < 64 else x.off
            gx = mkand(g, x.g, *[mkand(ult(z64(v), z64(K)) if K is not None else TRUE) for v, K in vrs(x)])
            goal = mkand(ule(c64(lo) if isinstance(lo, int) else lo, o), ule(add(o, zext(n, 64)), c64(hi) if isinstance(hi, int) else hi))
            okk &= s.prove("%s#%d" % (name, i), gx, goal, inst)
        return okk
def vrs(x): return [(v, None) for v in x.vars] if x.vars and not isinstance(x.vars[0], tuple) else list(x.vars)
def exq(x): return x.g
def at(p, off): return Ptr(p.obj, add(p.off, c64(off) if isinstance(off, int) else zext(off, 64)))
def isgrp(t): return t.op == "penc" or (isc(t) and cv(t) == 0) or (t.op == "uf" and t.args[0] == "r255map")
def issc(t): return ext.canonical(t)
def under(g, t):
    """rewrite t with the literals of g"""
    m = {}
    for c in conj(g):
        if c.op == "not": m[c.args[0]] = FALSE
        elif c is not TRUE: m[c] = TRUE
        if c.op == "eq" and isc(c.args[1]) and not isc(c.args[0]): m[c.args[0]] = c.args[1]
        if c.op == "eq" and isc(c.args[0]) and not isc(c.args[1]): m[c.args[1]] = c.args[0]
    if not m: return t
    return rewrite(t, m, {})
def rewrite(t, m, memo):
    if not isinstance(t, T): return t
    if t in m: return m[t]
    if t in memo: return memo[t]
    if t.op in ("c", "v", "init") and t.op != "init": return t
    ch = False; a = []
    for x in t.args:
        y = rewrite(x, m, memo) if isinstance(x, T) else (tuple(rewrite(q, m, memo) for q in x) if isinstance(x, tuple) else x)
        if y is not x: ch = True
        a.append(y)
    r = rebuild(t.op, tuple(a), t.w) if ch and a != list(t.args) else t
    memo[t] = r
    return r
def split_ok(e, f, inst, tmo):
    f = selfsimp(f)
    return f is FALSE or e.model(f, tmo, inst)[1] == z3.unsat
def selfsimp(g):
    """rewrite the literals of a guard with its simple literals"""
    ls = conj(g)
    simple = [l for l in ls if (l.args[0] if l.op == "not" else l).op in ("pvalid", "uf", "v")]
    if not simple or len(ls) == len(simple): return g
    m = {(l.args[0] if l.op == "not" else l): boolc(l.op != "not") for l in simple}
    return mkand(*simple, *[rewrite(l, m, {}) for l in ls if l not in simple])
def bytestr(b): return const(int.from_bytes(b, "little"), 8 * len(b))
def P(*xs):
    """piece term from bytes, byte valued terms and (object name, offset, length) slices"""
    l = []
    for x in xs:
        if isinstance(x, bytes):
            if x: l.append(("b", bytestr(x)))
        elif isinstance(x, T): l.append(("b", x))
        elif isinstance(x, Ptr): l.append(("b", x))
        else:
            n, o, ln = x
            o = c64(o) if isinstance(o, int) else zext(o, 64)
            l.append(("sl", n, mpoly(o), ipoly(ln) if isinstance(ln, T) else p_const(ln)))
    return pieces_term(l)
def H(alg_, *xs): return uf("H:" + alg_, 512 if alg_ == "sha512" else 256, P(*xs))
def be16(t): return cat([extract(t, 8, 8), extract(t, 0, 8)])
