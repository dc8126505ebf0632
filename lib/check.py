"""check.py PROPERTY: discharge the contracts of a property on the current sources, run the concrete
battery on the compiled sources, write the evidence and report."""
import importlib, json, os, shutil, signal, subprocess, sys, tempfile, time
HERE = os.path.dirname(os.path.abspath(__file__)); ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
REG = {"C01": ("oprf", "oprf"), "C02": ("oprf", "oprf"), "C03": ("oprf", "oprf"), "C27": ("oprf", "oprf"),
       "C04": ("toprf", "toprf"), "C05": ("toprf", "toprf"), "C06": ("toprf", "toprf"), "C07": ("toprf", "toprf"), "C11": ("toprf", "toprf"),
       "C08": ("dkg", "dkg"), "C09": ("dkg", "dkg"), "C10": ("dkg", "dkg")}
for _p in ("C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26"): REG[_p] = ("tpdkg", "tpdkg")
ASSUME = ["clang -O0 IR of the sources has the behaviour of the compiled library (compiler correctness, same preprocessor configuration)",
          "symbolic executor, loop summariser and rewriting rules in /verif/lib are trusted; z3 is trusted",
          "group and scalar arithmetic, hashing and randomness of libsodium follow the assumed contracts listed in trusted_base",
          "integer arithmetic is machine arithmetic of the C types; scalars are exact integers modulo the group order",
          "pointer arguments refer to disjoint buffers of the documented sizes"]
class TimeUp(Exception): pass
def main():
    prop = sys.argv[1]; tier = os.environ.get("VERIF_TIER", "quick"); seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True); os.makedirs(os.path.join(ROOT, "replay"), exist_ok=True)
    evp = os.path.join(ROOT, "evidence", prop + ".json")
    if os.path.exists(evp): os.unlink(evp)
    tmp = tempfile.mkdtemp(prefix="vf-%s-" % prop)
    try: code = run(prop, tier, seed, tmp, evp, t0)
    finally: shutil.rmtree(tmp, ignore_errors=True)
    sys.stdout.flush()
    os._exit(code)
def run(prop, tier, seed, tmp, evp, t0):
    spec, bat = REG[prop]
    bout = os.path.join(tmp, "battery.json")
    bp = subprocess.Popen([sys.executable.replace("python3-vt", "python3"), os.path.join(ROOT, "battery", "run.py"), prop, str(seed), tier, tmp, bout],
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    import core
    try: mods = core.extract_ir(tmp, core.UNITS)
    except RuntimeError as e:
        bp.kill(); bp.wait()
        print("ERROR: %s" % e); return 2
    ctx = core.Ctx(prop, mods, tier)
    budget = 420 if tier == "quick" else 780
    def up(*a): raise TimeUp()
    signal.signal(signal.SIGALRM, up); signal.alarm(budget)
    try:
        ctx.jobs = []; getattr(importlib.import_module("specs." + spec), prop)(ctx); ctx.parallel(int(os.environ.get("VF_JOBS", "4")))
    except TimeUp: ctx.unsup.append(("all", "time budget of %d s used up" % budget))
    signal.alarm(0)
    tp = time.time() - t0
    try: log = bp.communicate(timeout=max(60, 850 - (time.time() - t0)))[0].decode(errors="replace")
    except subprocess.TimeoutExpired:
        bp.kill(); log = bp.communicate()[0].decode(errors="replace") + "\nbattery timed out"
    try: b = json.load(open(bout))
    except Exception: b = {"status": "error", "log": log[-3000:], "evaluations": 0, "distinct": 0, "samples": [], "failures": []}
    bad = [r for r in ctx.res if not r.ok]
    ref = [r for r in bad if r.refuted and (r.kind != "safety" or prop == "C24")]
    rep = None; code = 0; line = None
    if b["failures"]:
        rep = os.path.join(ROOT, "replay", prop + "-concrete.json")
        json.dump({"property": prop, "seed": seed, "tier": tier, "failures": b["failures"], "rerun": "VERIF_SEED=%d VERIF_TIER=%s python3 battery/run.py %s (builds /repo/src, prints the failing case)" % (seed, tier, prop),
                   "failed_obligations": [{"name": r.name, "verifier": r.info} for r in bad[:20]]}, open(rep, "w"), indent=1)
        line = "VIOLATION property=%s replay=%s" % (prop, rep); code = 1
    elif ref:
        rep = os.path.join(ROOT, "replay", prop + "-obligation.json")
        json.dump({"property": prop, "failed_obligations": [{"name": r.name, "kind": r.kind, "back_end": r.back, "verifier": r.info} for r in ref[:20]],
                   "battery": b["status"], "battery_evaluations": b.get("evaluations", 0), "battery_log": "" if b["status"] == "ok" else (b.get("log") or log)[-2000:],
                   "note": "obligation discharged on the unchanged tree, refuted here; " + ("no failing input was found by the concrete battery" if b["status"] == "ok" else "the concrete battery stopped with an error, so no failing input was searched for")}, open(rep, "w"), indent=1)
        line = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rep); code = 1
    elif b["status"] != "ok":
        print("ERROR: battery: %s" % (b.get("log") or log)[-2000:]); code = 2
    posts = [r for r in ctx.res]
    proved = not bad and not ctx.unsup
    nz = sum(1 for r in ctx.res if r.kind != "safety")
    if proved and nz == 0 and spec != "none": print("ERROR: no obligation was generated"); code = code or 2
    backs = {}
    for r in ctx.res:
        if r.ok: backs[r.back] = backs.get(r.back, 0) + 1
    trusted = ["%s: %s" % (n, core.ext.DOC[n]) for n in sorted(core.ext.USED)] + ["engine: /verif/lib (symbolic execution, loop summaries, field normal forms)", "z3 %s" % core.z3.get_version_string()]
    part = getattr(importlib.import_module("specs." + spec), "BOUNDED", {}).get(prop)
    cov = {"obligations": len(ctx.res) + len(ctx.unsup), "discharged": sum(1 for r in ctx.res if r.ok), "checker_cmd": "python3-vt lib/check.py %s" % prop,
           "trusted_base": trusted + ctx.assume, "functions_under_contract": sorted(f for f in ctx.fns if not f.startswith("llvm")),
           "discharged_by": backs, "solver_queries": ctx.zn, "solver_s": round(ctx.zt, 2), "loops_summarised": ctx.loops,
           "contract_obligations": nz, "contracts": sorted({r.name for r in ctx.res if r.kind != "safety"})[:600], "safety_obligations": len(ctx.res) - nz, "case_times": ctx.ctime[:60],
           "evaluations": b.get("evaluations", 0), "distinct_nontrivial": b.get("distinct", 0),
           "rule": b.get("rule", "concrete battery on the compiled sources; a case is non-trivial if its inputs are distinct and the call reaches the library"), "samples": b.get("samples", [])[:6]}
    if part: cov["bounded_part"] = part
    if bad or ctx.unsup:
        cov["undischarged"] = [{"name": r.name, "info": r.info[:600]} for r in bad[:25]]; cov["not_generated"] = [list(u) for u in ctx.unsup[:25]]
        cov["explanation"] = "some obligations are undecided on this tree; for those this run only has the bounded concrete battery"
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "proof" if proved else "exploration", "coverage": cov, "assumptions": ASSUME + ([("bounded: " + part)] if part else []),
          "wall_s": round(time.time() - t0, 2), "violations": len(b["failures"]) + len(ref)}
    json.dump(ev, open(evp, "w"), indent=1)
    for k in known(prop): print(k)
    print("%s: %d/%d obligations discharged, %d contract obligations, %d functions, battery %s (%d evaluations), %.1f s (proof %.1f s)" % (prop, cov["discharged"], cov["obligations"], nz, len(cov["functions_under_contract"]), b["status"], cov["evaluations"], ev["wall_s"], tp))
    for u in ctx.unsup[:8]: print("  undecided: %s: %s" % (u[0], u[1][:300]))
    for r in bad[:8]: print("  failed: %s%s" % (r.name, " (refuted)" if r.refuted else ""))
    for f in b["failures"][:5]: print("  failing case: %s" % json.dumps(f)[:600])
    if line: print(line)
    return code
def known(prop):
    """known findings are listed in the committed file only"""
    r = []
    for l in open(os.path.join(ROOT, "KNOWN_FINDINGS.md")):
        if l.startswith("known: property=%s " % prop): r.append("KNOWN-FINDING: " + l[len("known: "):].strip())
    return r
if __name__ == "__main__": main()
