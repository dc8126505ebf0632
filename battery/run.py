"""run.py PROPERTY SEED TIER DIR OUT: build the sources and run the concrete battery of a property.
Stage 2 runs under the sanitizers in a child process; the case being run is noted in a file so that a
crash can be attributed."""
import importlib, json, os, random, subprocess, sys, tempfile, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
import real
GRP = {"C01": "b_core", "C02": "b_core", "C03": "b_core", "C27": "b_core", "C04": "b_core", "C05": "b_core", "C06": "b_core", "C07": "b_core", "C08": "b_core", "C09": "b_core", "C10": "b_core", "C11": "b_core"}
class Bat:
    def __init__(s, prop, seed, tier, so, cur, only=None):
        s.prop, s.seed, s.tier = prop, seed, tier
        s.R = real.Real(so); s.S = real.Sodium(); s.rng = random.Random("%s/%d" % (prop, seed))
        s.cur = cur; s.n = 0; s.seen = set(); s.samples = []; s.fail = []; s.t0 = time.time(); s.only = only
        s.budget = float(os.environ.get("VF_BUDGET", 60 if tier == "quick" else 240))
    def left(s): return s.budget - (time.time() - s.t0)
    def case(s, name, fn, /, **params):
        """run one concrete case; fn returns None or a description of what is wrong"""
        if s.only and s.only != name: return
        if len(s.fail) >= 3: return
        key = name + repr(sorted(params.items()))
        s.n += 1; s.seen.add(key)
        if len(s.samples) < 6 and (s.n % 7 == 1): s.samples.append({"case": name, **{k: (v.hex() if isinstance(v, bytes) else v) for k, v in params.items()}})
        with open(s.cur, "w") as f: f.write(json.dumps({"case": name, "params": {k: (v.hex()[:400] if isinstance(v, bytes) else str(v)[:400]) for k, v in params.items()}}))
        r = fn()
        if r: s.fail.append({"case": name, "params": {k: (v.hex() if isinstance(v, bytes) else str(v)) for k, v in params.items()}, "observed": r})
def stage2(prop, seed, tier, so, out):
    cur = out + ".cur"
    B = Bat(prop, seed, tier, so, cur)
    try: getattr(importlib.import_module(GRP.get(prop, "b_tpdkg")), prop)(B)
    except Exception:
        # a failing case may leave a state the rest of the battery cannot work with: what was observed before still counts
        if not B.fail: raise
        traceback.print_exc()
    json.dump({"status": "ok", "evaluations": B.n, "distinct": len(B.seen), "samples": B.samples, "failures": B.fail}, open(out, "w"))
    sys.stdout.flush(); os._exit(0)
def main():
    if sys.argv[1] == "--stage2": return stage2(sys.argv[2], int(sys.argv[3]), sys.argv[4], sys.argv[5], sys.argv[6])
    prop = sys.argv[1]
    seed = int(sys.argv[2]) if len(sys.argv) > 2 else int(os.environ.get("VERIF_SEED", "1"))
    tier = sys.argv[3] if len(sys.argv) > 3 else os.environ.get("VERIF_TIER", "quick")
    own = None
    if len(sys.argv) > 4: d, out = sys.argv[4], sys.argv[5]
    else:
        own = tempfile.TemporaryDirectory(prefix="vf-bat-"); d = own.name; out = os.path.join(d, "out.json")
    bd = os.path.join(d, "bat"); os.makedirs(bd, exist_ok=True)
    so = real.build(bd)
    lim = 500 if tier == "quick" else 780
    p = subprocess.Popen(["/usr/bin/python3", os.path.abspath(__file__), "--stage2", prop, str(seed), tier, so, out], env=real.asan_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    hang = False
    try: log = p.communicate(timeout=lim)[0].decode(errors="replace")
    except subprocess.TimeoutExpired: p.kill(); log = p.communicate()[0].decode(errors="replace"); hang = True
    if not os.path.exists(out):
        cur = {}
        try: cur = json.load(open(out + ".cur"))
        except Exception: pass
        if cur and (p.returncode == 77 or p.returncode < 0) and not "Traceback" in log:
            cur["observed"] = ("did not terminate within %d s" % lim) if hang else "the process was stopped by the sanitizer or a signal (%d): %s" % (p.returncode, log[-2500:])
            res = {"status": "ok", "evaluations": 1, "distinct": 1, "samples": [cur], "failures": [cur]}
        else: res = {"status": "error", "log": log[-4000:], "evaluations": 0, "distinct": 0, "samples": [], "failures": []}
        json.dump(res, open(out, "w"))
    res = json.load(open(out))
    if own:
        print(json.dumps(res, indent=1)[:8000]); own.cleanup()
    return 0
if __name__ == "__main__": main()
