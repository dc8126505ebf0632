"""Builds the unmodified sources of /repo (plus shim.c) into a shared object and
drives them through the public API for concrete replay."""
import ctypes, hashlib, os, subprocess, sys, shutil

REPO = os.environ.get("VF_REPO", "/repo")
HERE = os.path.dirname(os.path.abspath(__file__))
L = 2**252 + 27742317777372353535851937790883648493

INC = ["-I%s/src" % REPO, "-I%s/src/noise_xk/include" % REPO, "-I%s/src/noise_xk/include/karmel" % REPO,
       "-I%s/src/noise_xk/include/karmel/minimal" % REPO]
WRAP = ["-Dtime=vf_time", "-Dsodium_mlock=vf_mlock", "-Dsodium_munlock=vf_munlock",
        "-Dcrypto_core_ristretto255_scalar_random=vf_scalar_random"]
NWRAP = ["-DNoise_XK_device_create=vf_device_create", "-DNoise_XK_device_add_peer=vf_add_peer",
         "-DNoise_XK_session_create_initiator=vf_create_initiator",
         "-DNoise_XK_session_create_responder=vf_create_responder",
         "-DNoise_XK_session_write=vf_session_write", "-DNoise_XK_session_read=vf_session_read",
         "-DNoise_XK_session_free=vf_session_free", "-DNoise_XK_device_free=vf_device_free"]

def build(outdir, asan=True):
    """compile; returns path of the .so; raises on compile failure"""
    san = ["-fsanitize=address,bounds,shift,vla-bound,integer-divide-by-zero", "-fno-sanitize-recover=all",
           "-fno-omit-frame-pointer"] if asan else []
    base = ["gcc", "-g", "-O1", "-fPIC", "-w", "-DWITH_SODIUM"] + INC + san
    jobs = []
    objs = []
    src = sorted(f for f in os.listdir(REPO + "/src") if f.endswith(".c"))
    for s in src:
        o = os.path.join(outdir, s + ".o"); objs.append(o)
        w = list(WRAP) + (NWRAP if s == "tp-dkg.c" else [])
        jobs.append(subprocess.Popen(base + w + ["-c", "%s/src/%s" % (REPO, s), "-o", o], stderr=subprocess.PIPE))
    for s in ["Noise_XK.c", "XK.c"]:
        o = os.path.join(outdir, s + ".o"); objs.append(o)
        jobs.append(subprocess.Popen(base + ["-c", "%s/src/noise_xk/src/%s" % (REPO, s), "-o", o], stderr=subprocess.PIPE))
    o = os.path.join(outdir, "shim.o"); objs.append(o)
    jobs.append(subprocess.Popen(base + ["-c", os.path.join(HERE, "shim.c"), "-o", o], stderr=subprocess.PIPE))
    for j in jobs:
        err = j.communicate()[1]
        if j.returncode: raise RuntimeError("compile failed: " + err.decode()[-2000:])
    so = os.path.join(outdir, "libreal.so")
    r = subprocess.run(["gcc", "-shared", "-o", so] + objs + san + ["-lsodium"], stderr=subprocess.PIPE)
    if r.returncode: raise RuntimeError("link failed: " + r.stderr.decode()[-2000:])
    return so

def asan_env():
    lib = subprocess.run(["gcc", "-print-file-name=libasan.so"], stdout=subprocess.PIPE).stdout.decode().strip()
    ub = subprocess.run(["gcc", "-print-file-name=libubsan.so"], stdout=subprocess.PIPE).stdout.decode().strip()
    e = dict(os.environ)
    e["LD_PRELOAD"] = lib + ":" + ub
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=77:allocator_may_return_null=1:handle_segv=1"
    e["UBSAN_OPTIONS"] = "halt_on_error=1:exitcode=77:print_stacktrace=1"
    e["PYTHONMALLOC"] = "malloc"
    return e

class Real:
    def __init__(self, so):
        self.l = ctypes.CDLL(so)
        l = self.l
        for f in ["vf_malloc"]: getattr(l, f).restype = ctypes.c_void_p
        l.vf_malloc.argtypes = [ctypes.c_size_t]
        l.vf_free.argtypes = [ctypes.c_void_p]
        l.vf_field.restype = ctypes.c_long; l.vf_live.restype = ctypes.c_long
        l.vf_field.argtypes = [ctypes.c_char_p, ctypes.c_int]
        l.vf_seed.argtypes = [ctypes.c_uint64]
        l.vf_settime.argtypes = [ctypes.c_uint64]
        l.vf_script.argtypes = [ctypes.c_void_p, ctypes.c_size_t]
        l.vf_scalar_draws.restype = ctypes.c_uint64
        for f in ["tpdkg_tp_input_size", "tpdkg_tp_output_size", "tpdkg_peer_input_size", "tpdkg_peer_output_size"]:
            getattr(l, f).restype = ctypes.c_size_t
            getattr(l, f).argtypes = [ctypes.c_void_p]
        l.tpdkg_cheater_msg.restype = ctypes.c_uint8
        assert l.vf_init() >= 0
        self.F = {}
    def field(self, name):
        if name not in self.F:
            o = self.l.vf_field(name.encode(), 0); s = self.l.vf_field(name.encode(), 1)
            if o < 0: raise KeyError(name)
            self.F[name] = (o, s)
        return self.F[name]
    def sizeof(self, n): return self.field(n)[1]
    def buf(self, data_or_len):
        if isinstance(data_or_len, int):
            n = data_or_len; data = b"\xa5" * n
        else:
            data = bytes(data_or_len); n = len(data)
        p = self.l.vf_malloc(n)
        if n: ctypes.memmove(p, data, n)
        return Buf(self, p, n)

class VP(ctypes.c_void_p): pass

class Buf:
    def __init__(self, r, p, n): self.r, self.p, self.n = r, p, n
    def __bytes__(self): return ctypes.string_at(self.p, self.n)
    @property
    def b(self): return bytes(self)
    def get(self, o, n): return ctypes.string_at(self.p + o, n)
    def put(self, o, d): assert o + len(d) <= self.n; ctypes.memmove(self.p + o, bytes(d), len(d))
    @property
    def ptr(self): return self.at(0)
    def at(self, o):
        x = VP(self.p + o); x._keep = self      # keeps the buffer alive during the call
        return x
    def __del__(self):
        try: self.r.l.vf_free(self.p)
        except Exception: pass

# ---- independent helpers (system libsodium via ctypes, python integers) ----
class Sodium:
    def __init__(self):
        self.s = ctypes.CDLL("libsodium.so.23")
        assert self.s.sodium_init() >= 0
    def pmul(self, k, P):
        q = ctypes.create_string_buffer(32)
        r = self.s.crypto_scalarmult_ristretto255(q, (k % L).to_bytes(32, "little"), P)
        return None if r else q.raw
    def base(self, k):
        k %= L
        if k == 0: return bytes(32)
        q = ctypes.create_string_buffer(32)
        if self.s.crypto_scalarmult_ristretto255_base(q, k.to_bytes(32, "little")): return bytes(32)
        return q.raw
    def add(self, P, Q):
        r = ctypes.create_string_buffer(32)
        return None if self.s.crypto_core_ristretto255_add(r, P, Q) else r.raw
    def valid(self, P): return self.s.crypto_core_ristretto255_is_valid_point(P) == 1
    def from_hash(self, h):
        r = ctypes.create_string_buffer(32); self.s.crypto_core_ristretto255_from_hash(r, h); return r.raw
    def sign(self, m, sk):
        r = ctypes.create_string_buffer(64); self.s.crypto_sign_detached(r, None, m, ctypes.c_ulonglong(len(m)), sk); return r.raw
    def verify(self, sig, m, pk): return self.s.crypto_sign_verify_detached(sig, m, ctypes.c_ulonglong(len(m)), pk) == 0
    def keypair(self, seed):
        pk = ctypes.create_string_buffer(32); sk = ctypes.create_string_buffer(64)
        self.s.crypto_sign_seed_keypair(pk, sk, hashlib.sha256(seed).digest()); return pk.raw, sk.raw
    def auth(self, m, k):
        r = ctypes.create_string_buffer(32); self.s.crypto_auth(r, m, ctypes.c_ulonglong(len(m)), k); return r.raw
    def auth_verify(self, a, m, k): return self.s.crypto_auth_verify(a, m, ctypes.c_ulonglong(len(m)), k) == 0
    def box_open(self, c, key, nonce):
        r = ctypes.create_string_buffer(max(1, len(c) - 16)); ln = ctypes.c_ulonglong()
        x = self.s.crypto_aead_chacha20poly1305_ietf_decrypt(r, ctypes.byref(ln), None, c, ctypes.c_ulonglong(len(c)), None, ctypes.c_ulonglong(0), nonce, key)
        return None if x else r.raw[:ln.value]
def sc(x): return (x % L).to_bytes(32, "little")
def isc(b): return int.from_bytes(b, "little")
