"""In-process run of the TP-DKG protocol against the real code, with a hook that may
alter any message between parties."""
import ctypes, hashlib, struct
from real import *

HDR = 111
class Peer: pass

class Sim:
    def __init__(self, R, S, n, t, eps=1000, seed=1, cheater_max=None, now=1700000000, name=b"proto", log=0, order=None):
        self.R, self.S, self.n, self.t, self.eps = R, S, n, t, eps
        self.now = now
        l = R.l
        l.vf_seed(seed); l.vf_settime(now); l.vf_log(log)
        self.tp = R.buf(bytes(R.sizeof("tp")))
        self.msg0 = R.buf(R.sizeof("msg0"))
        nm = R.buf(name)
        self.lt = [S.keypair(b"lt%d-%d" % (i, seed)) for i in range(n)]
        self.start_ret = l.tpdkg_start_tp(self.tp.ptr, ctypes.c_uint64(eps), ctypes.c_uint8(n), ctypes.c_uint8(t), nm.ptr,
                                          ctypes.c_size_t(len(name)), ctypes.c_size_t(R.sizeof("msg0")), self.msg0.ptr)
        if self.start_ret: return
        self.cm = max(1, t * t - 1) if cheater_max is None else cheater_max
        B = lambda k: R.buf(k)
        self.tb = dict(commit=B(n * t * 32), compl=B(n * n * 2), enc=B(n * n * R.sizeof("msg8")), cheat=B(self.cm * R.sizeof("ch")),
                       sigpk=B(n * 32), ltpk=R.buf(b"".join(k[0] for k in self.lt)), lastts=B(n * 8))
        tb = self.tb
        l.tpdkg_tp_set_bufs(self.tp.ptr, tb["commit"].ptr, tb["compl"].ptr, tb["enc"].ptr, tb["cheat"].ptr, ctypes.c_size_t(self.cm),
                            tb["sigpk"].ptr, tb["ltpk"].ptr, tb["lastts"].ptr)
        self.peers = []
        self.peer_start = []
        for i in range(n):
            p = Peer(); self.peers.append(p)
            p.st = R.buf(bytes([0xa5]) * R.sizeof("peer"))
            m0 = R.buf(self.msg0.b)
            self.peer_start.append(self.start_peer(i, m0))
        self.tp_in = b""
        self.tp_ret = None
        self.trace = []
    def start_peer(self, i, m0):
        R, l = self.R, self.R.l
        p = self.peers[i]
        r = l.tpdkg_start_peer(p.st.ptr, ctypes.c_uint64(self.eps), R.buf(self.lt[i][1]).ptr, m0.ptr)
        p.ret = r; p.freed = False; p.out = None
        if r == 0:
            n, t = self.pg(i, "n")[0], self.pg(i, "t")[0]
            B = lambda k: R.buf(bytes([0xa5]) * k)
            p.b = dict(sig=B(n * 32), noise=B(n * 32), outs=B(n * 8), ins=B(n * 8), shares=B(n * 33), xsh=B(n * 33), com=B(n * t * 32),
                       compl=B(n * n * 2), my=B(n), lt=B(n * 8))
            b = p.b
            l.tpdkg_peer_set_bufs(p.st.ptr, b["sig"].ptr, b["noise"].ptr, b["outs"].ptr, b["ins"].ptr, b["shares"].ptr, b["xsh"].ptr,
                                  b["com"].ptr, b["compl"].ptr, b["my"].ptr, b["lt"].ptr)
        return r
    def pg(self, i, f): o, s = self.R.field("peer." + f); return self.peers[i].st.get(o, s)
    def pput(self, i, f, v): o, s = self.R.field("peer." + f); self.peers[i].st.put(o, v)
    def tg(self, f): o, s = self.R.field("tp." + f); return self.tp.get(o, s)
    def tput(self, f, v): o, s = self.R.field("tp." + f); self.tp.put(o, v)
    def tstep(self): return struct.unpack("<i", self.tg("step"))[0]
    def pstep(self, i): return struct.unpack("<i", self.pg(i, "step"))[0]
    def tp_not_done(self): return self.R.l.tpdkg_tp_not_done(self.tp.ptr)
    def peer_not_done(self, i): return self.R.l.tpdkg_peer_not_done(self.peers[i].st.ptr)
    def cheaters(self):
        k = struct.unpack("<Q", self.tg("cheater_len"))[0]; sz = self.R.sizeof("ch"); r = []
        for i in range(k):
            e = self.tb["cheat"].get(i * sz, sz)
            g = lambda f: int.from_bytes(e[self.R.field("ch." + f)[0]:][:self.R.field("ch." + f)[1]], "little")
            r.append((g("step"), g("error"), g("peer"), g("other_peer"), g("invalid_index")))
        return r
    def complaints(self):
        k = struct.unpack("<H", self.tg("complaints_len"))[0]
        return [struct.unpack("<H", self.tb["compl"].get(2 * i, 2))[0] for i in range(k)]
    def tp_sizes(self):
        a = self.R.buf(8 * self.n)
        f = self.R.l.tpdkg_tp_input_sizes(self.tp.ptr, a.ptr)
        return f, list(struct.unpack("<%dQ" % self.n, a.b))
    def tp_next(self, inp=None, outlen=None):
        l = self.R.l
        outlen = l.tpdkg_tp_output_size(self.tp.ptr) if outlen is None else outlen
        self.tp_out = self.R.buf(outlen)
        ib = self.R.buf(inp)
        self.tp_ret = l.tpdkg_tp_next(self.tp.ptr, ib.ptr, ctypes.c_size_t(len(inp)), self.tp_out.ptr, ctypes.c_size_t(outlen))
        return self.tp_ret
    def tp_msg(self, i):
        m = ctypes.c_void_p(); ln = ctypes.c_size_t()
        r = self.R.l.tpdkg_tp_peer_msg(self.tp.ptr, self.tp_out.ptr, ctypes.c_size_t(self.tp_out.n), ctypes.c_uint8(i), ctypes.byref(m), ctypes.byref(ln))
        if r: return r, None
        return 0, ctypes.string_at(m, ln.value) if ln.value else b""
    def peer_next(self, i, inp, outlen=None):
        l = self.R.l; p = self.peers[i]
        outlen = l.tpdkg_peer_output_size(p.st.ptr) if outlen is None else outlen
        out = self.R.buf(outlen); ib = self.R.buf(inp)
        r = l.tpdkg_peer_next(p.st.ptr, ib.ptr, ctypes.c_size_t(len(inp)), out.ptr, ctypes.c_size_t(outlen))
        p.ret = r
        return r, out.b
    def free_peers(self):
        for i, p in enumerate(self.peers):
            if not p.freed and hasattr(p, "b"):
                self.R.l.tpdkg_peer_free(p.st.ptr); p.freed = True
    # ---- message tools ----
    def resign(self, m, sk): return self.S.sign(bytes(m[64:]), sk) + bytes(m[64:])
    def peer_sk(self, i): return self.pg(i, "sig_sk")
    def tp_sk(self): return self.tg("sig_sk")

def parse(m):
    return dict(sig=m[:64], msgno=m[64], len=struct.unpack(">I", m[65:69])[0], frm=m[69], to=m[70], ts=struct.unpack(">Q", m[71:79])[0], sid=m[79:111], data=m[111:])
def header(m, **kw):
    m = bytearray(m)
    if "msgno" in kw: m[64] = kw["msgno"]
    if "len" in kw: m[65:69] = struct.pack(">I", kw["len"])
    if "frm" in kw: m[69] = kw["frm"]
    if "to" in kw: m[70] = kw["to"]
    if "ts" in kw: m[71:79] = struct.pack(">Q", kw["ts"] % 2**64)
    if "sid" in kw: m[79:111] = kw["sid"]
    if "data" in kw: m[111:111 + len(kw["data"])] = kw["data"]
    return bytes(m)

def run(sim, hook=None, stop=None):
    """drive the protocol as documented. hook(kind, step, who, data)->data may alter a message:
       kind 'tp_in' (who=None: full batch as list per peer), 'peer_in' (who=i), 'peer_out'."""
    R, n = sim.R, sim.n
    inbox = [b""] * n
    batch = [b""] * n
    while sim.tp_not_done():
        st = sim.tstep()
        same, sizes = sim.tp_sizes()
        if hook:
            b2 = hook("tp_in", st, None, list(batch))
            if b2 is not None: batch = b2
        inp = b"".join(batch)
        if len(inp) != R.l.tpdkg_tp_input_size(sim.tp.ptr): return ("size-tp", st, len(inp), R.l.tpdkg_tp_input_size(sim.tp.ptr))
        if [len(x) for x in batch] != sizes: return ("sizes-tp", st)
        ret = sim.tp_next(inp)
        sim.trace.append(("tp", st, ret))
        if ret: return ("tp", st, ret)
        msgs = []
        for i in range(n):
            r, m = sim.tp_msg(i)
            if r: return ("tp_msg", st, r)
            msgs.append(m)
        if not sim.tp_not_done(): break
        batch = [b""] * n
        first = True
        # peers run until they emit something or are done
        while all(len(x) == 0 for x in batch) and any(sim.peer_not_done(i) for i in range(n)):
            for i in range(n):
                if not sim.peer_not_done(i): continue
                ps = sim.pstep(i)
                need = R.l.tpdkg_peer_input_size(sim.peers[i].st.ptr)
                m = msgs[i] if need else b""
                if need: msgs[i] = b""
                if hook:
                    m2 = hook("peer_in", ps, i, m)
                    if m2 is not None: m = m2
                if len(m) != need: return ("size-peer", ps, i, len(m), need)
                r, out = sim.peer_next(i, m)
                sim.trace.append(("peer", ps, i, r))
                if r: return ("peer", ps, i, r)
                if hook:
                    o2 = hook("peer_out", ps, i, out)
                    if o2 is not None: out = o2
                batch[i] = out
    # let the peers finish
    for i in range(n):
        k = 0
        while sim.peer_not_done(i) and k < 4:
            k += 1
            r, out = sim.peer_next(i, b"")
            if r: return ("peer", "end", i, r)
    return ("ok",)
