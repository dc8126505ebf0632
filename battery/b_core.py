"""Concrete batteries of the core functions: independent computation with Python integers, hashlib and libsodium."""
import ctypes, hashlib
from real import L, sc, isc
DST = b"HashToGroup-OPRFV1-\x00-ristretto255-SHA512"
u8, u16, sz = ctypes.c_uint8, ctypes.c_uint16, ctypes.c_size_t
def xmd(msg, dst, n):
    dp = dst + bytes([len(dst)])
    b0 = hashlib.sha512(bytes(128) + msg + n.to_bytes(2, "big") + b"\0" + dp).digest()
    b = [hashlib.sha512(b0 + b"\1" + dp).digest()]
    for i in range(2, (n + 63) // 64 + 1): b.append(hashlib.sha512(bytes(x ^ y for x, y in zip(b0, b[-1])) + bytes([i]) + dp).digest())
    return b"".join(b)[:n]
def h2g(S, m): return S.from_hash(xmd(m, DST, 64))
def i32(r): return ctypes.c_int(r).value
LENS = [0, 1, 2, 3, 15, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 191, 192, 193, 200, 253, 254, 255]
SPECIAL = [1, 2, 3, 255, 256, L - 1, L - 2, 2**252, 2**251 + 12345]
def rs(B): return B.rng.randrange(1, L)
def pt(B, k=None): return B.S.base(rs(B) if k is None else k)
def invalid_points(B):
    """byte strings that are no canonical encodings"""
    r = [b"\xff" * 32, bytes([1]) + bytes(31), (2**255 - 19).to_bytes(32, "little"), (2**255 - 18).to_bytes(32, "little"), bytes(31) + b"\x80"]
    v = bytearray(pt(B)); v[31] |= 0x80; r.append(bytes(v))
    v = bytearray(pt(B)); v[0] |= 1; r.append(bytes(v))
    p = 2**255 - 19
    v = int.from_bytes(pt(B), "little")
    if v < 19: r.append((v + p).to_bytes(32, "little"))
    for _ in range(6): r.append(bytes(B.rng.randrange(256) for _ in range(32)))
    return [x for x in r if not B.S.valid(x)]
def script(B, scalars):
    """make the random generator return these scalars"""
    d = b"".join(sc(x) for x in scalars)
    B._script = B.R.buf(d if d else b"\0"); B.R.l.vf_script(B._script.ptr, len(scalars))
def unscript(B): B.R.l.vf_script(None, 0)
# ------------------------------------------------------------------ C01
def C01(B):
    R, S, l = B.R, B.S, B.R.l
    def one(x, k, r):
        X = R.buf(x); rb, bl, Z, N, K = R.buf(32), R.buf(32), R.buf(32), R.buf(32), R.buf(sc(k))
        l.vf_mlock_reset(-1)
        if r is not None: script(B, [r])
        d0 = l.vf_scalar_draws()
        a = i32(l.oprf_Blind(X.ptr, u8(len(x)), rb.ptr, bl.ptr))
        d1 = l.vf_scalar_draws(); unscript(B)
        H = h2g(S, x)
        if a: return "Blind returned %d" % a
        if d1 - d0 != 1: return "%d scalars were drawn for one blinding" % (d1 - d0)
        rv = isc(rb.b)
        if r is not None and rv != r % L: return "blinding factor %s is not the one drawn %s" % (rb.b.hex(), sc(r).hex())
        if rv == 0 or rv >= L: return "blinding factor out of range"
        if bl.b != S.pmul(rv, H): return "blinded element %s, expected %s" % (bl.b.hex(), S.pmul(rv, H).hex())
        if X.b != x: return "input modified"
        a = i32(l.oprf_Evaluate(K.ptr, bl.ptr, Z.ptr))
        if a: return "Evaluate returned %d" % a
        if Z.b != S.pmul(k * rv, H): return "evaluated element is wrong"
        a = i32(l.oprf_Unblind(rb.ptr, Z.ptr, N.ptr))
        if a: return "Unblind returned %d" % a
        if N.b != S.pmul(k, H): return "unblinded %s, expected %s" % (N.b.hex(), S.pmul(k, H).hex())
        if isc(rb.b) != rv: return "blinding factor modified by Unblind"
    def keygen(r):
        k = R.buf(32); script(B, [r]); d0 = l.vf_scalar_draws(); l.oprf_KeyGen(k.ptr); d1 = l.vf_scalar_draws(); unscript(B)
        if k.b != sc(r) or d1 - d0 != 1: return "key %s is not the scalar drawn" % k.b.hex()
    def fresh():
        ks = set()
        for _ in range(20):
            k = R.buf(32); l.oprf_KeyGen(k.ptr); ks.add(k.b)
            rb, bl = R.buf(32), R.buf(32); l.oprf_Blind(R.buf(b"x").ptr, u8(1), rb.ptr, bl.ptr); ks.add(rb.b)
        if len(ks) != 40: return "random scalars repeat"
    for n in range(256): 
        x = bytes(B.rng.randrange(256) for _ in range(n))
        B.case("chain", lambda: one(x, rs(B), None), x=x)
    for x in [b"", b"\0", b"\0" * 255, b"\xff" * 255, b"test", b"abc\0def"]:
        for k in SPECIAL:
            for r in SPECIAL: B.case("chain", lambda: one(x, k, r), x=x, k=k, r=r)
    for r in SPECIAL + [rs(B)]: B.case("keygen", lambda: keygen(r), r=r)
    B.case("fresh", fresh)
    def alias(k, r):
        P = pt(B); p = R.buf(P); K = R.buf(sc(k))
        if i32(l.oprf_Evaluate(K.ptr, p.ptr, p.ptr)): return "Evaluate in place failed"
        if p.b != S.pmul(k, P): return "Evaluate in place is wrong"
    B.case("inplace", lambda: alias(rs(B), rs(B)))
# ------------------------------------------------------------------ C02
def C02(B):
    R, S, l = B.R, B.S, B.R.l
    rb = lambda n: bytes(B.rng.randrange(256) for _ in range(n))
    def exp(m, d, n):
        o = R.buf(n); a = i32(l.expand_message_xmd(R.buf(m).ptr, u8(len(m)), R.buf(d).ptr, u8(len(d)), u8(n), o.ptr))
        if len(d) == 255: return None if a else "255 byte tag accepted"
        if a: return "returned %d" % a
        if o.b != xmd(m, d, n): return "got %s expected %s" % (o.b.hex(), xmd(m, d, n).hex())
    def htg(m):
        l.vf_mlock_reset(-1)
        o = R.buf(32); a = i32(l.voprf_hash_to_group(R.buf(m).ptr, u8(len(m)), o.ptr))
        if a or o.b != h2g(S, m): return "ret %d, got %s expected %s" % (a, o.b.hex(), h2g(S, m).hex())
    def fin(x, n):
        o = R.buf(64); a = i32(l.oprf_Finalize(R.buf(x).ptr, u16(len(x)), R.buf(n).ptr, o.ptr))
        e = hashlib.sha512(len(x).to_bytes(2, "big") + x + b"\0\x20" + n + b"Finalize").digest()
        if a or o.b != e: return "ret %d, got %s expected %s" % (a, o.b.hex(), e.hex())
    for n in range(256): B.case("expand", lambda: exp(m, d, n), n=n, m=(m := rb(B.rng.choice(LENS))), d=(d := rb(B.rng.choice(LENS[:-1]))))
    for k in range(256): B.case("expand", lambda: exp(m, d, n), n=(n := B.rng.choice(LENS)), m=(m := rb(k)), d=(d := rb(B.rng.choice(LENS[:-1]))))
    for k in range(256): B.case("expand", lambda: exp(m, d, n), n=(n := B.rng.choice(LENS)), m=(m := rb(B.rng.choice(LENS))), d=(d := rb(k)))
    for m_ in (0, 255):
        for d_ in (0, 1, 254, 255):
            for n in (0, 1, 64, 65, 128, 129, 192, 193, 255): B.case("expand", lambda: exp(m, d, n), n=n, m=(m := rb(m_)), d=(d := rb(d_)))
    for k in range(256): B.case("hash to group", lambda: htg(m), m=(m := rb(k)))
    for k in list(range(0, 260)) + [511, 512, 513, 1000, 1023, 1024, 4095, 4096, 32767, 32768, 65279, 65280, 65534, 65535]:
        B.case("finalize", lambda: fin(x, n), x=(x := rb(k)), n=(n := (pt(B) if k % 3 else rb(32))))
# ------------------------------------------------------------------ C03
def C03(B):
    R, S, l = B.R, B.S, B.R.l
    inv = invalid_points(B)
    def ev(k, p, want):
        o = R.buf(32); a = i32(l.oprf_Evaluate(R.buf(k).ptr, R.buf(p).ptr, o.ptr))
        if (a == 0) != want: return "returned %d" % a
        if want and o.b != S.pmul(isc(k), p): return "wrong product"
    def un(r, p, want):
        l.vf_mlock_reset(-1)
        o = R.buf(32); a = i32(l.oprf_Unblind(R.buf(r).ptr, R.buf(p).ptr, o.ptr))
        if (a == 0) != want: return "returned %d" % a
    good = pt(B)
    for p in inv: B.case("evaluate invalid element", lambda: ev(sc(rs(B)), p, False), p=p)
    B.case("evaluate identity", lambda: ev(sc(rs(B)), bytes(32), False)); B.case("evaluate zero key", lambda: ev(bytes(32), good, False)); B.case("evaluate key L", lambda: ev(L.to_bytes(32, "little"), good, False))
    B.case("evaluate good", lambda: ev(sc(rs(B)), good, True))
    for p in inv: B.case("unblind invalid element", lambda: un(sc(rs(B)), p, False), p=p)
    B.case("unblind identity", lambda: un(sc(rs(B)), bytes(32), False)); B.case("unblind zero factor", lambda: un(bytes(32), good, False)); B.case("unblind factor L", lambda: un(L.to_bytes(32, "little"), good, False))
    B.case("unblind factor 2L", lambda: un((2 * L).to_bytes(32, "little"), good, False))
    B.case("unblind good", lambda: un(sc(rs(B)), good, True))
    # failing locks: every call that reports success while a lock failed is wrong
    def locks(name, fn, nl):
        for at in range(6):
            l.vf_mlock_reset(at); a = i32(fn()); c = l.vf_mlock_calls() if hasattr(l, "vf_mlock_calls") else None
            l.vf_mlock_reset(-1)
            if at < nl and a == 0: return "%s reported success although lock %d failed" % (name, at)
            if at >= nl and a != 0: return "%s failed without a failing lock" % name
    B.case("lock failure blind", lambda: locks("Blind", lambda: l.oprf_Blind(R.buf(b"abc").ptr, u8(3), R.buf(32).ptr, R.buf(32).ptr), 2))
    B.case("lock failure unblind", lambda: locks("Unblind", lambda: l.oprf_Unblind(R.buf(sc(rs(B))).ptr, R.buf(good).ptr, R.buf(32).ptr), 1))
    B.case("lock failure hash to group", lambda: locks("hash to group", lambda: l.voprf_hash_to_group(R.buf(b"abc").ptr, u8(3), R.buf(32).ptr), 1))
    B.case("lock failure finalize", lambda: locks("Finalize", lambda: l.oprf_Finalize(R.buf(b"abc").ptr, u16(3), R.buf(good).ptr, R.buf(64).ptr), 1))
    k33 = lambda i: bytes([i]) + sc(rs(B))
    B.case("lock failure three-hash", lambda: locks("three-hash", lambda: l.toprf_3hashtdh(R.buf(k33(1)).ptr, R.buf(k33(1)).ptr, R.buf(good).ptr, R.buf(b"sid").ptr, u16(3), R.buf(33).ptr), 1))
    def tev(k, p, ixs, me, want):
        o = R.buf(33); a = i32(l.toprf_Evaluate(R.buf(k).ptr, R.buf(p).ptr, u8(me), R.buf(bytes(ixs)).ptr, u16(len(ixs)), o.ptr))
        if (a == 0) != want: return "returned %d" % a
    for p in inv + [bytes(32)]: B.case("weighted evaluation invalid", lambda: tev(k33(2), p, [1, 2, 3], 2, False), p=p)
    B.case("weighted evaluation zero share", lambda: tev(b"\2" + bytes(32), good, [1, 2, 3], 2, False))
    B.case("weighted evaluation index 0", lambda: tev(k33(2), good, [0, 2, 3], 2, False))
    B.case("weighted evaluation good", lambda: tev(k33(2), good, [1, 2, 3], 2, True))
    def tdh(k, z, p, want):
        l.vf_mlock_reset(-1)
        o = R.buf(33); a = i32(l.toprf_3hashtdh(R.buf(k).ptr, R.buf(z).ptr, R.buf(p).ptr, R.buf(b"ssid").ptr, u16(4), o.ptr))
        if (a == 0) != want: return "returned %d" % a
    for p in inv + [bytes(32)]: B.case("three-hash invalid", lambda: tdh(k33(1), k33(1), p, False), p=p)
    B.case("three-hash zero key", lambda: tdh(b"\1" + bytes(32), k33(1), good, False)); B.case("three-hash zero zero-share", lambda: tdh(k33(1), b"\1" + bytes(32), good, False))
    B.case("three-hash good", lambda: tdh(k33(1), k33(1), good, True))
    def comb(fn, n, pos, bad, want):
        ix = list(range(1, n + 1)); B.rng.shuffle(ix)
        rsp = [bytes([i]) + pt(B) for i in ix]
        if bad is not None: rsp[pos] = rsp[pos][:1] + bad
        o = R.buf(32); a = i32(getattr(l, fn)(sz(n), R.buf(b"".join(rsp)).ptr, o.ptr))
        if (a == 0) != want: return "returned %d" % a
    for fn in ("toprf_thresholdmult", "toprf_thresholdcombine"):
        for n in (1, 2, 3, 5, 17):
            B.case(fn + " good", lambda: comb(fn, n, 0, None, True), n=n)
            for pos in range(n):
                for p in (inv[:3] if n > 3 else inv): B.case(fn + " invalid response", lambda: comb(fn, n, pos, p, False), n=n, pos=pos, p=p)
        for pos in (0, 128, 254): B.case(fn + " invalid response", lambda: comb(fn, 255, pos, inv[0], False), n=255, pos=pos)
# ------------------------------------------------------------------ C27
def C27(B):
    R, S, l = B.R, B.S, B.R.l
    good = pt(B); k33 = lambda i: bytes([i]) + sc(rs(B))
    calls = {"blind": (lambda: l.oprf_Blind(R.buf(b"abc").ptr, u8(3), R.buf(32).ptr, R.buf(32).ptr), 2),
             "unblind": (lambda: l.oprf_Unblind(R.buf(sc(rs(B))).ptr, R.buf(good).ptr, R.buf(32).ptr), 1),
             "unblind invalid": (lambda: l.oprf_Unblind(R.buf(sc(rs(B))).ptr, R.buf(b"\xff" * 32).ptr, R.buf(32).ptr), 0),
             "unblind zero factor": (lambda: l.oprf_Unblind(R.buf(bytes(32)).ptr, R.buf(good).ptr, R.buf(32).ptr), 1),
             "unblind identity": (lambda: l.oprf_Unblind(R.buf(sc(rs(B))).ptr, R.buf(bytes(32)).ptr, R.buf(32).ptr), 1),
             "hash to group": (lambda: l.voprf_hash_to_group(R.buf(b"abc").ptr, u8(3), R.buf(32).ptr), 1),
             "finalize": (lambda: l.oprf_Finalize(R.buf(b"abc").ptr, u16(3), R.buf(good).ptr, R.buf(64).ptr), 1),
             "finalize empty": (lambda: l.oprf_Finalize(R.buf(b"").ptr, u16(0), R.buf(good).ptr, R.buf(64).ptr), 1),
             "three-hash": (lambda: l.toprf_3hashtdh(R.buf(k33(1)).ptr, R.buf(k33(1)).ptr, R.buf(good).ptr, R.buf(b"s").ptr, u16(1), R.buf(33).ptr), 1),
             "three-hash zero share": (lambda: l.toprf_3hashtdh(R.buf(k33(1)).ptr, R.buf(bytes(33)).ptr, R.buf(good).ptr, R.buf(b"s").ptr, u16(1), R.buf(33).ptr), 1)}
    for n, t in ((1, 1), (3, 2), (5, 5), (255, 128), (255, 255)):
        calls["dealing %d %d" % (n, t)] = ((lambda n, t: lambda: l.dkg_start(u8(n), u8(t), R.buf(32 * t).ptr, R.buf(33 * n).ptr))(n, t), 1)
    def chk(fn, at, nl):
        l.vf_mlock_reset(at); fn()
        left, bad, calls_ = l.vf_locked(), l.vf_bad_unlock(), l.vf_mlock_count()
        l.vf_mlock_reset(-1)
        if left: return "%d ranges are still locked after the call (lock %d fails)" % (left, at)
        if at < 0 and calls_ < nl: return "only %d of %d temporaries were placed in locked memory" % (calls_, nl)
    for nm, (fn, nl) in calls.items():
        for at in (-1, 0, 1, 2, 3): B.case(nm, lambda: chk(fn, at, nl), lock=at)

# ------------------------------------------------------------------ sharing
def peval(cs, x):
    r = 0
    for c in reversed(cs): r = (r * x + c) % L
    return r
def lam(i, ixs):
    n = d = 1
    for j in ixs:
        if j == i: continue
        n = n * j % L; d = d * (j - i) % L
    return n * pow(d, -1, L) % L if d else 0
NT = [(1, 1), (2, 1), (2, 2), (3, 1), (3, 2), (3, 3), (5, 3), (8, 8), (16, 9), (17, 17), (33, 20), (64, 64), (127, 64), (128, 128), (129, 65), (200, 199), (254, 128), (255, 1), (255, 2), (255, 3), (255, 127), (255, 128), (255, 254), (255, 255)]
def C04(B):
    R, S, l = B.R, B.S, B.R.l
    def sh(secret, n, t, coefs):
        o = R.buf(33 * n); s_ = R.buf(sc(secret)); script(B, coefs); d0 = l.vf_scalar_draws()
        l.toprf_create_shares(s_.ptr, u8(n), u8(t), o.ptr)
        d = l.vf_scalar_draws() - d0; unscript(B)
        if d != t - 1: return "%d coefficients drawn for threshold %d" % (d, t)
        if s_.b != sc(secret): return "secret modified"
        # the coefficients may be used in any order: compare with the polynomial through the first t shares
        pts = []
        for i in range(n):
            if o.get(33 * i, 1)[0] != i + 1: return "share %d carries index %d" % (i + 1, o.get(33 * i, 1)[0])
            pts.append(isc(o.get(33 * i + 1, 32)))
        if any(p >= L for p in pts): return "unreduced share"
        want = [peval([secret] + coefs, i + 1) for i in range(n)]
        if pts == want: return
        # solve for the coefficients used
        for perm in (coefs[::-1],):
            if pts == [peval([secret] + perm, i + 1) for i in range(n)]: return
        k = [i for i in range(n) if pts[i] != want[i]][0]
        return "share %d is %x, expected %x" % (k + 1, pts[k], want[k])
    for n, t in NT:
        B.case("sharing", lambda: sh(s, n, t, co), n=n, t=t, s=(s := rs(B)), c0=(co := [rs(B) for _ in range(t - 1)])[:1])
    for n in range(1, 40):
        for t in {1, 2, n // 2 + 1, n - 1, n} - {0}:
            if t <= n: B.case("sharing", lambda: sh(s, n, t, co), n=n, t=t, s=(s := rs(B)), c0=(co := [rs(B) for _ in range(t - 1)])[:1])
    for n in range(40, 256, 9):
        t = B.rng.randrange(1, n + 1)
        B.case("sharing", lambda: sh(s, n, t, co), n=n, t=t, s=(s := rs(B)), c0=(co := [rs(B) for _ in range(t - 1)])[:1])
    for s in [0] + SPECIAL: B.case("sharing", lambda: sh(s, 5, 3, [L - 1, 1]), n=5, t=3, s=s)
def idxsets(B):
    r = []
    for n in (1, 2, 3, 4, 5, 7, 16, 33, 100, 128, 200, 254, 255):
        a = list(range(1, n + 1)); r.append(a); r.append(a[::-1])
        x = B.rng.sample(range(1, 256), n); r.append(x); r.append(sorted(x)); r.append(sorted(x, reverse=True))
    for a in ([255], [128], [1, 255], [255, 1], [2, 1], [3, 1, 2], [1, 3, 2], [254, 255, 1], [127, 128, 129], [128, 127, 129]): r.append(a)
    for _ in range(40): r.append(B.rng.sample(range(1, 256), B.rng.randrange(2, 12)))
    return r
def C05(B):
    R, S, l = B.R, B.S, B.R.l
    def co(i, ixs):
        o = R.buf(32); p = R.buf(bytes(ixs)); l.coeff(u8(i), sz(len(ixs)), p.ptr, o.ptr)
        if o.b != sc(lam(i, ixs)): return "coefficient of %d in %r is %s expected %s" % (i, ixs, o.b.hex(), sc(lam(i, ixs)).hex())
        if p.b != bytes(ixs): return "indexes modified"
    def rec(ixs, vals):
        data = b"".join(bytes([i]) + sc(v) for i, v in zip(ixs, vals)); d = R.buf(data); o = R.buf(32)
        l.dkg_reconstruct(sz(len(ixs)), d.ptr, o.ptr)
        e = sum(v * lam(i, ixs) for i, v in zip(ixs, vals)) % L
        if o.b != sc(e): return "reconstructed %s expected %s" % (o.b.hex(), sc(e).hex())
        if d.b != data: return "shares modified"
    def mul(ixs, vals, base):
        P = S.base(base)
        data = b"".join(bytes([i]) + S.pmul(v, P) for i, v in zip(ixs, vals)); d = R.buf(data); o = R.buf(32)
        a = i32(l.toprf_thresholdmult(sz(len(ixs)), d.ptr, o.ptr))
        e = sum(v * lam(i, ixs) for i, v in zip(ixs, vals)) % L
        if a: return "returned %d" % a
        if o.b != S.base(e * base): return "reconstructed %s expected %s" % (o.b.hex(), S.base(e * base).hex())
        if d.b != data: return "responses modified"
    for ixs in idxsets(B):
        for i in (ixs if len(ixs) < 8 else B.rng.sample(ixs, 3) + [ixs[0], ixs[-1]]): B.case("coefficient", lambda: co(i, ixs), i=i, ixs=ixs)
        B.case("scalar", lambda: rec(ixs, vals), ixs=ixs, v0=(vals := [rs(B) for _ in ixs])[0])
        if len(ixs) < 40 or B.left() > 20: B.case("exponent", lambda: mul(ixs, vals, 1 + B.rng.randrange(L - 1)), ixs=ixs, v0=(vals := [rs(B) for _ in ixs])[0])
    for n in (2, 3, 5, 20, 64, 128):
        t = max(1, n // 2); cs = [rs(B) for _ in range(t)]; ixs = B.rng.sample(range(1, 256), t)
        B.case("threshold", lambda: rec(ixs, [peval(cs, i) for i in ixs]), ixs=ixs)
    B.case("small values", lambda: rec([1, 2, 3], [0, 0, 0])); B.case("small values", lambda: rec([3, 1, 2], [L - 1, 1, 0])); B.case("small", lambda: mul([2, 1], [1, 1], 1))
    def many(n):
        d = R.buf(b"".join(bytes([i % 255 + 1]) + pt(B, 5) for i in range(n))); o = R.buf(32)
        if i32(l.toprf_thresholdmult(sz(n), d.ptr, o.ptr)) == 0: return "accepted"
    for n in (256, 257, 300, 511, 512, 513): B.case("more than 255 responses", lambda: many(n), n=n)
def C06(B):
    R, S, l = B.R, B.S, B.R.l
    def ev(k, P, me, ixs, ki=None):
        ki = me if ki is None else ki
        o = R.buf(33); a = i32(l.toprf_Evaluate(R.buf(bytes([ki]) + sc(k)).ptr, R.buf(P).ptr, u8(me), R.buf(bytes(ixs)).ptr, u16(len(ixs)), o.ptr))
        e = S.pmul(k * lam(me, ixs), P)
        if a or o.b != bytes([ki]) + e: return "ret %d got %s expected %s" % (a, o.b.hex(), (bytes([ki]) + e).hex())
    def comb(ixs, ks):
        data = b"".join(bytes([i]) + S.base(k) for i, k in zip(ixs, ks)); o = R.buf(32); d = R.buf(data)
        a = i32(l.toprf_thresholdcombine(sz(len(ixs)), d.ptr, o.ptr)); e = S.base(sum(ks))
        if a or o.b != e: return "ret %d got %s expected %s" % (a, o.b.hex(), e.hex())
        if d.b != data: return "responses modified"
    def full(n, t):
        cs = [rs(B) for _ in range(t)]; ixs = B.rng.sample(range(1, n + 1), t); P = pt(B)
        rsp = []
        for i in ixs:
            o = R.buf(33); a = i32(l.toprf_Evaluate(R.buf(bytes([i]) + sc(peval(cs, i))).ptr, R.buf(P).ptr, u8(i), R.buf(bytes(ixs)).ptr, u16(t), o.ptr))
            if a: return "evaluation failed"
            rsp.append(o.b)
        o = R.buf(32); a = i32(l.toprf_thresholdcombine(sz(t), R.buf(b"".join(rsp)).ptr, o.ptr))
        if a or o.b != S.pmul(cs[0], P): return "combined result is not key times element"
    for ixs in idxsets(B):
        me = B.rng.choice(ixs); B.case("evaluate", lambda: ev(k, P, me, ixs), me=me, ixs=ixs, k=(k := rs(B)), P=(P := pt(B)))
        B.case("combine", lambda: comb(ixs, ks), ixs=ixs, k0=(ks := [rs(B) for _ in ixs])[0])
    for k in SPECIAL: B.case("evaluate", lambda: ev(k, P, 3, [5, 3, 255]), k=k, P=(P := pt(B)))
    B.case("evaluate other index", lambda: ev(rs(B), pt(B), 4, [4, 7, 9], ki=9))
    # long participant lists (duplicates of the own index are skipped)
    for n in (255, 256, 257, 258, 300, 511, 512, 1000, 65535): B.case("evaluate long list", lambda: ev(rs(B), pt(B), 7, [7] * (n - 2) + [9, 200]), n=n)
    B.case("evaluate long list", lambda: ev(rs(B), pt(B), 7, ([1, 2, 3, 4] * 100) + [7] * 3), n=403)
    for n, t in ((1, 1), (2, 2), (3, 2), (5, 3), (20, 11), (128, 64), (255, 128), (255, 255)): B.case("end to end", lambda: full(n, t), n=n, t=t)
    B.case("combine to identity", lambda: comb([1, 2], [5, L - 5])); B.case("combine duplicates", lambda: comb([4, 4, 2], [5, 6, 7])); B.case("combine with identity", lambda: comb([1, 2, 3], [0, 6, 7])); B.case("combine with identity", lambda: comb([1, 2, 3], [6, 7, 0]))
    B.case("combine index zero", lambda: comb([0, 3, 255, 1], [5, 6, 7, 8]))
    def many(n):
        d = R.buf(b"".join(bytes([i % 255 + 1]) + pt(B, 5) for i in range(n))); o = R.buf(32)
        if i32(l.toprf_thresholdcombine(sz(n), d.ptr, o.ptr)) == 0: return "accepted"
    for n in (256, 257, 511, 512, 513): B.case("more than 255 responses", lambda: many(n), n=n)
def C07(B):
    R, S, l = B.R, B.S, B.R.l
    def tdh(k, z, P, ss, ki, zi):
        l.vf_mlock_reset(-1)
        kb = bytes([ki]) + sc(k); zb = bytes([zi]) + sc(z); K, Z_, A, SS = R.buf(kb), R.buf(zb), R.buf(P), R.buf(ss); o = R.buf(33)
        a = i32(l.toprf_3hashtdh(K.ptr, Z_.ptr, A.ptr, SS.ptr, u16(len(ss)), o.ptr))
        h = hashlib.blake2b(len(ss).to_bytes(2, "big") + ss + P, digest_size=64).digest()
        e = bytes([ki]) + S.add(S.pmul(k, P), S.pmul(z, h2g(S, h)))
        if a or o.b != e: return "ret %d got %s expected %s" % (a, o.b.hex(), e.hex())
        if (K.b, Z_.b, A.b, SS.b) != (kb, zb, P, ss): return "inputs modified"
    rb = lambda n: bytes(B.rng.randrange(256) for _ in range(n))
    for n in list(range(0, 40)) + [63, 64, 65, 95, 96, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 1025, 4096, 32767, 32768, 65279, 65280, 65281, 65534, 65535]:
        B.case("three-hash", lambda: tdh(rs(B), rs(B), P, ss, B.rng.randrange(256), B.rng.randrange(256)), ss=(ss := rb(n))[:64], n=n, P=(P := pt(B)))
    for k in SPECIAL:
        for z_ in SPECIAL: B.case("three-hash", lambda: tdh(k, z_, P, b"session", 3, 3), k=k, z=z_, P=(P := pt(B)))
def dealing(B, n, t, coefs):
    R, S, l = B.R, B.S, B.R.l
    cm, sh = R.buf(32 * t), R.buf(33 * n)
    script(B, coefs); d0 = l.vf_scalar_draws()
    a = i32(l.dkg_start(u8(n), u8(t), cm.ptr, sh.ptr)); d = l.vf_scalar_draws() - d0; unscript(B)
    return a, d, cm, sh
def C08(B):
    R, S, l = B.R, B.S, B.R.l
    def st(n, t, coefs):
        l.vf_mlock_reset(-1)
        a, d, cm, sh = dealing(B, n, t, coefs)
        if a: return "returned %d" % a
        if d != t: return "%d scalars drawn" % d
        for k in range(t):
            if cm.get(32 * k, 32) != S.base(coefs[k]): return "commitment %d is not base times coefficient %d" % (k, k)
        for j in range(1, n + 1):
            s = sh.get(33 * (j - 1), 33)
            if s != bytes([j]) + sc(peval(coefs, j)): return "share %d is %s expected %s" % (j, s.hex(), (bytes([j]) + sc(peval(coefs, j))).hex())
    for n, t in NT + [(n, (n + 1) // 2) for n in range(1, 30)]: B.case("dealing", lambda: st(n, t, co), n=n, t=t, c0=(co := [rs(B) for _ in range(t)])[0])
    for c in SPECIAL: B.case("dealing", lambda: st(4, 3, [c, L - c, 1]), n=4, t=3, c=c)
    def nolock(n, t):
        l.vf_mlock_reset(0); a, d, cm, sh = dealing(B, n, t, [rs(B) for _ in range(t)]); l.vf_mlock_reset(-1)
        if a == 0: return "succeeded although the coefficients could not be locked"
        if cm.b != b"\xa5" * (32 * t) or sh.b != b"\xa5" * (33 * n): return "output was produced although the call failed"
    for n, t in ((1, 1), (3, 2), (255, 255)): B.case("locking fails", lambda: nolock(n, t), n=n, t=t)
class Share(ctypes.Structure):
    _pack_ = 1
    _fields_ = [("index", ctypes.c_uint8), ("value", ctypes.c_uint8 * 32)]
def mkshare(i, v): return Share(i, (ctypes.c_uint8 * 32)(*v))
def C09(B):
    R, S, l = B.R, B.S, B.R.l
    l.dkg_verify_commitment.argtypes = [u8, u8, u8, u8, ctypes.c_void_p, Share]
    inv = invalid_points(B)
    def one(n, t, me, i, cms, sv, want):
        c = R.buf(b"".join(cms)); a = i32(l.dkg_verify_commitment(n, t, me, i, c.ptr, mkshare(me, sv)))
        if (a == 0) != want: return "returned %d, expected %s" % (a, "acceptance" if want else "refusal")
        if c.b != b"".join(cms): return "commitments modified"
    for n, t in NT:
        cs = [rs(B) for _ in range(t)]; cms = [S.base(c) for c in cs]
        for me in {1, n, B.rng.randrange(1, n + 1), min(n, 128), min(n, 129)}:
            i = me % n + 1 if n > 1 else 2
            B.case("good share", lambda: one(n, t, me, i, cms, sc(peval(cs, me)), True), n=n, t=t, me=me, i=i)
            B.case("share plus one", lambda: one(n, t, me, i, cms, sc(peval(cs, me) + 1), False), n=n, t=t, me=me, i=i)
            B.case("share of another peer", lambda: one(n, t, me, i, cms, sc(peval(cs, me + 1)), t == 1 or peval(cs, me) == peval(cs, me + 1)), n=n, t=t, me=me, i=i)
            for k in {0, 1, t // 2, t - 1} & set(range(t)):
                bad = list(cms); bad[k] = S.base(cs[k] + 1)
                B.case("changed commitment", lambda: one(n, t, me, i, bad, sc(peval(cs, me)), False), n=n, t=t, me=me, i=i, k=k)
                for p in inv[:4] + ([bytes(32)] if k else []):
                    bad = list(cms); bad[k] = p
                    B.case("invalid commitment", lambda: one(n, t, me, i, bad, sc(peval(cs, me)), False), n=n, t=t, me=me, i=i, k=k, p=p)
                    # share that would fit if the commitment were skipped
                    if k: B.case("invalid commitment left out of the sum", lambda: one(n, t, me, i, bad, sc(peval(cs[:k] + [0] + cs[k + 1:], me)), False), n=n, t=t, me=me, i=i, k=k, p=p)
                    # share that would fit if the sum ended at the invalid commitment
                    if k: B.case("invalid commitment ends the sum", lambda: one(n, t, me, i, bad, sc(peval(cs[:k], me)), False), n=n, t=t, me=me, i=i, k=k, p=p)
    B.case("own share", lambda: one(3, 2, 2, 2, [S.base(1), S.base(2)], sc(9), True))
    def al(n, t, me, badset, how):
        cms, shs = [], []
        for i in range(1, n + 1):
            cs = [rs(B) for _ in range(t)]; cm = [S.base(c) for c in cs]; v = peval(cs, me)
            if i in badset:
                if how == "share": v += 1
                elif how == "point": cm[-1] = inv[0] if t > 1 or True else cm[-1]
                else: cm[0] = S.base(cs[0] + 7)
            cms += cm; shs.append(bytes([me]) + sc(v))
        f, fl = R.buf(n), R.buf(1)
        a = i32(l.dkg_verify_commitments(u8(n), u8(t), u8(me), R.buf(b"".join(cms)).ptr, R.buf(b"".join(shs)).ptr, f.ptr, fl.ptr))
        e = sorted(badset - {me}); got = list(f.get(0, fl.b[0]))
        if got != e: return "reported %r expected %r" % (got, e)
        if (a != 0) != bool(e): return "returned %d with %r failing" % (a, e)
    for n in (1, 2, 3, 5, 9, 20):
        t = max(1, n // 2)
        for me in {1, n, n // 2 + 1}:
            for bs in (set(), set(range(1, n + 1)), {1}, {n}, {me}, {1, n}, set(range(1, n + 1, 2)), set(B.rng.sample(range(1, n + 1), B.rng.randrange(n + 1)))):
                if bs <= set(range(1, n + 1)):
                    for how in ("share", "point", "first"): B.case("all dealers", lambda: al(n, t, me, bs, how), n=n, t=t, me=me, bad=sorted(bs), how=how)
    for n, bs in ((128, {1, 127, 128}), (255, {255}), (255, {1, 128, 254, 255}), (255, set(range(1, 256)))): B.case("all dealers", lambda: al(n, 2, 200 if n > 200 else 100, bs, "share"), n=n, bad=sorted(bs))
def C10(B):
    R, S, l = B.R, B.S, B.R.l
    def fi(n, me, vals, idx, pre):
        d = b"".join(bytes([i]) + sc(v) for i, v in zip(idx, vals)); x = R.buf(bytes([pre]) + b"\xa5" * 32); D = R.buf(d)
        l.dkg_finish(u8(n), D.ptr, u8(me), x.ptr)
        e = bytes([pre]) + sc(sum(vals))
        if x.b != e: return "share is %s expected %s" % (x.b.hex(), e.hex())
        if D.b != d: return "received shares modified"
    for n in list(range(1, 40)) + [64, 100, 127, 128, 129, 200, 254, 255]:
        me = B.rng.randrange(1, n + 1)
        B.case("finish", lambda: fi(n, me, v, [me] * n, me), n=n, me=me, v0=(v := [rs(B) for _ in range(n)])[0])
        B.case("finish, other indexes", lambda: fi(n, me, v, [(me + i) % 256 for i in range(n)], 77), n=n, me=me, v0=(v := [rs(B) for _ in range(n)])[0])
    B.case("finish zeros", lambda: fi(3, 1, [0, 0, 0], [1] * 3, 1)); B.case("finish wrap", lambda: fi(3, 1, [L - 1, 1, L - 1], [1] * 3, 1)); B.case("finish wrap", lambda: fi(255, 1, [L - 1] * 255, [1] * 255, 1))
def C11(B):
    R, S, l = B.R, B.S, B.R.l
    def st(a, b, ia, ib, n, t, want):
        o = R.buf(33 * n); co = [rs(B) for _ in range(max(0, t - 1))]; script(B, co); d0 = l.vf_scalar_draws()
        r = i32(l.toprf_mpc_mul_start(R.buf(bytes([ia]) + sc(a)).ptr, R.buf(bytes([ib]) + sc(b)).ptr, u8(n), u8(t), o.ptr)); d = l.vf_scalar_draws() - d0; unscript(B)
        if (r == 0) != want: return "returned %d" % r
        if not want: return None
        if d != t - 1: return "%d coefficients drawn" % d
        got = [(o.get(33 * i, 1)[0], isc(o.get(33 * i + 1, 32))) for i in range(n)]
        if got != [(i, peval([a * b % L] + co, i)) for i in range(1, n + 1)] and got != [(i, peval([a * b % L] + co[::-1], i)) for i in range(1, n + 1)]: return "not a sharing of the product"
    for n, t in NT: B.case("start", lambda: st(a, b, i, i, n, t, True), n=n, t=t, a=(a := rs(B)), b=(b := rs(B)), i=(i := B.rng.randrange(256)))
    B.case("start zero", lambda: st(0, rs(B), 1, 1, 3, 2, True)); B.case("start", lambda: st(L - 1, L - 1, 1, 1, 3, 3, True))
    for ia, ib in ((1, 2), (2, 1), (0, 255), (1, 129)): B.case("mismatched indexes", lambda: st(rs(B), rs(B), ia, ib, 3, 2, False), ia=ia, ib=ib)
    for n, t in ((3, 0), (255, 0), (2, 3), (1, 2), (254, 255), (128, 129)): B.case("bad threshold", lambda: st(rs(B), rs(B), 1, 1, n, t, False), n=n, t=t)
    def fin(ixs, peer, vals, sidx):
        d = b"".join(bytes([j]) + sc(v) for j, v in zip(sidx, vals)); o = R.buf(33); I = R.buf(bytes(ixs)); D = R.buf(d)
        l.toprf_mpc_mul_finish(u8(len(ixs)), I.ptr, u8(peer), D.ptr, o.ptr)
        e = bytes([peer]) + sc(sum(v * lam(i, ixs) for i, v in zip(ixs, vals)))
        if o.b != e: return "got %s expected %s" % (o.b.hex(), e.hex())
        if D.b != d or I.b != bytes(ixs): return "inputs modified"
    sets = [x for x in idxsets(B) if len(x) <= 33] + [list(range(1, n + 1)) for n in range(1, 20)] + [B.rng.sample(range(1, 256), n) for n in range(1, 24)]
    for ixs in sets:
        peer = B.rng.choice(ixs + [B.rng.randrange(1, 256)])
        B.case("finish", lambda: fin(ixs, peer, v, [peer] * len(ixs)), ixs=ixs, peer=peer, v0=(v := [rs(B) for _ in ixs])[0])
        B.case("finish, indexes of the sub-shares differ", lambda: fin(ixs, peer, v, [B.rng.randrange(256) for _ in ixs]), ixs=ixs, peer=peer, v0=(v := [rs(B) for _ in ixs])[0])
    for n in (48, 64):
        if B.left() > 15: B.case("finish", lambda: fin(ixs, 5, v, [5] * n), n=n, ixs=(ixs := B.rng.sample(range(1, 256), n)), v0=(v := [rs(B) for _ in range(n)])[0])
    # every pair and many triples of dealers
    for i in range(1, 256, 6):
        for j in range(2, 256, 17):
            if i != j: B.case("finish pair", lambda: fin([i, j], 3, v, [3, 3]), i=i, j=j, v0=(v := [rs(B), rs(B)])[0])
    def e2e(n, t):
        A, Bc = [rs(B) for _ in range(t)], [rs(B) for _ in range(t)]
        deal = sorted(B.rng.sample(range(1, n + 1), 2 * t - 1)); sub = {}
        for i in deal:
            o = R.buf(33 * n)
            if i32(l.toprf_mpc_mul_start(R.buf(bytes([i]) + sc(peval(A, i))).ptr, R.buf(bytes([i]) + sc(peval(Bc, i))).ptr, u8(n), u8(t), o.ptr)): return "start failed"
            sub[i] = o.b
        res = []
        for p in range(1, n + 1):
            o = R.buf(33)
            l.toprf_mpc_mul_finish(u8(len(deal)), R.buf(bytes(deal)).ptr, u8(p), R.buf(b"".join(sub[i][33 * (p - 1):33 * p] for i in deal)).ptr, o.ptr)
            if o.b[0] != p: return "result index"
            res.append(isc(o.b[1:]))
        q = B.rng.sample(range(1, n + 1), t)
        if sum(res[i - 1] * lam(i, q) for i in q) % L != A[0] * Bc[0] % L: return "result is not a sharing of the product"
    for n, t in ((1, 1), (3, 2), (5, 3), (7, 3), (9, 5), (15, 8)): B.case("end to end", lambda: e2e(n, t), n=n, t=t)
