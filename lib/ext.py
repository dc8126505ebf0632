"""Assumed contracts of everything outside /repo/src: libsodium, libc and the Noise_XK library.

Each handler is (eng, args, guard, loc, tag) -> result value.  Results that are not determined
by the inputs are uninterpreted functions named after the call site and the loop iteration."""
from engine import *
import engine, alg

EXT = {}
USED = set()
DOC = {}
def ext(name, doc):
    def d(f):
        def w(e, a, g, loc, tag):
            USED.add(name); return f(e, a, g, loc, tag)
        EXT[name] = w; DOC[name] = doc
        return f
    return d
I32 = lambda v: const(v, 32)
def rd(e, p, n, g, loc):
    return e.bytesof(e.load(p, n, g, loc))
def wr(e, p, v, g, loc): e.store(p, v, v.w // 8, g, loc)
def canonical(t):
    """terms known to be reduced scalars"""
    return t.op == "senc" or (t.op == "uf" and t.args[0].startswith("rnd:")) or (isc(t) and cv(t) < alg.L) or (t.op == "zext" and t.args[0].w <= 252) or (t.op == "ite" and canonical(t.args[1]) and canonical(t.args[2]))
def smul_scalar(t):
    """scalar multiplication ignores the top bit of the scalar"""
    if canonical(t): return fs(t)
    if t.op == "ite": return f_ite(t.args[0], smul_scalar(t.args[1]), smul_scalar(t.args[2]))
    return fs(zext(trunc(t, 255), 256))

# ---------------------------------------------------------------- scalars and group
@ext("crypto_core_ristretto255_scalar_random", "writes a fresh nonzero reduced scalar")
def _(e, a, g, loc, tag):
    v = e.res("rnd:" + tag, 256); wr(e, a[0], v, g, loc); e.event("random", g, (v,), loc=loc)
@ext("crypto_core_ristretto255_scalar_add", "out = a+b mod L")
def _(e, a, g, loc, tag): wr(e, a[0], senc(f_add(fs(rd(e, a[1], 32, g, loc)), fs(rd(e, a[2], 32, g, loc)))), g, loc)
@ext("crypto_core_ristretto255_scalar_sub", "out = a-b mod L")
def _(e, a, g, loc, tag): wr(e, a[0], senc(f_add(fs(rd(e, a[1], 32, g, loc)), fs(rd(e, a[2], 32, g, loc)), -1)), g, loc)
@ext("crypto_core_ristretto255_scalar_mul", "out = a*b mod L")
def _(e, a, g, loc, tag): wr(e, a[0], senc(f_mul(fs(rd(e, a[1], 32, g, loc)), fs(rd(e, a[2], 32, g, loc)))), g, loc)
@ext("crypto_core_ristretto255_scalar_negate", "out = -a mod L")
def _(e, a, g, loc, tag): wr(e, a[0], senc(f_add(f_const(0), fs(rd(e, a[1], 32, g, loc)), -1)), g, loc)
@ext("crypto_core_ristretto255_scalar_complement", "out = 1-a mod L")
def _(e, a, g, loc, tag): wr(e, a[0], senc(f_add(f_const(1), fs(rd(e, a[1], 32, g, loc)), -1)), g, loc)
@ext("crypto_core_ristretto255_scalar_reduce", "out = 64 byte integer mod L")
def _(e, a, g, loc, tag): wr(e, a[0], senc(fs(rd(e, a[1], 64, g, loc))), g, loc)
@ext("crypto_core_ristretto255_scalar_invert", "out = 1/a mod L (0 for 0); -1 iff the 32 input bytes are all zero")
def _(e, a, g, loc, tag):
    s = rd(e, a[1], 32, g, loc)
    wr(e, a[0], senc(f_inv(fs(s))), g, loc)
    return ite(szero(s), I32(-1), I32(0))
def szero(s):
    if s.op == "ite": return ite(s.args[0], szero(s.args[1]), szero(s.args[2]))
    if canonical(s): return fzero(fs(s))
    return eq(s, const(0, s.w))
@ext("crypto_core_ristretto255_is_valid_point", "1 iff the bytes are a canonical group element encoding")
def _(e, a, g, loc, tag): return b2i(pvalid(rd(e, a[0], 32, g, loc)), 32)
def addsub(sign):
    def f(e, a, g, loc, tag):
        p, q = rd(e, a[1], 32, g, loc), rd(e, a[2], 32, g, loc)
        ok = mkand(pvalid(p), pvalid(q))
        e.access(a[0], p_const(32), g, "write", loc)
        e.quiet += 1; wr(e, a[0], penc(f_add(fp(p), fp(q), sign)), mkand(g, ok), loc); e.quiet -= 1
        return ite(ok, I32(0), I32(-1))
    return f
ext("crypto_core_ristretto255_add", "P+Q, -1 and output untouched if an operand does not decode")(addsub(1))
ext("crypto_core_ristretto255_sub", "P-Q, -1 and output untouched if an operand does not decode")(addsub(-1))
@ext("crypto_scalarmult_ristretto255", "n*P; -1 and output untouched if P does not decode, -1 if the result is the identity")
def _(e, a, g, loc, tag):
    n, p = rd(e, a[1], 32, g, loc), rd(e, a[2], 32, g, loc)
    v = pvalid(p); r = f_mul(smul_scalar(n), fp(p))
    e.access(a[0], p_const(32), g, "write", loc)
    e.quiet += 1; wr(e, a[0], penc(r), mkand(g, v), loc); e.quiet -= 1
    return ite(mkand(v, neg(fzero(r))), I32(0), I32(-1))
@ext("crypto_scalarmult_ristretto255_base", "n*B; -1 if the result is the identity")
def _(e, a, g, loc, tag):
    n = rd(e, a[1], 32, g, loc)
    r = smul_scalar(n); wr(e, a[0], penc(r), g, loc)
    return ite(fzero(r), I32(-1), I32(0))
@ext("crypto_core_ristretto255_from_hash", "the ristretto255 map of 64 bytes")
def _(e, a, g, loc, tag):
    wr(e, a[0], r255map(rd(e, a[1], 64, g, loc)), g, loc); return I32(0)
def r255map(h): return uf("r255map", 256, h)

# ---------------------------------------------------------------- memory protection
@ext("sodium_mlock", "0 or -1, no other effect")
def _(e, a, g, loc, tag):
    f = e.res("mlockfail:" + tag, 0)
    e.access(a[0], ipoly(a[1]), g, "read", loc)
    e.event("mlock", g, (a[0], a[1]), f, loc); return ite(f, I32(-1), I32(0))
@ext("sodium_munlock", "overwrites the range with zero")
def _(e, a, g, loc, tag):
    e.fill(a[0], const(0, 8), a[1], g, loc)
    e.event("munlock", g, (a[0], a[1]), None, loc); return ite(e.res("munlockfail:" + tag, 0), I32(-1), I32(0))
@ext("sodium_memzero", "overwrites the range with zero")
def _(e, a, g, loc, tag):
    e.fill(a[0], const(0, 8), a[1], g, loc); e.event("memzero", g, (a[0], a[1]), None, loc)
def cmpf(kind):
    def f(e, a, g, loc, tag):
        if not isc(a[2]): raise Unsupported("comparison of symbolic length")
        n = cv(a[2])
        if n == 0: return I32(0)
        x, y = rd(e, a[0], n, g, loc), rd(e, a[1], n, g, loc)
        q = beq(x, y)
        if kind == "s": return ite(q, I32(0), I32(-1))
        return ite(q, I32(0), bvor(e.res("cmp:" + tag, 32), I32(1)))
    return f
def beq(x, y):
    """equality of byte strings; group elements and scalars compare by value"""
    def grp(t): return t.op == "penc" or (isc(t) and cv(t) == 0)
    def sc(t): return t.op == "senc" or (isc(t) and cv(t) < alg.L)
    if x.w == 256:
        if x.op == "ite": return ite(x.args[0], beq(x.args[1], y), beq(x.args[2], y))
        if y.op == "ite": return ite(y.args[0], beq(x, y.args[1]), beq(x, y.args[2]))
        if (x.op == "penc" or y.op == "penc"):
            px, py = pvalid(x), pvalid(y)
            return mkand(px, py, fzero(f_add(fp(x), fp(y), -1)))
        if sc(x) and sc(y): return fzero(f_add(fs(x), fs(y), -1))
    return eq(x, y)
ext("sodium_memcmp", "0 iff equal, else -1")(cmpf("s"))
ext("memcmp", "0 iff equal, else nonzero")(cmpf("m"))
ext("bcmp", "0 iff equal, else nonzero")(cmpf("m"))

# ---------------------------------------------------------------- hashes
def hst(alg_, ps, size): return mk("hs", (alg_, ps), 8 * size)
def data(e, p, n, g, loc):
    """bytes at p as a canonical piece list"""
    e.access(p, ipoly(n), g, "read", loc)
    if isc(n) and cv(n) == 0: return pieces_term([])
    qs = ptrs(p, g)
    if len(qs) != 1: raise Unsupported("hash input through pointer choice")
    return pieces_term(e.content(qs[0][1].obj, canon64(qs[0][1].off), n, g))
def hinit(al, size):
    def f(e, a, g, loc, tag):
        x = al
        if al == "b2b":
            kl = a[2]
            key = data(e, a[1], kl, g, loc) if not (isc(kl) and cv(kl) == 0) else pieces_term([])
            x = "b2b:%s:%d" % (cv(a[3]) if isc(a[3]) else a[3].id, key.id if key.args else 0)
        wr(e, a[0], hst(x, pieces_term([]), size), g, loc); return I32(0)
    return f
def hupdate(size):
    def f(e, a, g, loc, tag):
        st = rd(e, a[0], size, g, loc)
        d = data(e, a[1], z64(a[2]), g, loc)
        wr(e, a[0], happ(st, d, size), g, loc)
        e.event("hash", g, (a[0], d), None, loc); return I32(0)
    return f
def happ(st, d, size):
    if st.op == "hs": return hst(st.args[0], pcat(st.args[1], d), size)
    if st.op == "ite": return ite(st.args[0], happ(st.args[1], d, size), happ(st.args[2], d, size))
    return uf("hsapp", 8 * size, st, d)
def hfin(st, n):
    if st.op == "hs": return uf("H:" + st.args[0], 8 * n, st.args[1])
    if st.op == "ite": return ite(st.args[0], hfin(st.args[1], n), hfin(st.args[2], n))
    return uf("hsfin", 8 * n, st)
def _rb_hs(a, w): return mk("hs", a, w)
REBUILD["hs"] = _rb_hs
SHA, B2B = 208, 384
ext("crypto_hash_sha512_init", "SHA-512 (uninterpreted, state = absorbed bytes)")(hinit("sha512", SHA))
ext("crypto_hash_sha512_update", "appends to the absorbed bytes")(hupdate(SHA))
@ext("crypto_hash_sha512_final", "SHA-512 of the absorbed bytes")
def _(e, a, g, loc, tag):
    st = rd(e, a[0], SHA, g, loc); wr(e, a[1], hfin(st, 64), g, loc)
    wr(e, a[0], uf("hsdone:" + tag, 8 * SHA, *e.iters), g, loc); return I32(0)
@ext("crypto_hash_sha512", "SHA-512 of the input")
def _(e, a, g, loc, tag):
    wr(e, a[0], uf("H:sha512", 512, data(e, a[1], z64(a[2]), g, loc)), g, loc); return I32(0)
ext("crypto_generichash_init", "BLAKE2b (uninterpreted, state = absorbed bytes)")(hinit("b2b", B2B))
ext("crypto_generichash_update", "appends to the absorbed bytes")(hupdate(B2B))
@ext("crypto_generichash_final", "BLAKE2b of the absorbed bytes")
def _(e, a, g, loc, tag):
    n = cv(a[2]); st = rd(e, a[0], B2B, g, loc); v = hfin(st, n)
    wr(e, a[1], v, g, loc); e.event("hfinal", g, (st, v), None, loc)
    wr(e, a[0], uf("hsdone:" + tag, 8 * B2B, *e.iters), g, loc); return I32(0)
@ext("crypto_generichash", "BLAKE2b of the input")
def _(e, a, g, loc, tag):
    n = cv(a[1]); kl = a[5]
    key = data(e, a[4], kl, g, loc) if not (isc(kl) and cv(kl) == 0) else pieces_term([])
    wr(e, a[0], uf("H:b2b:%d:%d" % (n, key.id if key.args else 0), 8 * n, data(e, a[2], z64(a[3]), g, loc)), g, loc); return I32(0)

# ---------------------------------------------------------------- signatures, macs, randomness
@ext("randombytes_buf", "fresh random bytes")
def _(e, a, g, loc, tag):
    n = a[1]
    e.access(a[0], ipoly(n), g, "write", loc)
    v = e.res("rndb:" + tag, 8 * cv(n)) if isc(n) else None
    if v is not None:
        e.quiet += 1; wr(e, a[0], v, g, loc); e.quiet -= 1
    else: e.havoc(a[0], n, g, "rndb:" + tag, loc)
    e.event("randombytes", g, (a[0], n, v), None, loc)
@ext("crypto_sign_keypair", "fresh key pair")
def _(e, a, g, loc, tag):
    sk = e.res("sigsk:" + tag, 512); pk = uf("pkof", 256, sk)
    wr(e, a[0], pk, g, loc); wr(e, a[1], sk, g, loc); e.event("keypair", g, (pk, sk), None, loc); return I32(0)
@ext("crypto_sign_detached", "signature over exactly the given bytes with the given key")
def _(e, a, g, loc, tag):
    sk = rd(e, a[4], 64, g, loc); d = data(e, a[2], z64(a[3]), g, loc)
    v = uf("sig", 512, sk, d); wr(e, a[0], v, g, loc)
    if not (isinstance(a[1], Ptr) and a[1].obj is e.heap and isc(a[1].off)): wr(e, a[1], c64(64), g, loc)
    e.event("sign", g, (a[0], a[2], a[3], sk, d, v), None, loc); return I32(0)
@ext("crypto_sign_verify_detached", "0 iff the signature over exactly the given bytes verifies under the given key, else -1")
def _(e, a, g, loc, tag):
    s = rd(e, a[0], 64, g, loc); pk = rd(e, a[3], 32, g, loc); d = data(e, a[1], z64(a[2]), g, loc)
    r = uf("sigok", 0, s, d, pk)
    e.event("verify", g, (a[0], a[1], a[2], a[3], s, d, pk), r, loc); return ite(r, I32(0), I32(-1))
@ext("crypto_auth", "MAC of the bytes under the key")
def _(e, a, g, loc, tag):
    k = rd(e, a[3], 32, g, loc); d = data(e, a[1], z64(a[2]), g, loc)
    wr(e, a[0], uf("mac", 256, k, d), g, loc); e.event("mac", g, (a[0], a[1], a[2], k, d), None, loc); return I32(0)
@ext("crypto_auth_verify", "0 iff the MAC matches, else -1")
def _(e, a, g, loc, tag):
    m = rd(e, a[0], 32, g, loc); k = rd(e, a[3], 32, g, loc); d = data(e, a[1], z64(a[2]), g, loc)
    r = eq(m, uf("mac", 256, k, d)); e.event("macok", g, (a[0], a[1], a[2], k, d), r, loc); return ite(r, I32(0), I32(-1))
@ext("crypto_scalarmult_base", "X25519 public key")
def _(e, a, g, loc, tag):
    wr(e, a[0], uf("x25519base", 256, rd(e, a[1], 32, g, loc)), g, loc); return I32(0)

# ---------------------------------------------------------------- libc
ext("htons", "byte swap")(lambda e, a, g, loc, tag: bswap(a[0]))
ext("ntohs", "byte swap")(lambda e, a, g, loc, tag: bswap(a[0]))
ext("htonl", "byte swap")(lambda e, a, g, loc, tag: bswap(a[0]))
ext("ntohl", "byte swap")(lambda e, a, g, loc, tag: bswap(a[0]))
@ext("time", "arbitrary clock value below 2^62")
def _(e, a, g, loc, tag):
    v = e.res("time:" + tag, 62)
    e.event("time", g, (zext(v, 64),), None, loc)
    return zext(v, 64)
def printf(e, a, g, loc, tag):
    e.event("print", g, tuple(a), None, loc)
    return e.res("printf:" + tag, 32)
for n in ("fprintf", "vfprintf", "printf", "fputs", "fputc", "fwrite", "fflush", "puts", "putchar"): ext(n, "writes to a log stream only")(printf)
@ext("snprintf", "writes at most the given number of bytes, always terminated when the size is nonzero")
def _(e, a, g, loc, tag):
    n = a[1]; e.event("snprintf", g, tuple(a), None, loc)
    gg = mkand(g, neg(eq(n, c64(0))))
    if gg is not FALSE: e.access(a[0], ipoly(n), gg, "write", loc)
    if isc(n): e.havoc(a[0], n, g, "snp:" + tag, loc)
    return e.res("snprintf:" + tag, 32)
@ext("free", "releases memory")
def _(e, a, g, loc, tag): e.event("free", g, (a[0],), None, loc)
@ext("memchr", "pointer or null")
def _(e, a, g, loc, tag): raise Unsupported("memchr")
@ext("strlen", "length")
def _(e, a, g, loc, tag):
    for c, q in ptrs(a[0], g):
        if q.obj.kind == "const" and isc(q.off):
            return c64(q.obj.data.index(0, cv(q.off)) - cv(q.off))
    raise Unsupported("strlen")

# ---------------------------------------------------------------- Noise_XK
def opaque(e, tag, g, k, args, loc, null=True):
    v = e.res("noise:" + tag, 64)
    e.event(k, g, args, v, loc)
    if not null: e.facts.append(neg(eq(v, c64(0))))
    return Ptr(e.heap, v)
def pt(e, p): return e.ptrint(p)
@ext("Noise_XK_device_create", "a device or NULL")
def _(e, a, g, loc, tag): return opaque(e, tag, g, "dev_create", tuple(a), loc)
@ext("Noise_XK_device_add_peer", "a peer or NULL")
def _(e, a, g, loc, tag):
    k = rd(e, a[2], 32, g, loc)
    return opaque(e, tag, g, "add_peer", (pt(e, a[0]), k), loc)
@ext("Noise_XK_peer_get_id", "number")
def _(e, a, g, loc, tag): return uf("peerid", 32, pt(e, a[0]))
@ext("Noise_XK_session_create_initiator", "a new session or NULL")
def _(e, a, g, loc, tag): return opaque(e, tag, g, "sess_new", (pt(e, a[0]), a[1]), loc)
@ext("Noise_XK_session_create_responder", "a new session or NULL")
def _(e, a, g, loc, tag): return opaque(e, tag, g, "sess_new", (pt(e, a[0]),), loc)
@ext("Noise_XK_pack_message_with_conf_level", "a message")
def _(e, a, g, loc, tag):
    d = data(e, a[2], z64(a[1]), g, loc) if not (isc(a[1]) and cv(a[1]) == 0) else pieces_term([])
    p = opaque(e, tag, g, "pack", (a[0], a[1], d), loc)
    return p
@ext("Noise_XK_session_write", "success with a new ciphertext buffer, or failure")
def _(e, a, g, loc, tag):
    ok = e.res("nwok:" + tag, 0); ln = e.res("nwlen:" + tag, 32)
    buf = e.res("nwbuf:" + tag, 64)
    wr(e, a[2], ln, g, loc); e.store(a[3], Ptr(e.heap, buf), 8, g, loc)
    e.facts.append(neg(eq(buf, c64(0))))
    e.event("sess_write", g, (pt(e, a[1]), pt(e, a[0]), ln, buf), ok, loc)
    return zext(b2i(neg(ok), 8), 16)
@ext("Noise_XK_session_read", "success with a new message, or failure")
def _(e, a, g, loc, tag):
    d = data(e, a[3], z64(a[2]), g, loc)
    ok = e.res("nrok:" + tag, 0); m = e.res("nrmsg:" + tag, 64)
    e.store(a[0], Ptr(e.heap, m), 8, g, loc)
    e.event("sess_read", g, (pt(e, a[1]), d, m), ok, loc)
    return zext(b2i(neg(ok), 8), 16)
@ext("Noise_XK_rcode_is_success", "tag test")
def _(e, a, g, loc, tag): return eq(trunc(a[0], 8), const(0, 8))
@ext("Noise_XK_unpack_message_with_auth_level", "plaintext if the message has the required authentication level; a plaintext that is not empty is not NULL")
def _(e, a, g, loc, tag):
    ok = e.res("nuok:" + tag, 0); ln = e.res("nulen:" + tag, 32); buf = e.res("nubuf:" + tag, 64)
    ps = tuple(var("nu!%d" % k, 64) for k in range(len(e.iters))); q = lambda n, w: uf(n + tag, w, *ps)
    engine.SCHEMA["nubuf:" + tag] = [(ps, imp(mkand(q("nuok:", 0), neg(eq(q("nulen:", 32), const(0, 32)))), neg(eq(q("nubuf:", 64), c64(0)))))]
    wr(e, a[0], ln, g, loc); e.store(a[1], Ptr(e.heap, buf), 8, g, loc)
    e.event("unpack", g, (pt(e, a[3]), a[2], ln, buf), ok, loc)
    return ok
@ext("Noise_XK_session_get_peer_id", "number")
def _(e, a, g, loc, tag): return uf("sesspeer", 32, pt(e, a[0]))
@ext("Noise_XK_device_lookup_peer_by_id", "a peer or NULL")
def _(e, a, g, loc, tag): return opaque(e, tag, g, "lookup", (pt(e, a[0]),), loc)
@ext("Noise_XK_peer_get_info", "stores a pointer or NULL")
def _(e, a, g, loc, tag): e.store(a[0], Ptr(e.heap, e.res("info:" + tag, 64)), 8, g, loc)
@ext("Noise_XK_session_free", "releases the session")
def _(e, a, g, loc, tag): e.event("sess_free", g, (pt(e, a[0]),), None, loc)
@ext("Noise_XK_device_free", "releases the device")
def _(e, a, g, loc, tag): e.event("dev_free", g, (pt(e, a[0]),), None, loc)
@ext("Noise_XK_encap_message_p_free", "releases the message")
def _(e, a, g, loc, tag): e.event("encap_free", g, (pt(e, a[0]),), None, loc)
@ext("Noise_XK_aead_decrypt", "0 and the plaintext iff authentic")
def _(e, a, g, loc, tag):
    k = rd(e, a[0], 32, g, loc); n = cv(a[4])
    c = rd(e, a[6], n + 16, g, loc)
    ok = uf("aeadok", 0, k, c)
    wr(e, a[5], uf("aeaddec", 8 * n, k, c), g, loc)
    e.event("aead", g, (k, c), ok, loc)
    return ite(ok, const(0, 8), bvor(e.res("aeaderr:" + tag, 8), const(1, 8)))
