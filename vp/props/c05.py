"""C05: generated keys are valid NTRU keys, consistent and reproducible."""
import math
from hypothesis import strategies as st
from ..core import Facet, check
from .. import model as M
from ..cprops import *
from ..clib import Lib, SK, PK, PK16
from ..gen import Rng, blob, unblob, ubytes, seeds
from .. import keystream as KS
import ctypes as C
import numpy as np


def build(b):
    a = build_std(b)
    a['fake'] = b.fakexof()
    return a


def ntru_ok(f, g, F, h, what):
    n = len(f)
    check((M.mulq(f, h) == np.array(g) % M.Q).all() if n >= 2 else True, what + ': public key is not g/f')
    check(all(0 <= x < M.Q for x in h), what + ': public key coefficient not canonical')
    G = [int(x) for x in M.centered(M.mulq(F, h))]
    eq = M.negmul(f, G) - M.negmul(g, F)
    check(eq[0] == M.Q and not eq[1:].any(), what + ': f*G - g*F != q')
    return G


def gs_norms(f, g):
    """squared Gram-Schmidt norms (first vector, second vector)"""
    n = len(f)
    k = np.arange(n)
    w = np.exp(1j * np.pi * k / n)
    ff = np.fft.fft(np.array(f) * w)
    gg = np.fft.fft(np.array(g) * w)
    d = abs(ff) ** 2 + abs(gg) ** 2
    return float((np.array(f, dtype=float) ** 2).sum() + (np.array(g, dtype=float) ** 2).sum()), float((M.Q ** 2 / d).sum() / n)


def seed_of(case):
    s = case['seed']
    if 'flip' in case and case['flip'] is not None and s['n'] > 0:
        pass
    return unblob(s)


def run_api(ctx, case):
    L = lib(ctx, case['lib'])
    seed = unblob(case['seed'])
    labels = []
    r, pk, sk = L.keypair_seed('nist', seed)
    r2, pk16, sk16 = L.keypair_seed('zk', seed)
    if len(seed) < 32:
        check(r != 0, 'a %d-byte seed is accepted (NIST)' % len(seed))
        check(r2 != 0, 'a %d-byte seed is accepted (EVM)' % len(seed))
        return ['!short-seed']
    check(r == 0 and r2 == 0, 'key generation refuses a %d-byte seed' % len(seed))
    check(pk[PK:] == b'\xEE' * 32 and sk[SK:] == b'\xEE' * 32 and pk16[PK16:] == b'\xEE' * 32 and sk16[SK:] == b'\xEE' * 32,
          'key generation writes beyond the advertised sizes')
    pk, sk, pk16, sk16 = pk[:PK], sk[:SK], pk16[:PK16], sk16[:SK]
    check(sk[0] == 0x59 and sk16[0] == 0x59 and pk[0] == 9 and pk16[0] == 9, 'header bytes')
    check(sk == sk16, 'NIST and EVM generators disagree on the secret key')
    h = M.pk14_decode(pk)
    f, g, F = M.sk_decode(sk)
    for nm, v, b in (('f', f, 31), ('g', g, 31), ('F', F, 127)):
        check(max(abs(x) for x in v) <= b, nm + ' holds the forbidden minimum value')
    G = ntru_ok(f, g, F, h, 'key')
    check(max(abs(x) for x in G) <= 127, 'G out of range')
    a, b = gs_norms(f, g)
    check(a < 16822.4121 + 1e-3 and b < 16822.4121 + 1e-3, 'Gram-Schmidt norm too large: %f %f' % (a, b))
    check((M.ntt(f) != 0).all(), 'f is not invertible')
    hn = M.pk16_decode(pk16)
    check(max(hn) < M.Q, 'EVM public key coefficient not canonical')
    check([int(x) for x in M.ntt(h)] == hn, 'EVM public key is not the NTT of the public key')
    # determinism, on a dirty heap/stack and after other operations
    L.keypair_seed('zk', b'other' * 9)
    check(L.keypair_seed('nist', seed)[1:] == (pk + b'\xEE' * 32, sk + b'\xEE' * 32), 'same seed, different key')
    # sensitivity
    i = case['i'] % len(seed)
    for t in (seed[:i] + bytes([seed[i] ^ (1 << case['b'])]) + seed[i + 1:], seed + b'\x00', seed[:-1] if len(seed) > 32 else seed + b'\x01'):
        q = L.keypair_seed('nist', t)
        check(q[1][:PK] != pk and q[2][:SK] != sk, 'a changed seed (length %d -> %d, byte %d) gives the same key' % (len(seed), len(t), i))
        labels.append('!')
    # the random-source entry points use one 48-byte draw
    if case['b'] == 0:
        s48 = (seed * 2)[:48]
        for fmt in ('nist', 'zk'):
            r, p, s = L.keypair(fmt, s48)
            check(r == 0 and L.rb_sizes() == [48], '%s keypair draws %s' % (fmt, L.rb_sizes()))
            check((p, s) == L.keypair_seed(fmt, s48)[1:], '%s keypair differs from the seeded one' % fmt)
        labels.append('random-source')
    labels.append('seedlen-48' if len(seed) == 48 else 'seedlen-other')
    return labels


def strat_api(ctx=None):
    return st.fixed_dictionaries({
        'lib': st.sampled_from(['nist', 'eth']),
        'seed': st.one_of(st.fixed_dictionaries({'n': st.one_of(st.sampled_from([32, 33, 40, 48, 64, 135, 136, 137, 300]),
                                                               st.integers(32, 64), st.integers(0, 31)),
                                                 's': st.integers(0, 2 ** 20)}), blob(600)),
        'i': st.integers(0, 1000), 'b': st.integers(0, 7)})


def corners_api(ctx):
    return [{'lib': 'nist', 'seed': {'n': n, 's': 0}, 'i': n, 'b': 0} for n in (0, 1, 16, 31, 32, 33, 47, 48, 49, 64, 136, 4096)] + \
        [{'lib': 'nist', 'seed': {'n': 48, 's': 9}, 'i': i, 'b': i % 8} for i in range(48)]


TEMP = {1: 136, 2: 272}


def gen_inner(L, sc, logn, wantG):
    """one call of the internal generator, with every check on what it returns"""
    n = 1 << logn
    f = (C.c_int8 * n)()
    g = (C.c_int8 * n)()
    F = (C.c_int8 * n)()
    G = (C.c_int8 * n)()
    h = (C.c_uint16 * n)()
    sz = TEMP.get(logn, 28 << logn)
    tmp = (C.c_uint64 * (sz // 8 + 9))()
    tmp[sz // 8] = 0x1122334455667788
    L.z('keygen')(sc, f, g, F, G if wantG else None, h, logn, tmp)
    check(tmp[sz // 8] == 0x1122334455667788, 'keygen wrote beyond its temporary area')
    fl, gl, Fl, hl = list(f), list(g), list(F), list(h)
    G2 = ntru_ok(fl, gl, Fl, hl, 'degree %d' % n)
    if wantG:
        check(list(G) == G2, 'degree %d: returned G is not the one of the NTRU equation' % n)
    a, b = gs_norms(fl, gl)
    check(a < 16823 and b < 16823, 'degree %d: Gram-Schmidt norm %f %f' % (n, a, b))
    check(max(map(abs, fl + gl)) < 1 << (FBITS[logn] - 1) and max(map(abs, Fl + G2)) <= 127, 'degree %d: coefficient range' % n)
    # helper functions agree
    t = (C.c_uint64 * (n + 8))()
    h2 = (C.c_uint16 * n)()
    check(L.z('compute_public')(h2, f, g, logn, t) == 1 and list(h2) == hl, 'compute_public disagrees (degree %d)' % n)
    Gc = (C.c_int8 * n)()
    check(L.z('complete_private')(Gc, f, g, F, logn, t) == 1 and list(Gc) == G2, 'complete_private disagrees (degree %d)' % n)
    return fl, gl, Fl


FBITS = [0, 8, 8, 8, 8, 8, 7, 7, 6, 6, 5]


def run_inner(ctx, case):
    """internal generator for every degree 2..1024"""
    L = lib(ctx)
    logn = case['logn']
    seed = ubytes('inner', case['s'], 40)

    def ctx_for():
        sc = C.create_string_buffer(L.d.vp_sizeof_shake())
        L.d.vp_shake_init(sc)
        L.d.vp_shake_inject(sc, seed, C.c_size_t(40))
        L.d.vp_shake_flip(sc)
        return sc
    f, g, F = gen_inner(L, ctx_for(), logn, case['wantG'])
    if case['s'] % 4 == 0:
        # without the optional outputs
        n = 1 << logn
        o = [(C.c_int8 * n)() for _ in range(3)]
        tmp = (C.c_uint64 * (TEMP.get(logn, 28 << logn) // 8 + 9))()
        L.z('keygen')(ctx_for(), o[0], o[1], o[2], None, None, logn, tmp)
        check([list(x) for x in o] == [f, g, F], 'degree %d: another key when the public key is not asked for' % n)
    return ['!deg%d' % (1 << logn)]


def run_steered(ctx, case):
    """The generator's random stream starts with chosen candidates that must be thrown away."""
    L = ctx.get('fake', lambda: Lib(ctx.art['fake']))
    pool = ctx.get('tablepool', lambda: KS.TablePool(Rng('tablepool')))
    rng = Rng('steer', case['s'])
    logn = case['logn']
    n = 1 << logn
    stream, used = b'', []
    for kind in case['kinds']:
        c = KS.candidate(n, kind, rng, slot=[0, 1, n // 2, n - 1, case['slot']][case['at']], fgmax=(1 << (FBITS[logn] - 1)) - 1)
        if c is None:
            continue
        pf, pg = (KS.poly(pool, p, 1024 // n, rng) for p in c)
        if pf and pg:
            stream += pf + pg
            used.append((kind, c))
    if not used:
        return []
    d = L.d
    buf = C.create_string_buffer(stream, len(stream))
    d.vp_fake_set(buf, C.c_size_t(len(stream)))
    d.vp_fake_seed(C.c_uint64(case['s'] + 77))
    sc = C.create_string_buffer(d.vp_sizeof_shake())
    d.vp_shake_init(sc)
    d.vp_shake_flip(sc)
    f, g, _ = gen_inner(L, sc, logn, True)
    if C.c_ulong.in_dll(d, 'vp_fake_calls').value == 0:
        return []                                     # another source of randomness
    check((M.ntt(f) != 0).all(), 'degree %d: f is not invertible' % n)
    return ['!' + k for k, c in used]


def strat_steered(ctx=None):
    return st.fixed_dictionaries({'logn': st.sampled_from([1, 2, 3, 4, 5, 6, 7, 8, 9, 10]), 's': st.integers(0, 2 ** 20),
                                  'kinds': st.lists(st.sampled_from(['slot', 'slot', 'gcd', 'coef', 'norm', 'bnorm', 'gslot']), min_size=1, max_size=3),
                                  'at': st.integers(0, 4), 'slot': st.integers(0, 1023)})


def strat_inner(ctx=None):
    return st.fixed_dictionaries({'logn': st.sampled_from([1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 1, 2, 3, 4, 5, 6]), 's': seeds(), 'wantG': st.booleans()})


def one_zero(rng, n, b, slot):
    """coefficients within +-b whose NTT is zero in the given slot, or None"""
    x1 = int(M.ntt([0, 1] + [0] * (n - 2))[slot])
    pw = [pow(x1, m, M.Q) for m in range(n)]
    for _ in range(60):
        f = [rng.randint(-b, b) for _ in range(n)]
        i, j = rng.below(n), rng.below(n)
        if i == j:
            continue
        t = -sum(c * w for m, (c, w) in enumerate(zip(f, pw)) if m not in (i, j)) % M.Q
        tab = {c * pw[i] % M.Q: c for c in range(-b, b + 1)}
        for c in range(-b, b + 1):
            d = tab.get((t - c * pw[j]) % M.Q)
            if d is not None:
                f[i], f[j] = d, c
                return f
    return None


def run_priv(ctx, case):
    """compute_public / complete_private / is_invertible on arbitrary small polynomials (also non-invertible ones)."""
    L = lib(ctx)
    from ..gen import Rng
    rng = Rng('priv', case['s'])
    logn = case['logn']
    n = 1 << logn
    b = case['b']
    f = [rng.randint(-b, b) for _ in range(n)]
    g = [rng.randint(-b, b) for _ in range(n)]
    if case['zero'] == 1:
        f = [0] * n
    elif case['zero'] == 2:
        f = one_zero(rng, n, b, (case['root'] if case['root'] < 1024 else n - 1) % n) or f
    arr = lambda T, v: (T * n)(*v)
    t = (C.c_uint64 * (n + 8))()
    h = (C.c_uint16 * n)()
    r = L.z('compute_public')(h, arr(C.c_int8, f), arr(C.c_int8, g), logn, t)
    inv = (M.ntt(f) != 0).all()
    check(r == (1 if inv else 0), 'compute_public returned %d, f %sinvertible' % (r, '' if inv else 'not '))
    if inv:
        check((M.mulq(f, list(h)) == np.array(g) % M.Q).all() and max(h) < M.Q, 'compute_public: f*h != g')
    else:
        F = [rng.randint(-b, b) for _ in range(n)]
        check(L.z('complete_private')(arr(C.c_int8, F), arr(C.c_int8, f), arr(C.c_int8, g), arr(C.c_int8, F), logn, t) == 0, 'complete_private accepts an f which is not invertible')
    # a polynomial with a chosen number of roots
    s = [rng.below(M.Q) for _ in range(n)]
    sn = M.ntt(s)
    k = case['roots'] % (n + 1)
    for i in range(k):
        sn[(i * 7 + case['root']) % n] = 0
    s = [int(x) for x in M.centered(M.intt(sn))]
    z = int((M.ntt(s) == 0).sum())
    a16 = arr(C.c_int16, s)
    check(L.z('is_invertible')(a16, logn, t) == (1 if z == 0 else 0), 'is_invertible wrong for %d NTT zeros' % z)
    check(L.z('count_nttzero')(a16, logn, t) == z, 'count_nttzero wrong, expected %d' % z)
    return ['!roots' if z else '!inv']


def strat_priv(ctx=None):
    return st.fixed_dictionaries({'logn': st.integers(1, 10), 's': seeds(), 'b': st.integers(0, 127), 'zero': st.sampled_from([0, 0, 0, 1, 2, 2, 2]),
                                  'roots': st.one_of(st.just(0), st.integers(0, 3), st.integers(0, 1024)), 'root': st.integers(0, 1030)})


def run_complete(ctx, case):
    """complete_private with a known G = u*F: accepted exactly when every coefficient of G is within +-127."""
    L = lib(ctx)
    from ..gen import Rng
    rng = Rng('compl', case['s'])
    logn = case['logn']
    n = 1 << logn
    for _ in range(20):
        f = [rng.randint(-2, 2) for _ in range(n)] if case['f'] else [1] + [0] * (n - 1)
        if (M.ntt(f) != 0).all():
            break
    else:
        return []
    a, b = case['ab']
    k = case['k'] % n
    u = [0] * n
    u[k] = a
    g = [0] * n
    for i in range(n):
        g[(i + k) % n] += (f[i] if i + k < n else -f[i]) * a
    m = max(1, 126 // abs(a))
    F = [rng.randint(-m, m) for _ in range(n)]
    for j in case['at']:
        F[j % n] = b
    if max(map(abs, g)) > 127 or max(F) > 127 or min(F) < -128:
        return []
    G = [0] * n
    for i in range(n):
        G[(i + k) % n] += (F[i] if i + k < n else -F[i]) * a
    arr = lambda v: (C.c_int8 * n)(*v)
    t = (C.c_uint64 * (n + 8))()
    out = (C.c_int8 * n)()
    exp = max(map(abs, G)) <= 127
    r = L.z('complete_private')(out, arr(f), arr(g), arr(F), logn, t)
    what = 'complete_private (degree %d, coefficients of G up to %d)' % (n, max(G, key=abs))
    check(r == (1 if exp else 0), what + ' returned %d' % r)
    if exp:
        check(list(out) == G, what + ': wrong G')
    return ['!in-range' if exp else '!out-of-range']


AB = [(1, 126), (1, 127), (1, -127), (1, -128), (-1, 127), (-1, -128), (2, 63), (2, 64), (2, -64), (3, 43), (-3, 43), (5, 26), (8, 16), (8, -16), (4, 100)]


def strat_complete(ctx=None):
    return st.fixed_dictionaries({'logn': st.integers(1, 10), 's': seeds(), 'f': st.integers(0, 1), 'k': st.integers(0, 1023),
                                  'ab': st.sampled_from(AB).map(list), 'at': st.lists(st.integers(0, 1023), max_size=3)})


FACETS = [
    Facet('api', strat_api, run_api, 1200, 30000, corners_api, rule='seeds of length 0..600; non-trivial = full key checks with changed seeds, or short seed'),
    Facet('degrees', strat_inner, run_inner, 1200, 30000, [{'logn': l, 's': s, 'wantG': True} for l in range(1, 11) for s in (1, 4)],
          rule='internal generator at degrees 2..1024; all non-trivial'),
    Facet('helpers', strat_priv, run_priv, 3000, 60000, [{'logn': l, 's': 7, 'b': b, 'zero': 2, 'roots': 1, 'root': r} for l in range(1, 11) for b in (31, 127) for r in (0, 1, 2, (1 << l) // 2, 1024)],
          rule='arbitrary f, g and polynomials with chosen NTT zeros; all non-trivial'),
    Facet('completion', strat_complete, run_complete, 2500, 50000,
          [{'logn': l, 's': 1, 'f': 0, 'k': 0, 'ab': list(ab), 'at': [at]} for l in (1, 5, 9) for ab in AB for at in (0, 511, 1023)],
          rule='G recomputed from f, g, F around its +-127 range; all non-trivial'),
    Facet('steered', strat_steered, run_steered, 600, 12000,
          [{'logn': l, 's': 5 + i, 'kinds': [k], 'at': a, 'slot': 1} for l in range(1, 11) for k, a in (('slot', 0), ('slot', 1), ('slot', 2), ('slot', 3), ('gcd', 0), ('coef', 0), ('norm', 0), ('bnorm', 0)) for i in (0, 1)],
          rule='the random stream begins with candidates to be refused: f with a zero in one chosen NTT slot, resultants with a common prime, a coefficient beyond the limit, a norm just above the bound; non-trivial = such a stream was used'),
]
