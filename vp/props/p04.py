"""P04: Python keys are valid NTRU keys and survive every serialisation unchanged."""
import ctypes as C
import contextlib
import io
import math
import os
from hypothesis import strategies as st
from ..core import Facet, check, sut
from .. import model as M
from .. import pyref
from ..pyprops import *
from ..cprops import build_std, lib
from ..gen import Rng, blob, unblob, seeds, ubytes
from .c05 import gs_norms, FBITS
from .. import keystream as KS


def build(b):
    return build_std(b)


def setup_worker(ctx):
    pyref.setup()


def negmul_big(a, b):
    n = len(a)
    o = [0] * n
    for i, x in enumerate(a):
        if x:
            for j, y in enumerate(b):
                if i + j < n:
                    o[i + j] += x * y
                else:
                    o[i + j - n] -= x * y
    return o


def ntru_eq(f, g, F, G, what):
    for nm, v in (('f', f), ('g', g), ('F', F), ('G', G)):
        check(len(v) == len(f) and all(isinstance(x, int) for x in v), '%s: %s is not a list of %d integers' % (what, nm, len(f)))
    if max(map(abs, f + g + F + G)) < 2 ** 24:
        eq = [int(x) for x in M.negmul(f, G) - M.negmul(g, F)]
    else:
        eq = [a - b for a, b in zip(negmul_big(f, G), negmul_big(g, F))]
    check(eq[0] == M.Q and not any(eq[1:]), what + ': f*G - g*F != q')


def gen_key(N, n, rb, lg, what):
    """one generated key, with every check on it"""
    with sut(what):
        f, g, F, G = N.ntru_gen(n, randombytes=rb, logn=lg)
    ntru_eq(f, g, F, G, what)
    a, b = gs_norms(f, g)
    check(a < 1.17 ** 2 * M.Q + 1e-3 and b < 1.17 ** 2 * M.Q + 1e-3, '%s: Gram-Schmidt norm %f %f' % (what, a, b))
    check((M.ntt(f) != 0).all(), what + ': f is not invertible modulo q')
    k = 2 ** 13 if n >= 16 else 2 ** 20
    check(max(map(abs, F + G)) < k, what + ': F, G are not reduced')
    with sut('SecretKey'):
        sk = pyref.mod('falcon').SecretKey(n, [list(f), list(g), list(F), list(G)])
    h = [int(x) for x in M.divq(g, f)]
    check([int(x) for x in sk.h] == h, what + ': public key is not g/f')
    check((sk.f, sk.g, sk.F, sk.G) == (f, g, F, G), 'SecretKey changes the polynomials')
    return f, g, F, G


def run_gen(ctx, case):
    N = pyref.mod('ntrugen')
    n = case['n']
    lg = LOGN[n] if case['mk'] else None
    what = 'ntru_gen(%d%s)' % (n, ', C-compatible sampler' if lg else '')
    r1 = Stream('g', case['s'])
    f, g, F, G = gen_key(N, n, r1, lg, what)
    labels = ['!n%d' % n]
    if n <= 16:
        r2 = Stream('g', case['s'])
        with sut(what):
            check(N.ntru_gen(n, randombytes=r2, logn=lg) == (f, g, F, G) and r1.sizes == r2.sizes, what + ': same randomness, different key')
            if not lg:
                sk2 = pyref.mod('falcon').SecretKey(n, randombytes=Stream('g', case['s']))
                check((sk2.f, sk2.g, sk2.F, sk2.G) == (f, g, F, G), 'SecretKey(n, randombytes) differs from ntru_gen')
            check(N.ntru_gen(n, randombytes=Stream('g', case['s'], 1), logn=lg) != (f, g, F, G) or n == 2, what + ': other randomness, same key')
    return labels


def run_system_key(ctx, case):
    """keys from the default source of randomness: valid, and different"""
    N, F = pyref.mod('ntrugen'), pyref.mod('falcon')
    n = case['n']
    lg = LOGN[n] if case['mk'] else None
    what = 'default randomness, ' + ('ntru_gen(%d%s)' % (n, ', C-compatible sampler' if lg else '') if case['direct'] or lg else 'SecretKey(%d)' % n)
    keys = []
    with pyref.system_random(Stream('sysk', case['s'])) as u:
        for _ in range(2):
            with sut(what):
                if case['direct'] or lg:
                    k = N.ntru_gen(n, logn=lg) if lg else N.ntru_gen(n)
                else:
                    sk = F.SecretKey(n)
                    k = sk.f, sk.g, sk.F, sk.G
            ntru_eq(*k, what)
            keys.append(k)
    check(keys[0] != keys[1], what + ': the same key twice')
    return ['!n%d' % n] + (['!seen'] if u.used else ['not intercepted'])


class Prefix:
    """random source: chosen bytes, then a pseudorandom stream"""

    def __init__(self, b, *seed):
        self.b, self.p, self.r = b, 0, Rng(*seed)

    def __call__(self, k):
        o = self.b[self.p:self.p + k]
        self.p += len(o)
        return o + self.r.bytes(k - len(o)) if len(o) < k else o


def run_steered(ctx, case):
    """The random source starts with chosen candidates that the generator must throw away."""
    N = pyref.mod('ntrugen')
    n, mk = case['n'], case['mk']
    lg = LOGN[n] if mk else None
    pool = ctx.get(('pool', mk), lambda: (KS.TablePool if mk else KS.SamplerPool)(Rng('pool')))
    rng = Rng('steer', case['s'])
    stream, used = b'', []
    for kind in case['kinds']:
        c = KS.candidate(n, kind, rng, slot=[0, 1, n // 2, n - 1, case['slot']][case['at']], fgmax=(1 << (FBITS[LOGN[n]] - 1)) - 1, odd=mk or kind != 'slot')
        if c is None:
            continue
        pf, pg = (KS.poly(pool, p, (1024 if mk else 4096) // n, rng) for p in c)
        if pf and pg:
            stream += pf + pg
            used.append(kind)
    if not used:
        return []
    gen_key(N, n, Prefix(stream, 'tail', case['s']), lg, 'ntru_gen(%d%s) on a chosen stream' % (n, ', C-compatible sampler' if lg else ''))
    return ['!' + k for k in used]


def strat_steered(ctx=None):
    return st.fixed_dictionaries({'n': st.sampled_from([2, 4, 8, 16, 2, 4, 8, 32]), 'mk': st.booleans(), 's': st.integers(0, 2 ** 20),
                                  'kinds': st.lists(st.sampled_from(['slot', 'slot', 'gcd', 'norm', 'bnorm', 'gslot']), min_size=1, max_size=2),
                                  'at': st.integers(0, 4), 'slot': st.integers(0, 1023)})


def corners_steered(ctx):
    c = [{'n': n, 'mk': mk, 's': 3, 'kinds': [k], 'at': a, 'slot': 1} for n in (2, 8, 16) for mk in (False, True)
         for k, a in (('slot', 0), ('slot', 1), ('slot', 2), ('slot', 3), ('gcd', 0), ('norm', 0), ('bnorm', 0))]
    c += [{'n': n, 'mk': mk, 's': 4, 'kinds': ['slot'], 'at': a, 'slot': 1} for n in (64,) for mk in (False, True) for a in (0, 3)]
    return c + ([{'n': n, 'mk': mk, 's': 4, 'kinds': ['slot'], 'at': a, 'slot': 1} for n in (128, 256, 512) for mk in (False, True) for a in (0, 3)] if ctx.tier == 'thorough' else [])


def strat_gen(ctx=None):
    return st.fixed_dictionaries({'n': st.sampled_from([2, 2, 4, 4, 8, 8, 16, 16, 32, 64]), 'mk': st.booleans(), 's': seeds()})


def corners_gen(ctx):
    return [{'n': n, 'mk': m, 's': 1} for n in (2, 4, 8, 16, 32, 64) for m in (False, True)] + \
        [{'n': 128, 'mk': m, 's': 2} for m in (False, True)] + ([{'n': 256, 'mk': True, 's': 3}, {'n': 512, 'mk': True, 's': 3}] if ctx.tier == 'thorough' else [{'n': 256, 'mk': True, 's': 3}])


def run_cgen(ctx, case):
    """with the C-compatible sampler and the same SHAKE stream, the candidate polynomials are those of C."""
    L = lib(ctx)
    logn = case['logn']
    n = 1 << logn
    seed = ubytes('cg', case['s'], 48)
    sc = C.create_string_buffer(L.d.vp_sizeof_shake())
    L.d.vp_shake_init(sc)
    L.d.vp_shake_inject(sc, seed, C.c_size_t(48))
    L.d.vp_shake_flip(sc)
    f, g, F, G = [(C.c_int8 * n)() for _ in range(4)]
    h = (C.c_uint16 * n)()
    tmp = (C.c_uint64 * ((28 << 10) // 8 + 9))()
    L.z('keygen')(sc, f, g, F, G, h, logn, tmp)
    cf, cg = list(f), list(g)
    MK = pyref.mod('mkgauss')
    N = pyref.mod('ntrugen')
    import hashlib
    buf = io.BytesIO(hashlib.shake_256(seed).digest(6000000 if n <= 64 else 12000000))
    # the accepted candidate of C appears in the Python sequence of candidates
    for t in range(200 if n <= 64 else 40):
        with sut('poly_small_mkgauss'):
            a = MK.poly_small_mkgauss(buf.read, n, logn)
            b = MK.poly_small_mkgauss(buf.read, n, logn)
        check(sum(a) % 2 == 1 and sum(b) % 2 == 1 and max(map(abs, a + b)) <= 127, 'poly_small_mkgauss(%d): even sum or coefficient out of range' % n)
        if a == cf and b == cg:
            break
    else:
        check(False, 'degree %d: the C-compatible sampler does not produce the polynomials C draws from the same stream' % n)
    with sut('gs_norm'):
        check(N.gs_norm(a, b, M.Q) <= 1.17 ** 2 * M.Q + 0.01, 'gs_norm refuses a key C accepts')
    with sut('ntru_solve'):
        pF, pG = N.ntru_solve(list(a), list(b))
    ntru_eq(a, b, list(pF), list(pG), 'ntru_solve on a C key of degree %d' % n)
    return ['!deg%d' % n, 'sameF' if list(pF) == list(F) else 'otherF']


def strat_cgen(ctx=None):
    return st.fixed_dictionaries({'logn': st.sampled_from([1, 2, 3, 4, 5, 6, 1, 2, 3, 4]), 's': seeds()})


def fnorm(a):
    """field norm down to Z, exactly."""
    while len(a) > 1:
        n2 = len(a) // 2
        e, o = a[::2], a[1::2]
        ee, oo = negmul_big(e, e), negmul_big(o, o)
        # multiply oo by x
        xo = [-oo[-1]] + oo[:-1]
        a = [x - y for x, y in zip(ee, xo)]
    return a[0]


def run_solve(ctx, case):
    N = pyref.mod('ntrugen')
    n = case['n']
    r = Rng('sv', case['s'])
    sd = math.sqrt(case['w'] / (2 * n))
    gg = r.np()
    f = [int(round(x)) for x in gg.normal(0, sd, n)]
    g = [int(round(x)) for x in gg.normal(0, sd, n)]
    if case['par']:
        f = [2 * x for x in f] if case['par'] == 1 else [x + (sum(f) % 2 if i == 0 else 0) for i, x in enumerate(f)]
        g = [x + (sum(g) % 2 if i == 0 else 0) for i, x in enumerate(g)]
    try:
        a, b = gs_norms(f, g)
    except ZeroDivisionError:
        return []
    if not (a <= 16822.4 and b <= 16822.4):
        # gs_norm must say so too
        if a > 1 and math.isfinite(b) and max(a, b) > 16823:
            with sut('gs_norm'):
                check(N.gs_norm(list(f), list(g), M.Q) > 16822.5, 'gs_norm accepts a pair with norms %f %f' % (a, b))
            return ['!norm-refused']
        return []
    with sut('gs_norm'):
        v = N.gs_norm(list(f), list(g), M.Q)
    check(abs(v - max(a, b)) < 1e-6 * v, 'gs_norm gives %f, expected %f' % (v, max(a, b)))
    d = math.gcd(fnorm(f), fnorm(g))
    f0, g0 = list(f), list(g)
    try:
        F, G = N.ntru_solve(f, g)
        ok = True
    except ValueError:
        ok = False
    except Exception as e:
        check(False, 'ntru_solve raises %s' % type(e).__name__)
    check(f == f0 and g == g0, 'ntru_solve changes its arguments')
    check(ok == (d == 1), 'ntru_solve %s a pair whose norms have gcd %d' % ('accepts' if ok else 'refuses', d))
    if not ok:
        return ['!refused']
    ntru_eq(f, g, [int(x) for x in F], [int(x) for x in G], 'ntru_solve, degree %d' % n)
    return ['!solved']


def strat_solve(ctx=None):
    return st.fixed_dictionaries({'n': st.sampled_from([2, 4, 8, 16, 32]), 's': seeds(), 'w': st.sampled_from([10000, 12000, 14000, 16000]), 'par': st.sampled_from([0, 0, 0, 1, 2])})


def run_mul(ctx, case):
    """the exact polynomial helpers behind the solver."""
    N = pyref.mod('ntrugen')
    n, bits = case['n'], case['bits']
    r = Rng('mul', case['s'])
    big = lambda: [r.randint(-(1 << bits), 1 << bits) if r.below(5) else 0 for _ in range(n)]
    a, b = big(), big()
    a0, b0 = list(a), list(b)
    with sut('karamul'):
        p = N.karamul(a, b)
    check(list(p) == negmul_big(a0, b0), 'karamul is wrong at degree %d with %d-bit coefficients' % (n, bits))
    check(a == a0 and b == b0, 'karamul changes its arguments')
    if n >= 2:
        with sut('field_norm'):
            fn = N.field_norm(a)
            gc = N.galois_conjugate(a)
            l = N.lift(fn)
        check(gc == [x if i % 2 == 0 else -x for i, x in enumerate(a0)], 'galois_conjugate')
        check(list(l) == negmul_big(a0, gc), 'field_norm: norm(a) != a * conj(a)')
    with sut('xgcd'):
        x, y = abs(a[0]), abs(b[0])
        d, u, v = N.xgcd(x, y)
    check(d == math.gcd(x, y) and u * x + v * y == d, 'xgcd(%d, %d)' % (x, y))
    with sut('bitsize'):
        check(N.bitsize(a[0]) == (abs(a[0]).bit_length() + 7) // 8 * 8, 'bitsize')
    return ['!']


def strat_mul(ctx=None):
    return st.fixed_dictionaries({'n': st.sampled_from([1, 2, 4, 8, 16, 32, 64]), 'bits': st.sampled_from([1, 7, 30, 53, 64, 200, 2000]), 's': seeds()})


# ---- codecs
def run_codec(ctx, case):
    FC = pyref.mod('falcon_codec')
    L = lib(ctx)
    logn = case['logn']
    n = 1 << logn
    r = Rng('cd', case['s'])
    kind = case['kind']
    if kind == 'modq':
        v = [r.choice([0, 12288, 1, r.below(12289), r.below(12289)]) for _ in range(n)]
        with sut('modq_encode'):
            e = FC.modq_encode(v, n)
        check(e == M.fixed_encode(v, 14), 'modq_encode differs from the format')
        arr = (C.c_uint16 * n)(*v)
        buf = C.create_string_buffer(len(e) + 8)
        check(L.z('modq_encode')(buf, C.c_size_t(len(e)), arr, logn) == len(e) and buf.raw[:len(e)] == e, 'modq_encode differs from C')
        with sut('modq_decode'):
            check(list(FC.modq_decode(e, n)) == v, 'modq round trip')
        dec, w = FC.modq_decode, 14
        ok = lambda x: x < 12289
        enc_bad = list(v)
        enc_bad[case['i'] % n] = [12289, -1, 16383, 65535][case['b'] % 4]
        enc = FC.modq_encode
        args = (n,)
    else:
        w = case['w']
        m = (1 << (w - 1)) - 1
        v = [r.choice([0, m, -m, r.randint(-m, m)]) for _ in range(n)]
        with sut('trim_i8_encode'):
            e = FC.trim_i8_encode(v, n, w)
        check(e == M.fixed_encode(v, w), 'trim_i8_encode differs from the format')
        arr = (C.c_int8 * n)(*v)
        buf = C.create_string_buffer(len(e) + 8)
        check(L.z('trim_i8_encode')(buf, C.c_size_t(len(e)), arr, logn, w) == len(e) and buf.raw[:len(e)] == e, 'trim_i8_encode differs from C')
        with sut('trim_i8_decode'):
            check(list(FC.trim_i8_decode(e, n, w)) == v, 'trim_i8 round trip')
        dec, enc = FC.trim_i8_decode, FC.trim_i8_encode
        ok = lambda x: x != 1 << (w - 1)
        enc_bad = list(v)
        enc_bad[case['i'] % n] = [m + 1, -m - 1, 127 + 1, -128 - 5][case['b'] % 4]
        args = (n, w)
    try:
        x = enc(enc_bad, *args)
    except ValueError:
        pass
    else:
        check(False, '%s_encode accepts an out-of-range coefficient %d' % (kind, enc_bad[case['i'] % n]))
    # decoding of altered strings
    i = case['i'] % (8 * len(e))
    for s in (e[:i // 8], e[:i // 8] + bytes([e[i // 8] ^ (128 >> i % 8)]) + e[i // 8 + 1:], ubytes('r', case['s'], len(e)), e[:-1] + bytes([e[-1] | 1]) if e else e):
        good = len(s) == len(e)
        if good:
            vals, pad = M.fixed_decode(s, n, w)
            good = pad == 0 and all(ok(x) for x in vals)
        try:
            got = dec(s, *args)
        except ValueError:
            check(not good, '%s_decode refuses a canonical string' % kind)
            continue
        except Exception as ex:
            check(False, '%s_decode raises %s on a malformed string of %d bytes' % (kind, type(ex).__name__, len(s)))
        check(good, '%s_decode accepts a malformed string' % kind)
        exp = [x - (1 << w) if kind != 'modq' and x >> (w - 1) else x for x in vals]
        check(list(got) == exp, '%s_decode values' % kind)
    return ['!' + kind]


def strat_codec(ctx=None):
    return st.fixed_dictionaries({'kind': st.sampled_from(['modq', 'trim']), 'logn': st.integers(1, 10), 'w': st.sampled_from([2, 3, 5, 6, 7, 8]), 's': seeds(), 'i': st.integers(0, 20000), 'b': st.integers(0, 3)})


WID = {1: 8, 2: 8, 3: 8, 4: 8, 5: 8, 6: 7, 7: 7, 8: 6, 9: 6, 10: 5}


def run_skbytes(ctx, case):
    """secret keys in the standard format load back to the same polynomials, G included."""
    n = case['n']
    f, g, F, G = polys(n, case['key'])
    G = [int(x) for x in M.centered(G)]
    lg = LOGN[n]
    w = WID[lg]
    blobk = bytes([0x50 + lg]) + M.fixed_encode(f, w) + M.fixed_encode(g, w) + M.fixed_encode(F, 8)
    FC = pyref.mod('falcon_codec')
    check(FC.MAX_FG_BITS[lg] == w and FC.MAX_FG_BITS_FG[lg] == 8, 'coefficient widths of degree %d' % n)
    K = pyref.mod('scripts.generate_kat_rsp')
    with sut('complete_private'):
        check(list(FC.complete_private(list(f), list(g), list(F), n)) == G, 'complete_private gives another G (degree %d)' % n)
    with sut('decode_secret_key_nist (degree %d)' % n), contextlib.redirect_stdout(io.StringIO()):
        r = K.decode_secret_key_nist(blobk.hex(), n)
    check([list(x) for x in r] == [f, g, F, G], 'decode_secret_key_nist gives other polynomials (degree %d)' % n)
    if n == 512:
        h = h_of(n, case['key'])
        with sut('encode_public_key'):
            p = K.encode_public_key(list(h), n)
        check(p == M.pk14_encode(h), 'encode_public_key differs from the format')
    # malformed: wrong header, truncation, trailing byte, forbidden value
    i = case['i'] % len(blobk)
    f2 = list(f)
    f2[case['i'] % n] = -(1 << (w - 1))
    F2 = list(F)
    F2[case['i'] % n] = -128
    bad = [blobk[:i], blobk + b'\x00', bytes([case['hd']]) + blobk[1:], blobk[:1] + M.fixed_encode(f2, w) + blobk[1 + n * w // 8 + (n * w % 8 > 0):],
           blobk[:len(blobk) - n] + M.fixed_encode(F2, 8)]
    for b in bad:
        if b == blobk:
            continue
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                K.decode_secret_key_nist(b.hex(), n)
        except (ValueError, IndexError):
            continue
        except Exception as e:
            check(False, 'decode_secret_key_nist raises %s' % type(e).__name__)
        check(False, 'decode_secret_key_nist accepts a malformed key (length %d, header 0x%02x)' % (len(b), b[0] if b else -1))
    return ['!n%d' % n]


def strat_skbytes(ctx=None):
    return st.fixed_dictionaries({'n': st.sampled_from(DEGREES), 'key': st.integers(0, 15), 'i': st.integers(0, 9999), 'hd': st.integers(0, 255)})


def run_files(ctx, case):
    """key files of the command line tool."""
    S = pyref.mod('sign_cli')
    ver, n, k = case['ver'], case['n'], case['key']
    cls = {'falcon': ('falcon', 'SecretKey', 'PublicKey'), 'ethfalcon': ('falcon', 'SecretKey', 'PublicKey'),
           'falconrec': ('falcon_recovery', 'RecoveryModeSecretKey', 'RecoveryModePublicKey'),
           'epervier': ('falcon_epervier', 'EpervierSecretKey', 'EpervierPublicKey')}[ver]
    m = pyref.mod(cls[0])
    sk = sk_obj(ctx, n, k, cls[1], cls[0])
    pub = sk.h if cls[0] == 'falcon' else sk.pk
    pk = getattr(m, cls[2])(n, pub)
    a, b = os.path.join(ctx.scratch, 'pk%d' % os.getpid()), os.path.join(ctx.scratch, 'sk%d' % os.getpid())
    with sut('save/load of %s keys' % ver), contextlib.redirect_stdout(io.StringIO()):
        S.save_pk(pk, a, ver)
        S.save_sk(sk, b, ver)
        p2, v1 = S.load_pk(a)
        s2, v2 = S.load_sk(b)
    check(v1 == ver and v2 == ver, 'the version changes in the key file: %r %r' % (v1, v2))
    check(p2.n == n and p2.pk == pub and type(p2) is type(pk), '%s public key changes in the file' % ver)
    check((s2.f, s2.g, s2.F, s2.G) == (sk.f, sk.g, sk.F, sk.G) and s2.n == n and type(s2) is type(sk), '%s secret key changes in the file' % ver)
    check([int(x) for x in s2.h] == h_of(n, k), '%s secret key file gives another public key' % ver)
    sig = ubytes('sg', case['s'], case['s'] % 3000)
    with sut('save/load of a signature'):
        S.save_signature(sig, a)
        check(S.load_signature(a) == sig, 'signature changes in the file')
    # unknown version
    with contextlib.redirect_stdout(io.StringIO()):
        S.save_pk(pk, a, 'other')
        S.save_sk(sk, b, 'other')
        for fn, x in ((S.load_pk, a), (S.load_sk, b)):
            try:
                r = fn(x)
            except Exception:
                r = None
            check(r is None, 'a key file of an unknown version is loaded')
    return ['!' + ver]


def strat_files(ctx=None):
    return st.fixed_dictionaries({'ver': st.sampled_from(['falcon', 'ethfalcon', 'falconrec', 'epervier']), 'n': st.sampled_from([512, 512, 8, 64, 1024]), 'key': st.integers(0, 3), 's': seeds()})


FACETS = [
    Facet('system', lambda ctx: st.fixed_dictionaries({'n': st.sampled_from([4, 8, 16, 32, 64, 128]), 'mk': st.booleans(), 'direct': st.booleans(), 's': seeds()}), run_system_key, 60, 2000,
          [{'n': 64, 'mk': m, 'direct': d, 's': 1} for m in (False, True) for d in (False, True)], rule='keys from the default source of randomness; all non-trivial'),
    Facet('generate', strat_gen, run_gen, 120, 4000, corners_gen, rule='generated keys; all non-trivial'),
    Facet('steered', strat_steered, run_steered, 120, 4000, corners_steered,
          rule='the random source begins with candidates to be refused: f with a zero in one chosen NTT slot, resultants with a common prime, norms just above the bound; non-trivial = such a stream was used'),
    Facet('cstream', strat_cgen, run_cgen, 150, 3000, [{'logn': l, 's': 1} for l in (5, 6, 7)], rule='C-compatible sampler on the stream C uses'),
    Facet('solve', strat_solve, run_solve, 9000, 100000, rule='arbitrary pairs within the norm bound; non-trivial when decided'),
    Facet('exact', strat_mul, run_mul, 5000, 20000, rule='big-integer polynomial helpers'),
    Facet('codec', strat_codec, run_codec, 9000, 50000, rule='packed encodings against the format and C'),
    Facet('skbytes', strat_skbytes, run_skbytes, 1200, 6000, rule='secret keys in the standard format, malformed ones'),
    Facet('files', strat_files, run_files, 120, 2000, rule='key and signature files'),
]
