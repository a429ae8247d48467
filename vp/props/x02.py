"""X02: Python and C interoperate: keys and signatures of one are valid in the other."""
import contextlib
import io
from hypothesis import strategies as st
from ..core import Facet, check, sut
from .. import model as M
from .. import pyref
from ..pyprops import Stream, polys, h_of, xof_class
from ..cprops import build_std, lib, key, keccak_limit_exceeded
from ..clib import SK, PK, PK16
from ..gen import Rng, blob, unblob, seeds, ubytes

V = {'nist': 'shake', 'eth': 'keccak'}


def build(b):
    return build_std(b)


def setup_worker(ctx):
    pyref.setup()


def c_sk(f, g, F):
    return bytes([0x59]) + M.fixed_encode(f, 6) + M.fixed_encode(g, 6) + M.fixed_encode(F, 8)


def pair(ctx, src, k):
    """one key in both languages: dict(h, sk, pk, pk16 bytes, P = Python secret key object, Q = Python public key object)"""
    def mk():
        K = pyref.mod('scripts.generate_kat_rsp')
        FA = pyref.mod('falcon')
        d = {}
        if src == 'c':
            c = key(ctx, k)
            d.update(sk=c['sk'], pk=c['pk'], pk16=c['pk16'], h=list(c['h']))
            with sut('decoding a C secret key in Python'), contextlib.redirect_stdout(io.StringIO()):
                r = [list(map(int, x)) for x in K.decode_secret_key_nist(c['sk'].hex(), 512)]
            check(r[:3] == [list(map(int, c[x])) for x in 'fgF'], 'Python decodes a C secret key to other polynomials')
            fg = [int(a - b) for a, b in zip(M.negmul(r[0], r[3]), M.negmul(r[1], r[2]))]
            check(fg == [M.Q] + [0] * 511, 'Python completes a C secret key with a wrong G')
            P = r
        else:
            P = polys(512, k)
            d['h'] = h_of(512, k)
            d['sk'] = c_sk(*P[:3])
            d['pk'] = M.pk14_encode(d['h'])
            d['pk16'] = M.pk16_encode(M.ntt(d['h']))
            with sut('encode_public_key'):
                check(bytes(K.encode_public_key(list(d['h']), 512)) == d['pk'], 'Python encodes a public key differently from C')
        with sut('Python secret key object'):
            d['P'] = FA.SecretKey(512, P)
        check(list(d['P'].h) == d['h'], 'the public key derived in Python differs from C')
        with sut('Python public key from C bytes'):
            d['Q'] = FA.PublicKey.from_bytes(d['pk'])
        check(list(d['Q'].pk) == d['h'], 'Python decodes a C public key to another polynomial')
        return d
    c = ctx.get('pairs', dict)
    if len(c) > 60:
        c.clear()
    if (src, k) not in c:
        c[src, k] = mk()
    return c[src, k]


def run(ctx, case):
    v, src = case['lib'], case['src']
    L = lib(ctx, v)
    d = pair(ctx, src, case['key'])
    m = unblob(case['msg'])
    if keccak_limit_exceeded(v, len(m) + 40):
        m = m[:4000]
    X = xof_class(V[v])
    what = '%s hash, key from %s' % (V[v], src)
    rb = ubytes('rb', case['rb'], 88)
    r, sm, _ = L.sign('nist', m, d['sk'], rb)
    check(r == 0, what + ': C refuses to sign')
    _, salt, mm, sig = M.split_bundle(sm)
    check(mm == m, 'message altered')
    # Python with the same salt and seed
    pos = [0]

    def rnd(n):
        a = rb[pos[0]:pos[0] + n]
        pos[0] += n
        check(len(a) == n, what + ': the Python signer draws more than salt and seed')
        return a
    with sut(what + ': Python signs'):
        ps = d['P'].sign(m, randombytes=rnd, xof=X)
    labels = ['!' + v, src]
    s2c = M.comp_decode(sig[1:], 512)
    check(s2c is not None, what + ': C signature does not decode')
    fits = len(sig) - 1 <= 625
    if not fits:
        return ['too-long']
    pc = M.comp_decode(ps[41:], 512)
    check(pc is not None and ps[1:41] == salt, what + ': Python uses another salt')
    if list(pc[0]) != list(s2c[0]):
        # The first two sampling centres are coefficients of c*f/q; when one is exactly an integer, rounding noise
        # decides its floor, and both floors are right.
        t = M.negmul(M.h2p(V[v], salt, m), polys(512, case['key'])[0] if src == 'py' else key(ctx, case['key'])['f'])
        check(any(int(t[i]) % M.Q == 0 for i in (255, 511)), what + ': same salt and seed, different s2')
        return ['tie']
    check(ps[41:].rstrip(b'\0') == sig[1:].rstrip(b'\0') and ps[0] & 15 == sig[0] & 15, what + ': same s2, different encoding')
    # independent Python signature to C
    with sut(what + ': Python signs'):
        ps = d['P'].sign(m, randombytes=Stream('x02', case['rb']), xof=X)
    body = ps[41:41 + M.comp_decode(ps[41:], 512)[1]]
    check(not any(ps[41 + len(body):]), what + ': padding of a Python signature is not zero')
    t = M.bundle(ps[1:41], m, b'\x29' + body)
    check(L.open('nist', t, d['pk'])[:2] == (0, m), what + ': C refuses a Python signature')
    s2 = M.comp_decode(body, 512)[0]
    t16 = M.bundle(ps[1:41], m, b'\x29' + M.fixed_encode([x % M.Q for x in s2], 16))
    check(L.open('zk', t16, d['pk16'])[:2] == (0, m), what + ': C (EVM format) refuses a Python signature')
    # C signature (own randomness) to Python, in every framing
    r, sm, _ = L.sign('nist', m, d['sk'], ubytes('rb2', case['rb'], 88))
    _, salt, _, sig = M.split_bundle(sm)
    r, sm16, _ = L.sign('zk', m, d['sk'], ubytes('rb3', case['rb'], 88))
    _, salt16, _, sig16 = M.split_bundle(sm16)
    e16 = M.comp_encode([int(x) for x in M.centered(M.fixed_decode(sig16[1:], 512, 16)[0])])
    for nm, sa, e in (('NIST', salt, sig[1:]), ('EVM', salt16, e16)):
        if len(e) > 625:
            continue
        for hd, pad in ((0x29, 625), (0x39, 625), (0x29, 0)):
            s = bytes([hd]) + sa + e.ljust(pad, b'\0')
            with sut(what + ': Python verifies a C signature'):
                check(d['Q'].verify(m, s, xof=X) is True, '%s: Python refuses a C signature (%s format, header 0x%02x, padded to %d)' % (what, nm, hd, pad))
        # altered ones fail in both
        m2 = m + b'\0' if not m else m[:-1] + bytes([m[-1] ^ (1 + case['a'] % 255)])
        with sut(what + ': Python verifies'):
            check(not d['Q'].verify(m2, s, xof=X), what + ': Python accepts another message')
            X2 = xof_class(V['eth' if v == 'nist' else 'nist'])
            check(keccak_limit_exceeded('eth' if v == 'nist' else 'nist', len(m) + 40) or not d['Q'].verify(m, s, xof=X2),
                  what + ': Python accepts with the other hash')
        check(L.open('nist', M.bundle(sa, m2, b'\x29' + e), d['pk'])[0] != 0, what + ': C accepts another message')
        o = 'eth' if v == 'nist' else 'nist'
        check(lib(ctx, o).open('nist', M.bundle(sa, m, b'\x29' + e), d['pk'])[0] != 0, what + ': C accepts with the other hash')
    # same verdict on an altered vector
    for i, dv in case['edits']:
        s = [int(x) for x in s2]
        s[i] = max(-2047, min(2047, s[i] + dv))
        e = M.comp_encode(s)
        if len(e) > 625:
            continue
        y = L.open('nist', M.bundle(ps[1:41], m, b'\x29' + e), d['pk'])[0] == 0
        with sut(what + ': Python verifies an altered vector'):
            x = d['Q'].verify(m, b'\x29' + ps[1:41] + e.ljust(625, b'\0'), xof=X)
        check(x == y, '%s: C and Python disagree on an altered vector (C %s, Python %s)' % (what, y, x))
        labels.append('altered-accepted' if x else 'altered-refused')
    return labels


def strat(ctx=None):
    return st.fixed_dictionaries({'lib': st.sampled_from(['nist', 'eth']), 'src': st.sampled_from(['c', 'py']), 'key': st.integers(0, 40), 'msg': blob(4000, top=70000, rate=60),
                                  'rb': seeds(), 'a': st.integers(0, 999), 'edits': st.lists(st.tuples(st.integers(0, 511), st.one_of(st.integers(-2, 2), st.integers(-3000, 3000))).map(list), max_size=3)})


def run_gen(ctx, case):
    """keys generated by the Python generator from a stream."""
    r = Stream('x02g', case['seed'])
    G = pyref.mod('ntrugen')
    with sut('Python key generation'):
        f, g, F, Gp = G.ntru_gen(512, randombytes=r)
    f, g, F = [[int(x) for x in p] for p in (f, g, F)]
    L = lib(ctx, 'nist')
    if max(map(abs, f + g)) > 31 or max(map(abs, F)) > 127:
        return ['unencodable']
    h = [int(x) for x in M.divq(g, f)]
    sk, pk = c_sk(f, g, F), M.pk14_encode(h)
    m = b'x02'
    rr, sm, _ = L.sign('nist', m, sk, ubytes('g', case['seed'], 88))
    check(rr == 0 and L.open('nist', sm, pk)[:2] == (0, m), 'C cannot use a key generated in Python')
    return ['!generated']


def strat_gen(ctx=None):
    return st.fixed_dictionaries({'seed': seeds()})


FACETS = [Facet('interop', strat, run, 160, 8000, [{'lib': v, 'src': 'py', 'key': 1, 'msg': {'n': n, 's': 2}, 'rb': n, 'a': 1, 'edits': []} for n in (95, 96, 97, 231, 232, 233) for v in ('nist', 'eth')], rule='one key, one message, two hash variants: equal s2 for equal randomness, cross verification, verdicts on altered vectors'),
          Facet('generated', strat_gen, run_gen, 8, 120, rule='keys generated by Python used by C')]
ASSUMPTIONS = ['polyntt is replaced by a stand-in with the same interface (the dependency is not installed)']
