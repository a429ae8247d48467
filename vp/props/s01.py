"""S01: on-chain verification accepts exactly what the reference equation accepts."""
from hypothesis import strategies as st
from ..core import Facet, check
from .. import model as M
from ..cprops import lib, key, ref_sig_zk
from ..gen import Rng, blob, unblob, seeds, ubytes
from ..solprops import *

C = {'falcon': 'ZKNOX_falcon', 'ethfalcon': 'ZKNOX_ethfalcon'}
SIG = 'verify(bytes,bytes,uint256[],uint256[])'


def build(b):
    a = {'lib': b.clib('nist', 'eth')}
    a.update(build_sol(b, 'falcon', 'ethfalcon', 'falcon_core'))
    return a


def expected(H, s2, k):
    """all coefficients of s2 canonical and the equation accepts; None where the key words are not canonical and the equation accepts"""
    if any(x >= Q for x in s2):
        return False
    ok = M.accept(H, s2, ints(M.intt([x % Q for x in k])))[0]
    if ok and any(x >= Q for x in k):
        return None
    return ok


def ask(ctx, which, msg, salt, w2, wk):
    r = call(ctx, contract(ctx, C[which]), SIG, msg, salt, w2, wk)
    if not r.ok:
        return None
    return value(r, ['bool'], which + ' verify')


def compare(ctx, which, msg, salt, w2, wk, what):
    """w2, wk: 32 words each"""
    H = M.h2p(HASHES[which], salt, msg)
    s2, k = unpack(w2), unpack(wk)
    want = expected(H, s2, k)
    got = ask(ctx, which, msg, salt, w2, wk)
    if want is None:
        return 'key not canonical'
    if want:
        check(got is True, '%s: a signature that satisfies the equation is %s (%s)' % (which, 'refused' if got is None else 'rejected', what))
        return 'accepted'
    if any(x >= Q for x in s2):
        check(got is not True, '%s: s2 with a coefficient of q or more is accepted (%s)' % (which, what))
        return 'not canonical'
    nn = M.accept(H, s2, ints(M.intt([x % Q for x in k])))[1]
    check(got is not True, '%s: a vector of squared norm %d is accepted (%s)' % (which, nn, what))
    return 'rejected'


def run_norm(ctx, case):
    which = case['c']
    rng = Rng('s01', case['seed'])
    salt, msg = rng.bytes(40), unblob(case['msg'])
    H = M.h2p(HASHES[which], salt, msg)
    t = short_pair(case, H, rng)
    if t is None:
        return ['unbuildable']
    s1, s2, h = t
    r = compare(ctx, which, msg, salt, pack(modq(s2)), pack(ints(M.ntt(h))), 'squared norm bound%+d' % (case['delta'] + case.get('wrap', 0)))
    return ['!wrap' if case.get('wrap') else '!boundary' if abs(case['delta']) <= 2 else '!norm', which, r]


def run_spike(ctx, case):
    which = case['c']
    rng = Rng('s01k', case['seed'])
    salt, msg = rng.bytes(40), rng.bytes(32)
    H = M.h2p(HASHES[which], salt, msg)
    t = spike(case, H, rng)
    if t is None:
        return ['unbuildable']
    s1, s2, h = t
    side = 's2' if case['pos'] // N % 2 else 's1'
    r = compare(ctx, which, msg, salt, pack(modq(s2)), pack(ints(M.ntt(h))), 'one large coefficient of %s, index %d' % (side, case['pos'] % N))
    # the same without the large coefficient, so that acceptance is not refused for another reason
    v = list(s2)
    w = list(s1)
    (v if side == 's2' else w)[case['pos'] % N] = 1
    h = M.divq([a - b for a, b in zip(H, w)], v)
    if h is not None:
        compare(ctx, which, msg, salt, pack(modq(v)), pack(ints(M.ntt(h))), 'short vector')
    return ['!' + side, which, r]


def run_forge(ctx, case):
    """vectors made without a secret key for a given key"""
    which, k = case['c'], case['k']
    rng = Rng('s01f', case['seed'])
    salt, msg = rng.bytes(40), unblob(case['msg'])
    H = M.h2p(HASHES[which], salt, msg)
    h = poly(case['h'])
    what = k
    if k == 's1 zero':
        s2 = M.divq(H, h)
        if s2 is None:
            return ['no inverse']
        s2 = ints(s2)
    elif k == 's2 zero':
        s2 = [0] * N
    elif k == 's2 small':
        s2 = [(rng.below(5) - 2) % Q for _ in range(N)]
    elif k == 'half':
        # s1 zero in one half of the NTT domain
        a = ints(M.ntt(h))
        b = ints(M.ntt(H))
        if 0 in a:
            return ['no inverse']
        s2 = ints(M.intt([b[i] * pow(a[i], -1, Q) % Q if i < 256 else 0 for i in range(N)]))
    elif k == 's1 partly zero':
        # s1 large in the last coefficient only
        s1 = [0] * N
        s1[case['pos'] % N] = 6144
        s2 = M.divq([x - y for x, y in zip(H, s1)], h)
        if s2 is None:
            return ['no inverse']
        s2 = ints(s2)
    else:
        s2 = poly(case['s2'], 65536)
    r = compare(ctx, which, msg, salt, pack(s2), pack(ints(M.ntt(h))), 'forged: ' + what)
    return ['!' + k, which, r]


def run_alter(ctx, case):
    """a short valid vector changed in one place"""
    which, k, i = case['c'], case['k'], case['pos']
    rng = Rng('s01a', case['seed'])
    salt, msg = rng.bytes(40), unblob(case['msg'])
    H = M.h2p(HASHES[which], salt, msg)
    t = short_pair(dict(case, delta=0), H, rng, total=case['norm'])
    if t is None:
        return ['unbuildable']
    s1, s2, h = t
    w2, wk = pack(modq(s2)), pack(ints(M.ntt(h)))
    if k == 's2 bit':
        w2 = bitflip(w2, i)
    elif k == 'key bit':
        wk = bitflip(wk, i)
    elif k == 'salt':
        salt = flipbyte(salt, i)
    elif k == 'message':
        msg = flipbyte(msg, i)
    elif k == 'message longer':
        msg += bytes(1 + i % 40)
    elif k == 's2 plus q':
        a = modq(s2)
        for j in range(1 + case['cnt']):
            p = (i + j * 97) % N
            m = (65535 - a[p]) // Q
            if m:
                a[p] += Q * (1 + i % m)
        w2 = pack(a)
    elif k == 'key plus q':
        a = ints(M.ntt(h))
        a[i % N] += Q
        wk = pack(a)
    elif k == 'negated':
        w2 = pack(modq([-x for x in s2]))
    elif k == 'swapped':
        w2, wk = wk, w2
    elif k == 'other hash':
        which = 'falcon' if which == 'ethfalcon' else 'ethfalcon'
    r = compare(ctx, which, msg, salt, w2, wk, k)
    return ['!' + k, which, r]


def run_length(ctx, case):
    which = case['c']
    rng = Rng('s01l', case['seed'])
    msg = unblob(case['msg'])
    ls, l2, lk = case['len']
    # the vector is valid for whatever the hash of this salt is
    salt = rng.bytes(ls)
    H = M.h2p(HASHES[which], salt, msg)
    t = short_pair(dict(case, delta=0), H, rng, total=20000000)
    if t is None:
        return ['unbuildable']
    w2, wk = pack(modq(t[1])), pack(ints(M.ntt(t[2])))
    w2 = (w2 + [0] * max(0, l2 - 32))[:l2]
    wk = (wk + [0] * max(0, lk - 32))[:lk]
    got = ask(ctx, which, msg, salt, w2, wk)
    if (ls, l2, lk) == (40, 32, 32):
        check(got is True, which + ': a valid signature is refused')
        return ['regular']
    check(got is not True, '%s: accepted with a salt of %d bytes, %d words of s2 and %d words of key' % (which, ls, l2, lk))
    return ['!' + ('salt' if ls != 40 else 's2' if l2 != 32 else 'key'), which]


def run_real(ctx, case):
    """signatures of the C library"""
    which = case['c']
    L = lib(ctx, 'nist' if which == 'falcon' else 'eth')
    k = key(ctx, case['key'])
    msg = unblob(case['msg'])[:70000 if which == 'falcon' else 4000]
    r, sm, _ = L.sign('zk', msg, k['sk16'], ubytes('rb', case['seed'], 88))
    check(r == 0, 'the C library does not sign')
    _, salt, m2, body = M.split_bundle(sm)
    check(m2 == msg, 'C bundle: message differs')
    s2 = ref_sig_zk(body[1:] if len(body) == 1025 else body)
    check(s2 is not None, 'C signature does not decode')
    wk = pack(M.pk16_decode(k['pk16']))
    x = compare(ctx, which, msg, salt, pack(modq(s2)), wk, 'signature of the C library')
    check(x == 'accepted', which + ': the reference equation refuses a signature of the C library')
    o = 'ethfalcon' if which == 'falcon' else 'falcon'
    return ['!' + which, x, compare(ctx, o, msg, salt, pack(modq(s2)), wk, 'signature for the other hash')]


W = st.sampled_from(['falcon', 'ethfalcon'])
MSG = blob(300, top=70000)
FACETS = [
    Facet('norm', st.fixed_dictionaries(dict(VEC, c=W, msg=MSG)), run_norm, 1500, 60000, rule='vector of the wanted norm built',
          corners=[{'c': c, 'msg': {'hex': ''}, 'seed': i, 'delta': d, 'frac': f, 'sh1': a, 'sh2': b} for i, (c, d, f, a, b) in enumerate(
              (c, d, f, a, b) for c in C for d in (-1, 0, 1) for f in (0, 8, 16) for a in ('flat', 'one') for b in ('flat', 'few'))]),
    Facet('spike', st.fixed_dictionaries({'c': W, 'seed': seeds(), 'pos': st.integers(0, 1023)}), run_spike, 300, 20000,
          rule='vector built', corners=[{'c': c, 'seed': p, 'pos': p} for c in C for p in range(1024)]),
    Facet('forge', st.fixed_dictionaries({'c': W, 'seed': seeds(), 'msg': MSG, 'h': polys_(), 's2': polys_(), 'pos': st.integers(0, N - 1), 'k': st.sampled_from(
        ['s1 zero', 's1 zero', 's2 zero', 's2 small', 'half', 's1 partly zero', 'arbitrary', 'arbitrary'])}), run_forge, 800, 30000, rule='vector built'),
    Facet('alter', st.fixed_dictionaries(dict(VEC, c=W, msg=MSG, norm=st.sampled_from([1000000, 20000000, 33000000, BOUND]), cnt=st.integers(0, 3),
                                              pos=st.integers(0, 8191), k=st.sampled_from(
        ['none', 's2 bit', 's2 bit', 'key bit', 'salt', 'message', 'message longer', 's2 plus q', 's2 plus q', 'key plus q', 'negated', 'swapped', 'other hash']))),
        run_alter, 1500, 60000, rule='vector built'),
    Facet('length', st.fixed_dictionaries(dict(VEC, c=W, msg=MSG, len=st.one_of(
        st.tuples(st.one_of(st.integers(0, 120), st.sampled_from([39, 41, 0, 1024])), st.just(32), st.just(32)),
        st.tuples(st.just(40), st.one_of(st.integers(0, 70), st.sampled_from([31, 33, 0, 512])), st.just(32)),
        st.tuples(st.just(40), st.just(32), st.one_of(st.integers(0, 70), st.sampled_from([31, 33, 0, 512])))))), run_length, 300, 8000,
        rule='some length is wrong'),
    Facet('real', st.fixed_dictionaries({'c': W, 'key': st.integers(0, 30), 'seed': seeds(), 'msg': blob(4000, top=70000)}), run_real, 200, 8000, rule='every signature'),
]
