"""S07: the recursive on-chain verifier (external/) accepts exactly what the reference equation accepts."""
from hypothesis import strategies as st
from ..core import Facet, check
from .. import model as M
from ..gen import Rng, blob, unblob, seeds
from ..solprops import *
from .x01 import keccaxof_stream

SIGS = {'plain': 'verify(bytes,(bytes,int256[]),uint256[])', 'ntt': 'verify_nttpub(bytes,(bytes,int256[]),uint256[])'}


def build(b):
    return build_sol(b, 'HashToPoint', 'external/NTT_Recursive.sol', 'external/ETHFalcon_Recursive.sol')


def ntt_rec(ctx, h):
    """the transform verify_nttpub expects, computed by the contract NTT itself (S03 checks it is one)"""
    return ints(value(call(ctx, contract(ctx, 'NTT'), 'nTT(uint256[])', h), ['uint256[]'], 'nTT'))


def ask(ctx, which, msg, salt, s2, h):
    r = call(ctx, contract(ctx, 'ETHFalcon'), SIGS[which], msg, (salt, s2), h)
    if not r.ok:
        return False
    v = value(r, ['address'], 'verify')
    check(int(v, 16) == 0 if isinstance(v, str) else not any(v) if isinstance(v, bytes) else v == 0, 'verify returns an address that is not zero')
    return True


def hashed(salt, msg):
    return M.h2p_stream(lambda k: keccaxof_stream(msg + salt, k), N)


def compare(ctx, msg, salt, s2, h, what, H=None):
    """s2: 512 signed coefficients as given, h: the key (values below q)"""
    H = H or hashed(salt, msg)
    out = set()
    ok, nn = M.accept(H, [x % Q for x in s2], h)[:2]
    hn = ntt_rec(ctx, h)
    for which in SIGS:
        got = ask(ctx, which, msg, salt, s2, hn if which == 'ntt' else h)
        if any(abs(x) > Q for x in s2):
            check(not got, '%s: a coefficient of magnitude above q is accepted (%s)' % (which, what))
            out.add('out of range')
        elif any(abs(x) == Q for x in s2):
            check(not got or ok, '%s: a vector of squared norm %d is accepted (%s)' % (which, nn, what))
            out.add('one is +-q')
        elif ok:
            check(got, '%s: a signature of squared norm %d that satisfies the equation is refused (%s)' % (which, nn, what))
            out.add('accepted')
        else:
            check(not got, '%s: a vector of squared norm %d is accepted (%s)' % (which, nn, what))
            out.add('rejected')
    return sorted(out)[0]


def signs(v, rng, k):
    """the same vector modulo q, written with signed or unsigned coefficients"""
    if k == 'signed':
        return [int(x) for x in v]
    if k == 'unsigned':
        return [int(x) % Q for x in v]
    return [int(x) % Q - (Q if rng.below(2) and x % Q else 0) for x in v]


def run_norm(ctx, case):
    rng = Rng('s07', case['seed'])
    salt, msg = rng.bytes(case['sl']), unblob(case['msg'])
    H = hashed(salt, msg)
    t = short_pair(case, H, rng)
    if t is None:
        return ['unbuildable']
    s1, s2, h = t
    r = compare(ctx, msg, salt, signs(s2, rng, case['w']), h, 'squared norm bound%+d' % (case['delta'] + case.get('wrap', 0)), H)
    return ['!wrap' if case.get('wrap') else '!boundary' if abs(case['delta']) <= 2 else '!norm', r, case['w']]


def run_spike(ctx, case):
    rng = Rng('s07k', case['seed'])
    salt, msg = rng.bytes(40), rng.bytes(32)
    H = hashed(salt, msg)
    t = spike(case, H, rng)
    if t is None:
        return ['unbuildable']
    s1, s2, h = t
    r = compare(ctx, msg, salt, signs(s2, rng, 'mixed'), h, 'one large coefficient, index %d' % (case['pos'] % N), H)
    return ['!spike', r]


def run_alter(ctx, case):
    k, i = case['k'], case['pos']
    rng = Rng('s07a', case['seed'])
    salt, msg = rng.bytes(40), unblob(case['msg'])
    H = hashed(salt, msg)
    t = short_pair(dict(case, delta=0), H, rng, total=case['norm'])
    if t is None:
        return ['unbuildable']
    s1, s2, h = t
    s2 = signs(s2, rng, 'mixed')
    h = list(h)
    p = i % N
    if k == 'coefficient':
        s2[p] = (s2[p] + case['cnt'] + 1) % Q
    elif k == 'key':
        h[p] = (h[p] + case['cnt'] + 1) % Q
    elif k == 'salt':
        salt = flipbyte(salt, i)
    elif k == 'message':
        msg = flipbyte(msg, i)
    elif k == 'moved byte':
        # the hash does not separate message and salt (documented): the pair is accepted as the oracle says
        salt, msg = (msg[-1:] + salt), msg[:-1]
    elif k == 'negated':
        s2 = [-x for x in s2]
    elif k == 'beyond':
        s2[p] = rng.choice([Q + 1, -Q - 1, 2 * Q, -2 * Q, s2[p] + 2 * Q, s2[p] - 2 * Q, 2 ** 255 - 1, -2 ** 255, 2 ** 128, -2 ** 128,
                            s2[p] + Q * 2 ** 200, s2[p] - Q * 2 ** 200])
    elif k == 'plus q':
        s2[p] = s2[p] + Q if s2[p] >= 0 else s2[p] - Q
    elif k == 'zero':
        s2 = [0] * N
    elif k == 'solved':
        d = M.divq(H, h)
        if d is None:
            return ['no inverse']
        s2 = [int(x) for x in d]
    return ['!' + k, compare(ctx, msg, salt, s2, h, k)]


def run_length(ctx, case):
    l2, lk = case['len']
    rng = Rng('s07l', case['seed'])
    salt, msg = rng.bytes(40), b'length'
    H = hashed(salt, msg)
    t = short_pair(dict(case, delta=0), H, rng, total=20000000)
    if t is None:
        return ['unbuildable']
    s2, h = [int(x) for x in t[1]], list(t[2])
    hn = ntt_rec(ctx, h)
    cut = lambda a, n: (a + [0] * max(0, n - N))[:n]
    for which, kk in (('plain', h), ('ntt', hn)):
        got = ask(ctx, which, msg, salt, cut(s2, l2), cut(kk, lk))
        if (l2, lk) == (N, N):
            check(got, which + ': a valid signature is refused')
        else:
            check(not got, '%s: accepted with %d coefficients of s2 and %d of the key' % (which, l2, lk))
    return ['regular'] if (l2, lk) == (N, N) else ['!lengths']


MSG = blob(300, top=140000)
WAY = st.sampled_from(['signed', 'unsigned', 'mixed'])
LEN = st.one_of(st.integers(0, 1100), st.sampled_from([511, 513, 0, 256, 1024]))
FACETS = [
    Facet('norm', st.fixed_dictionaries(dict(VEC, msg=MSG, w=WAY, sl=st.sampled_from([40, 40, 0, 1, 32, 64, 100]))), run_norm, 500, 15000,
          rule='vector of the wanted norm built',
          corners=[{'msg': {'hex': ''}, 'seed': i, 'delta': d, 'frac': f, 'sh1': a, 'sh2': b, 'w': 'mixed', 'sl': 40} for i, (d, f, a, b) in enumerate(
              (d, f, a, b) for d in (-1, 0, 1) for f in (0, 8, 16) for a in ('flat', 'one') for b in ('flat', 'few'))]),
    Facet('spike', st.fixed_dictionaries({'seed': seeds(), 'pos': st.integers(0, 1023)}), run_spike, 100, 10000,
          rule='vector built', corners=[{'seed': p, 'pos': p} for p in range(0, 1024, 7)]),
    Facet('alter', st.fixed_dictionaries(dict(VEC, msg=MSG, norm=st.sampled_from([1000000, 20000000, 33000000, BOUND]), cnt=st.integers(0, 3), pos=st.integers(0, 8191),
                                              k=st.sampled_from(['none', 'coefficient', 'key', 'salt', 'message', 'moved byte', 'negated', 'beyond', 'beyond',
                                                                 'plus q', 'plus q', 'zero', 'solved']))),
          run_alter, 500, 15000, rule='vector built'),
    Facet('length', st.fixed_dictionaries(dict(VEC, len=st.one_of(st.tuples(LEN, st.just(N)), st.tuples(st.just(N), LEN), st.tuples(LEN, LEN)))),
          run_length, 100, 3000, rule='some length is wrong'),
]
