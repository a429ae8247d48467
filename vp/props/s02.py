"""S02: on-chain recovery returns the address of the key that the short vectors determine, or reverts."""
from hypothesis import strategies as st
from ..core import Facet, check
from .. import model as M
from ..cprops import lib, key, ref_sig_zk
from ..gen import Rng, blob, unblob, seeds, ubytes
from ..solprops import *

C = {'epervier': 'ZKNOX_epervier', 'ethepervier': 'ZKNOX_ethepervier'}
SIG = 'recover(bytes,bytes,uint256[],uint256[],uint256)'


def build(b):
    a = {'lib': b.clib('nist', 'eth')}
    a.update(build_sol(b, 'epervier', 'ethepervier'))
    return a


def prod_inverse(v):
    p = 1
    for x in M.ntt(v):
        p = p * int(x) % Q
    return pow(p, -1, Q) if p else None


def address(h):
    """h: coefficients"""
    return int.from_bytes(M.keccak256(b''.join(int(x).to_bytes(32, 'big') for x in M.ntt(h)))[-20:], 'big')


def reference(H, s1, s2, hint):
    """(address or None, reason)"""
    if any(x >= Q for x in s1) or any(x >= Q for x in s2):
        return None, 'not canonical'
    nn = M.norm2(M.centered(s1), M.centered(s2))
    if nn > BOUND:
        return None, 'squared norm %d' % nn
    p = prod_inverse(s2)
    if p is None:
        return None, 's2 not invertible'
    if hint % Q != p:
        return None, 'wrong hint'
    return address(ints(M.divq([a - b for a, b in zip(H, s1)], s2))), ''


def ask(ctx, which, msg, salt, w1, w2, hint):
    r = call(ctx, contract(ctx, C[which]), SIG, msg, salt, w1, w2, hint)
    if not r.ok:
        return None
    a = value(r, ['address'], which + ' recover')
    return int(a, 16) if isinstance(a, str) else int.from_bytes(a, 'big') if isinstance(a, bytes) else int(a)


def compare(ctx, which, msg, salt, w1, w2, hint, what):
    H = M.h2p(HASHES[which], salt, msg)
    want, why = reference(H, unpack(w1), unpack(w2), hint)
    got = ask(ctx, which, msg, salt, w1, w2, hint)
    if want is None:
        check(got is None, '%s: recovers an address although: %s (%s)' % (which, why, what))
        return 'refused: ' + (why if 'norm' not in why else 'norm')
    if hint >= Q and got is None:
        return 'hint not canonical'
    check(got is not None, '%s: reverts on a valid signature (%s)' % (which, what))
    check(got == want, '%s: recovers another address than that of the key (%s)' % (which, what))
    return 'recovered'


def run_norm(ctx, case):
    which = case['c']
    rng = Rng('s02', case['seed'])
    salt, msg = rng.bytes(40), unblob(case['msg'])
    H = M.h2p(HASHES[which], salt, msg)
    t = short_pair(case, H, rng)
    if t is None:
        return ['unbuildable']
    s1, s2, h = t
    r = compare(ctx, which, msg, salt, pack(modq(s1)), pack(modq(s2)), prod_inverse(s2), 'squared norm bound%+d' % (case['delta'] + case.get('wrap', 0)))
    return ['!wrap' if case.get('wrap') else '!boundary' if abs(case['delta']) <= 2 else '!norm', which, r]


def run_spike(ctx, case):
    which = case['c']
    rng = Rng('s02k', case['seed'])
    salt, msg = rng.bytes(40), rng.bytes(32)
    H = M.h2p(HASHES[which], salt, msg)
    t = spike(case, H, rng)
    if t is None:
        return ['unbuildable']
    s1, s2, h = t
    side = 's2' if case['pos'] // N % 2 else 's1'
    r = compare(ctx, which, msg, salt, pack(modq(s1)), pack(modq(s2)), prod_inverse(s2),
                'one large coefficient of %s, index %d' % (side, case['pos'] % N))
    (s2 if side == 's2' else s1)[case['pos'] % N] = 1
    p = prod_inverse(s2)
    if p:
        compare(ctx, which, msg, salt, pack(modq(s1)), pack(modq(s2)), p, 'short vector')
    return ['!' + side, which, r]


def run_alter(ctx, case):
    which, k, i = case['c'], case['k'], case['pos']
    rng = Rng('s02a', case['seed'])
    salt, msg = rng.bytes(40), unblob(case['msg'])
    H = M.h2p(HASHES[which], salt, msg)
    t = short_pair(dict(case, delta=0), H, rng, total=case['norm'])
    if t is None:
        return ['unbuildable']
    s1, s2, h = t
    a1, a2 = modq(s1), modq(s2)
    w1, w2 = pack(a1), pack(a2)
    hint = prod_inverse(s2)
    if k == 's1 bit':
        w1 = bitflip(w1, i)
    elif k == 's2 bit':
        w2 = bitflip(w2, i)
        hint = prod_inverse([x % Q for x in unpack(w2)]) or hint if i & 1 else hint
    elif k == 's1 small':
        a1[i % N] = (a1[i % N] + 1) % Q      # another key: still an address
        w1 = pack(a1)
    elif k == 's2 small':
        a2[i % N] = (a2[i % N] + 1) % Q
        w2 = pack(a2)
        hint = prod_inverse(a2) or hint
    elif k in ('s1 plus q', 's2 plus q'):
        a = a1 if k[1] == '1' else a2
        for j in range(1 + case['cnt']):
            p = (i + j * 97) % N
            m = (65535 - a[p]) // Q
            if m:
                a[p] += Q * (1 + i % m)
        w1, w2 = pack(a1), pack(a2)
    elif k == 's1 wide':
        a1[i % N] = Q + i % 6145        # between q and q + (q-1)/2
        w1 = pack(a1)
    elif k == 'hint':
        hint = [0, 1, Q - hint, (hint + 1) % Q, Q - 1, 2 ** 256 - 1, 2 ** 255, rng.below(Q), int.from_bytes(rng.bytes(32), 'big'),
                hint * hint % Q, pow(hint, -1, Q)][i % 11]
    elif k == 'hint plus q':
        hint += Q * (1 + rng.below([3, 2 ** 16, 2 ** 242][i % 3]))
    elif k == 'salt':
        salt = flipbyte(salt, i)
    elif k == 'message':
        msg = flipbyte(msg, i)
    elif k == 'swapped':
        w1, w2 = w2, w1
    elif k == 'other hash':
        which = 'epervier' if which == 'ethepervier' else 'ethepervier'
    elif k == 'not invertible':
        # a short multiple of a polynomial with a root, or zero
        if i % 3 == 0:
            a2 = [0] * N
        else:
            a2 = singular(rng)
        w2 = pack(modq(a2))
        hint = [hint, 0, 1, rng.below(Q), 2 ** 256 - 1][i % 5]
    r = compare(ctx, which, msg, salt, w1, w2, hint, k)
    return ['!' + k, which, r]


def singular(rng):
    """short polynomial that vanishes at one root of x^512 + 1 modulo q"""
    # value at x = psi of a small polynomial is corrected to zero with few coefficients (meet in the middle over three positions)
    psi = 7      # any primitive 1024th root
    for g in range(2, 200):
        if pow(g, 512, Q) == Q - 1:
            psi = g
            break
    psi = pow(psi, 2 * rng.below(512) + 1, Q)
    pw = [pow(psi, i, Q) for i in range(N)]
    a = [rng.below(41) - 20 for _ in range(N)]
    v = sum(x * y for x, y in zip(a, pw)) % Q
    d = {}
    for x in range(-200, 201):
        d.setdefault(x * pw[3] % Q, x)
    for y in range(-200, 201):
        x = d.get((-v - y * pw[7]) % Q)
        if x is not None:
            a[3] += x
            a[7] += y
            return a
    return [0] * N


def run_length(ctx, case):
    which = case['c']
    rng = Rng('s02l', case['seed'])
    msg = unblob(case['msg'])
    ls, l1, l2 = case['len']
    salt = rng.bytes(ls)
    H = M.h2p(HASHES[which], salt, msg)
    t = short_pair(dict(case, delta=0), H, rng, total=20000000)
    if t is None:
        return ['unbuildable']
    w1, w2 = pack(modq(t[0])), pack(modq(t[1]))
    w1 = (w1 + [0] * max(0, l1 - 32))[:l1]
    w2 = (w2 + [0] * max(0, l2 - 32))[:l2]
    got = ask(ctx, which, msg, salt, w1, w2, prod_inverse(t[1]))
    if (ls, l1, l2) == (40, 32, 32):
        check(got is not None, which + ': a valid signature is refused')
        return ['regular']
    check(got is None, '%s: recovers an address with a salt of %d bytes, %d words of s1 and %d words of s2' % (which, ls, l1, l2))
    return ['!' + ('salt' if ls != 40 else 's1' if l1 != 32 else 's2'), which]


def run_real(ctx, case):
    """signatures of the C library (SHAKE)"""
    L = lib(ctx, 'nist')
    k = key(ctx, case['key'])
    msg = unblob(case['msg'])[:70000]
    r, sm, _ = L.sign('ep', msg, k['sk16'], ubytes('rb', case['seed'], 88))
    if r != 0:
        return ['C refused']
    _, salt, m2, body = M.split_bundle(sm)
    check(m2 == msg and len(body) == 2052, 'C bundle')
    s1, s2 = ref_sig_zk(body[1:1025]), ref_sig_zk(body[1026:2050])
    hint = int.from_bytes(body[2050:], 'big')
    w1, w2 = pack(modq(s1)), pack(modq(s2))
    x = compare(ctx, 'epervier', msg, salt, w1, w2, hint, 'signature of the C library')
    check(x == 'recovered', 'epervier: %s on a signature of the C library' % x)
    check(ask(ctx, 'epervier', msg, salt, w1, w2, hint) == address(k['h']), 'epervier: a C signature recovers to another key')
    return ['!c', compare(ctx, 'ethepervier', msg, salt, w1, w2, hint, 'signature for the other hash')]


def run_addr(ctx, case):
    """address of a byte string"""
    c = contract(ctx, C[case['c']])
    m = unblob(case['msg'])
    a = value(call(ctx, c, 'HashToAddress(bytes)', m), ['address'], 'HashToAddress')
    check(int(a, 16) == int.from_bytes(M.keccak256(m)[-20:], 'big'), 'HashToAddress is not the last 20 bytes of the Keccak digest')
    return ['!address']


W = st.sampled_from(['epervier', 'ethepervier'])
MSG = blob(300, top=70000)
FACETS = [
    Facet('norm', st.fixed_dictionaries(dict(VEC, c=W, msg=MSG)), run_norm, 1200, 50000, rule='vector of the wanted norm built',
          corners=[{'c': c, 'msg': {'hex': ''}, 'seed': i, 'delta': d, 'frac': f, 'sh1': a, 'sh2': b} for i, (c, d, f, a, b) in enumerate(
              (c, d, f, a, b) for c in C for d in (-1, 0, 1) for f in (0, 8, 16) for a in ('flat', 'one') for b in ('flat', 'few'))]),
    Facet('spike', st.fixed_dictionaries({'c': W, 'seed': seeds(), 'pos': st.integers(0, 1023)}), run_spike, 300, 20000,
          rule='vector built', corners=[{'c': c, 'seed': p, 'pos': p} for c in C for p in range(1024)]),
    Facet('alter', st.fixed_dictionaries(dict(VEC, c=W, msg=MSG, norm=st.sampled_from([1000000, 20000000, 33000000, BOUND]), cnt=st.integers(0, 3),
                                              pos=st.integers(0, 8191), k=st.sampled_from(
        ['none', 's1 bit', 's2 bit', 's1 small', 's2 small', 's1 plus q', 's2 plus q', 's1 wide', 'hint', 'hint', 'hint plus q', 'salt', 'message',
         'swapped', 'other hash', 'not invertible', 'not invertible']))), run_alter, 2000, 80000, rule='vector built'),
    Facet('length', st.fixed_dictionaries(dict(VEC, c=W, msg=MSG, len=st.one_of(
        st.tuples(st.one_of(st.integers(0, 120), st.sampled_from([39, 41, 0, 1024])), st.just(32), st.just(32)),
        st.tuples(st.just(40), st.one_of(st.integers(0, 70), st.sampled_from([31, 33, 0, 512])), st.just(32)),
        st.tuples(st.just(40), st.just(32), st.one_of(st.integers(0, 70), st.sampled_from([31, 33, 0, 512])))))), run_length, 300, 8000,
        rule='some length is wrong'),
    Facet('real', st.fixed_dictionaries({'key': st.integers(0, 30), 'seed': seeds(), 'msg': blob(4000, top=70000)}), run_real, 120, 5000, rule='C signed'),
    Facet('address', st.fixed_dictionaries({'c': W, 'msg': blob(3000)}), run_addr, 200, 4000, rule='every string'),
]
