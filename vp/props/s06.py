"""S06: registered keys, packed signatures, range checks and frozen parameters."""
from hypothesis import strategies as st
from eth_abi import encode
from ..core import Facet, check
from .. import model as M
from ..gen import Rng, blob, unblob, seeds, ubytes
from ..solprops import *

C = {'falcon': 'ZKNOX_falcon', 'ethfalcon': 'ZKNOX_ethfalcon'}
STRUCT = 'verify(bytes,bytes,uint256[],uint256[])'
BYTES = 'verify(bytes,bytes32,bytes)'
RANGE = 'falcon_checkPolynomialRange(uint256[],bool)'


def build(b):
    return build_sol(b, 'falcon', 'ethfalcon', 'falcon_core', 'NTT')


def magic(ctx):
    from Crypto.Hash import keccak
    return M.keccak256(BYTES.encode())[:4]


# ---- byte-string verification ---------------------------------------------------------------------
def run_bytes(ctx, case):
    which, k, x = case['c'], case['k'], case['x']
    rng = Rng('s06', case['seed'])
    salt, digest = rng.bytes(40), rng.bytes(32)
    v = vm(ctx)
    c = contract(ctx, C[which])
    H = M.h2p(HASHES[which], salt, digest)
    t = short_pair(dict(case), H, rng, total=None if k == 'norm' else case['norm'])
    if t is None:
        return ['unbuildable']
    s2, h = modq(t[1]), t[2]
    ntth = ints(M.ntt(h))
    w2, wk = pack(s2), pack(ntth)
    stored = encode(['uint256[]'], [wk])
    if k == 'bit':
        w2 = bitflip(w2, x)
    elif k == 'plus q':
        a = list(s2)
        a[x % N] += Q
        w2 = pack(a)
    elif k == 'salt':
        salt = flipbyte(salt, x)
    elif k == 'digest':
        digest = flipbyte(digest, x)
    elif k == 'key words':
        wk = (wk + [0] * 40)[:[31, 33, 0, 1, 64][x % 5]]
        stored = encode(['uint256[]'], [wk])
    elif k == 'key data':
        stored = [b'', stored[:-1], stored[:32], rng.bytes(100), stored[:64], b'\x00' * 64, encode(['bytes'], [b'abc'])][x % 7]
    elif k == 'other key':
        wk = pack(poly({'k': 'rand', 's': x}))
        stored = encode(['uint256[]'], [wk])
    sig = salt + b''.join(w.to_bytes(32, 'big') for w in w2)
    if k == 'length':
        e = [-1, 1, -32, 32, 31, 33, -40, -1024, -1064, 64, -31, 1000][x % 12]
        if e < 0:
            sig = sig[:e]
        else:
            sig += bytes(e) if x & 64 else rng.bytes(e)
    elif k == 'any length':
        sig = (sig + rng.bytes(200))[:x % 1264]
    s = v.snapshot()
    try:
        # another key registered in between: the pointers must not be confused
        if case['extra']:
            v.call(c, 'setKey(bytes)', encode(['uint256[]'], [pack(poly({'k': 'rand', 's': 5}))]))
        p = value(v.call(c, 'setKey(bytes)', stored), ['bytes'], which + ' setKey')
        check(len(p) == 20, '%s setKey returns %d bytes' % (which, len(p)))
        if case['extra'] > 1:
            p2 = value(v.call(c, 'setKey(bytes)', encode(['uint256[]'], [pack(poly({'k': 'rand', 's': 6}))])), ['bytes'], which + ' setKey')
            check(p2 != p, which + ' setKey gives two keys the same handle')
        if k == 'handle':
            p = [flipbyte(p, x), bytes(20), p[:19], b'', p[1:], p + b'\x00', p + rng.bytes(12), rng.bytes(20)][x % 8]
        r = v.call(c, BYTES, p, digest, sig)
        q = v.call(c, STRUCT, digest, salt, w2, wk)
        structured = q.ok and value(q, ['bool'], STRUCT)
        again = v.call(c, BYTES, p, digest, sig)
    finally:
        v.rollback(s)
    same = (r.ok, r.data if r.ok else b'') == (again.ok, again.data if again.ok else b'')
    check(same, which + ': the second verification of the same bytes gives another result')
    if r.ok:
        m = value(r, ['bytes4'], BYTES)
        check(m in (magic(ctx), b'\xff\xff\xff\xff'), '%s: returns %s' % (which, m.hex()))
        good = m == magic(ctx)
    else:
        good = False
    regular = len(sig) == 1064 and len(p) == 20 and k not in ('handle', 'key data')
    if regular and structured:
        check(good, '%s: %s although the structured verification accepts (%s)' % (which, 'refused' if r.ok else 'reverts', k))
        return ['!' + k, which, 'accepted']
    if good:
        check(len(sig) == 1064, '%s: a signature of %d bytes is accepted' % (which, len(sig)))
        check(len(p) == 20, '%s: a key handle of %d bytes is accepted' % (which, len(p)))
        check(k not in ('handle', 'key data'), '%s: accepted for %s' % (which, 'another handle' if k == 'handle' else 'malformed key data'))
        check(structured, '%s: accepted although the structured verification refuses (%s)' % (which, k))
    return ['!' + k, which, 'failure value' if r.ok else 'revert']


# ---- range check ----------------------------------------------------------------------------------
VALS = [0, 1, Q - 2, Q - 1, Q, Q + 1, 2 * Q, 16383, 16384, 65535, 65536, 65536 + 5, 2 ** 32, 2 ** 128, 2 ** 255, 2 ** 256 - 1]


def run_range(ctx, case):
    if not has(ctx, RANGE):
        return ['no ' + RANGE]
    a = poly(case['p'], 65536 if case['wide'] else Q)
    lim = 65536 if case['compact'] else 2 ** 256
    for i, j in case['at']:
        a[i] = VALS[j] if VALS[j] < lim else Q
    if case['compact']:
        arg = pack(a)
    else:
        n = case['n']
        a = (a * 2)[:n]
        arg = a
    want = all(x < Q for x in a)
    b = list(arg)
    got = value(hook(ctx, RANGE, b, case['compact']), ['bool'], RANGE)
    check(got is want, 'range check (%s) says %s for a polynomial whose largest coefficient is %s' %
          ('compact' if case['compact'] else 'expanded', got, max(a) if a else None))
    return ['!compact' if case['compact'] else '!expanded', 'in range' if want else 'out of range']


# ---- frozen parameters ----------------------------------------------------------------------------
NTT = 'ZKNOX_NTT'
UPD = 'update(address,address,uint256,uint256)'


def addr(i):
    return '0x' + (0x1000 + i if i else 0).to_bytes(20, 'big').hex()


def state(v, c):
    """parameters as observed from outside"""
    a = value(v.call(c, 'o_psirev()'), ['address'], 'o_psirev')
    b = value(v.call(c, 'o_psi_inv_rev()'), ['address'], 'o_psi_inv_rev')
    # no code at this address: all powers are zero, so that both transforms show the modulus and the factor
    z = [2 ** 100 + 12345] + [0] * 511
    f = list(value(v.call(c, 'ZKNOX_NTTFW(uint256[],address)', z, addr(999)), ['uint256[]'], 'ZKNOX_NTTFW'))
    g = list(value(v.call(c, 'ZKNOX_NTTINV(uint256[],address)', z, addr(999)), ['uint256[]'], 'ZKNOX_NTTINV'))
    return a.lower(), b.lower(), f[0], g[0]


def seen(p):
    a, b, q, nm = p
    z = 2 ** 100 + 12345
    return addr(a), addr(b), z % q, z * nm % q


def params(t):
    a, b, q, nm = t
    return [addr(a), addr(b), q, nm]


def run_frozen(ctx, case):
    v = vm(ctx)
    s = v.snapshot()
    labels = set()
    try:
        cur = case['init']
        c = v.deploy(NTT, ['address', 'address', 'uint256', 'uint256'], params(cur))
        frozen = False
        check(state(v, c) == seen(cur), 'NTT contract: parameters differ from those given at creation')
        for op, arg in case['ops']:
            before = state(v, c)
            if op == 'freeze':
                v.call(c, 'make_immutable()')
                frozen = True
                check(state(v, c) == before, 'NTT contract: freezing changes the parameters')
            elif op == 'update':
                r = v.call(c, UPD, *params(arg))
                now = state(v, c)
                if frozen:
                    check(now == before, 'NTT contract: parameters changed after make_immutable')
                    labels.add('!update after freeze')
                else:
                    check(r.ok and now == seen(arg), 'NTT contract: update before freezing has no effect')
                    labels.add('!update before freeze')
                    cur = arg
            else:
                check(state(v, c) == before, 'NTT contract: reading changes the parameters')
        check(state(v, c) == seen(cur), 'NTT contract: parameters are not those last set before freezing')
    finally:
        v.rollback(s)
    return sorted(labels) + (['frozen'] if frozen else [])


W = st.sampled_from(['falcon', 'ethfalcon'])
AD = st.one_of(st.integers(0, 3), st.integers(1, 40))
PAR = st.tuples(AD, AD, st.sampled_from([12289, 8380417, 97, 65537, 3]), st.one_of(st.integers(0, 3), st.integers(1, 20000)))
KINDS = ['none', 'none', 'norm', 'norm', 'bit', 'plus q', 'salt', 'digest', 'length', 'length', 'any length', 'key words', 'key data', 'other key', 'handle']
FACETS = [
    Facet('bytes', st.fixed_dictionaries(dict(VEC, c=W, k=st.sampled_from(KINDS), x=st.integers(0, 65535), norm=st.sampled_from([1000000, 33000000, BOUND]),
                                              extra=st.integers(0, 2))), run_bytes, 1500, 60000, rule='vector built',
          corners=[{'seed': i, 'delta': 0, 'frac': 8, 'sh1': 'flat', 'sh2': 'flat', 'c': c, 'k': k, 'x': i, 'norm': BOUND, 'extra': 0}
                   for c in C for k, m in (('length', 12), ('handle', 8), ('key words', 5), ('key data', 7)) for i in range(m)]),
    Facet('range', st.fixed_dictionaries({'p': polys_(), 'wide': st.sampled_from([False, False, True]), 'compact': st.booleans(),
                                          'n': st.sampled_from([512, 512, 512, 0, 1, 256, 1024]),
                                          'at': st.lists(st.tuples(st.integers(0, 511), st.integers(0, len(VALS) - 1)), max_size=2)}),
          run_range, 1500, 60000, rule='range check present',
          corners=[{'p': {'k': 'const', 's': 0}, 'wide': False, 'compact': b, 'n': 512, 'at': [[i, j]]} for b in (True, False) for i in range(512) for j in (3, 4)]),
    Facet('frozen', st.fixed_dictionaries({'init': PAR, 'ops': st.lists(st.one_of(st.tuples(st.just('update'), PAR), st.tuples(st.just('update'), PAR),
        st.tuples(st.just('freeze'), st.none()), st.tuples(st.just('read'), st.none())), max_size=7)}), run_frozen, 200, 6000, rule='parameters updated'),
]
