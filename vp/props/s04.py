"""S04: the on-chain SHAKE-256 equals the standard one."""
import hashlib
from hypothesis import strategies as st
from ..core import Facet, check
from ..solprops import *
from ..gen import Rng, blob, unblob, chunks, length

LANES = ['rand', 'bit', 'ones', 'zero', 'sparse', 'byte']
M64 = 2 ** 64 - 1
RC = [0x1, 0x8082, 0x800000000000808A, 0x8000000080008000, 0x808B, 0x80000001, 0x8000000080008081, 0x8000000000008009, 0x8A,
      0x88, 0x80008009, 0x8000000A, 0x8000808B, 0x800000000000008B, 0x8000000000008089, 0x8000000000008003, 0x8000000000008002,
      0x8000000000000080, 0x800A, 0x800000008000000A, 0x8000000080008081, 0x8000000000008080, 0x80000001, 0x8000000080008008]


def keccak_f(s):
    """FIPS 202, sections 3.2-3.3, on 25 lanes A[x + 5y]."""
    a = list(s)
    rol = lambda v, k: ((v << k) | (v >> (64 - k))) & M64 if k else v
    for rc in RC:
        c = [a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20] for x in range(5)]
        d = [c[(x - 1) % 5] ^ rol(c[(x + 1) % 5], 1) for x in range(5)]
        a = [a[i] ^ d[i % 5] for i in range(25)]
        b = list(a)
        x, y = 1, 0
        for t in range(24):
            b[x + 5 * y] = rol(a[x + 5 * y], ((t + 1) * (t + 2) // 2) % 64)
            x, y = y, (2 * x + 3 * y) % 5
        e = [0] * 25
        for x in range(5):
            for y in range(5):
                e[y + 5 * ((2 * x + 3 * y) % 5)] = b[x + 5 * y]
        a = [e[i] ^ (~e[(i % 5 + 1) % 5 + 5 * (i // 5)] & M64 & e[(i % 5 + 2) % 5 + 5 * (i // 5)]) for i in range(25)]
        a[0] ^= rc
    return a


def build(b):
    return build_sol(b, 'shake', drv=['Shake'])


def lanes(c):
    r = Rng('lanes', c['s'])
    k = c['k']
    if k == 'rand':
        a = [int.from_bytes(r.bytes(8), 'big') for _ in range(25)]
    elif k == 'bit':
        a = [0] * 25
        a[c['s'] % 25] = 1 << (c['s'] // 25 % 64)
    elif k == 'ones':
        a = [M64] * 25
        a[c['s'] % 25] ^= 1 << (c['s'] // 25 % 64)
    elif k == 'zero':
        a = [0] * 25
    elif k == 'sparse':
        a = [0] * 25
        for _ in range(1 + c['s'] % 6):
            a[r.below(25)] |= 1 << r.below(64)
    else:
        a = [r.choice([0, 1, M64, 1 << 63, 0xff << 56]) for _ in range(25)]
    return a


def run_perm(ctx, case):
    a = lanes(case)
    d = contract(ctx, 'VpShake')
    got = value(call(ctx, d, 'perm(uint64[25])', a), ['uint64[25]'], 'f1600')
    check(list(got) == keccak_f(a), 'f1600 differs from Keccak-f[1600]')
    if case.get('again'):
        got = value(call(ctx, d, 'perm(uint64[25])', list(got)), ['uint64[25]'], 'f1600')
        check(list(got) == keccak_f(keccak_f(a)), 'second f1600 differs from Keccak-f[1600]')
    return ['!' + case['k']]


def run_digest(ctx, case):
    data = unblob(case['d'])
    parts = chunks(data, case['cuts'])
    n = case['n']
    want = hashlib.shake_256(data).digest(n)
    got = value(call(ctx, contract(ctx, 'VpShake'), 'digest(bytes[],uint256)', parts, n), ['bytes'], 'shakeDigest')
    check(got == want, lambda: 'digest of %d bytes in parts %s, %d output bytes: differs from SHAKE-256' % (
        len(data), [len(p) for p in parts], n))
    lab = []
    if data and n:
        lab.append('!nonempty')
    if len(data) % 136 in (0, 135):
        lab.append('pad boundary')
    if n > 136:
        lab.append('several output blocks')
    if len(parts) > 1:
        lab.append('split input')
    return lab


def run_squeeze(ctx, case):
    data = unblob(case['d'])
    parts = chunks(data, case['cuts'])
    outs = case['outs']
    want = hashlib.shake_256(data).digest(sum(outs))
    got = value(call(ctx, contract(ctx, 'VpShake'), 'squeeze(bytes[],uint256[])', parts, outs), ['bytes'], 'shakePad/shakeSqueeze')
    check(got == want, lambda: '%d bytes in parts %s squeezed as %s: differs from SHAKE-256' % (len(data), [len(p) for p in parts], outs))
    return ['!nonempty'] if data and sum(outs) else []


def run_twice(ctx, case):
    a, b = unblob(case['a']), unblob(case['b'])
    x, y = value(call(ctx, contract(ctx, 'VpShake'), 'twice(bytes,bytes,uint256,uint256)', a, b, case['la'], case['lb']),
                 ['bytes', 'bytes'], 'two contexts')
    check(x == hashlib.shake_256(a).digest(case['la']), 'first of two contexts: differs from SHAKE-256')
    check(y == hashlib.shake_256(b).digest(case['lb']), 'second of two contexts: differs from SHAKE-256')
    return ['!two']


CUTS = st.lists(st.one_of(st.integers(0, 3000), st.sampled_from([0, 1, 135, 136, 137, 271, 272, 273])), max_size=4)
LEN = st.one_of(st.sampled_from([0, 1, 7, 8, 9, 134, 135, 136, 137, 271, 272, 273, 408, 1088]), st.integers(0, 300), st.integers(0, 1500))
BLOB = blob(2500, top=70000, ln=st.one_of(st.sampled_from([0, 1, 7, 8, 9, 134, 135, 136, 137, 138, 270, 271, 272, 273, 407, 408, 409, 1087, 1088]),
                               st.integers(0, 420), st.integers(0, 2500)))
FACETS = [
    Facet('permutation', st.fixed_dictionaries({'k': st.sampled_from(LANES), 's': st.integers(0, 2 ** 20), 'again': st.booleans()}),
          run_perm, 6000, 150000, corners=[{'k': 'zero', 's': 0, 'again': True}] + [{'k': 'bit', 's': i, 'again': False} for i in range(0, 1600, 1)],
          rule='every state'),
    Facet('digest', st.fixed_dictionaries({'d': BLOB, 'cuts': CUTS, 'n': LEN}), run_digest, 4000, 100000,
          corners=[{'d': {'n': i, 's': 7}, 'cuts': [], 'n': j} for i in (0, 1, 134, 135, 136, 137, 271, 272) for j in (0, 1, 32, 135, 136, 137, 272, 273)],
          rule='non-empty input and output'),
    Facet('squeeze', st.fixed_dictionaries({'d': BLOB, 'cuts': CUTS, 'outs': st.lists(LEN, max_size=5)}), run_squeeze, 3000, 80000,
          rule='non-empty input and output'),
    Facet('twocontexts', st.fixed_dictionaries({'a': BLOB, 'b': blob(2500), 'la': LEN, 'lb': LEN}), run_twice, 1000, 30000,
          rule='two interleaved contexts'),
]
