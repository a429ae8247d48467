"""P10: Blake2s implementation equals the standard for every message and split."""
import hashlib
import struct
from hypothesis import strategies as st
from ..core import Facet, check, sut
from .. import pyref
from ..pyref import ROOT
from ..gen import Rng, blob, unblob, seeds
import os
import sys
import importlib.util

M32 = 0xFFFFFFFF


def build(b):
    return {}


def blake(ctx):
    def load():
        s = importlib.util.spec_from_file_location('vp_blake2s', os.path.join(ROOT, 'blake2s', 'blake2s.py'))
        m = importlib.util.module_from_spec(s)
        s.loader.exec_module(m)
        return m
    return ctx.get('blake', load)


IV = [0x6A09E667, 0xBB67AE85, 0x3C6EF372, 0xA54FF53A, 0x510E527F, 0x9B05688C, 0x1F83D9AB, 0x5BE0CD19]
SIG = [[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15], [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
       [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4], [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
       [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13], [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
       [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11], [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
       [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5], [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0]]


def ror(x, r):
    return (x >> r | x << (32 - r)) & M32


def ref_compress(h, m, t0, t1, f0, f1):
    v = list(h) + IV[:4] + [IV[4] ^ t0, IV[5] ^ t1, IV[6] ^ f0, IV[7] ^ f1]

    def g(a, b, c, d, x, y):
        v[a] = (v[a] + v[b] + x) & M32
        v[d] = ror(v[d] ^ v[a], 16)
        v[c] = (v[c] + v[d]) & M32
        v[b] = ror(v[b] ^ v[c], 12)
        v[a] = (v[a] + v[b] + y) & M32
        v[d] = ror(v[d] ^ v[a], 8)
        v[c] = (v[c] + v[d]) & M32
        v[b] = ror(v[b] ^ v[c], 7)
    for s in SIG:
        for i, (a, b, c, d) in enumerate(((0, 4, 8, 12), (1, 5, 9, 13), (2, 6, 10, 14), (3, 7, 11, 15), (0, 5, 10, 15), (1, 6, 11, 12), (2, 7, 8, 13), (3, 4, 9, 14))):
            g(a, b, c, d, m[s[2 * i]], m[s[2 * i + 1]])
    return [h[i] ^ v[i] ^ v[i + 8] for i in range(8)]


def word(r):
    return r.choice([0, M32, 1, 1 << 31, r.below(2 ** 32), r.below(2 ** 32), r.below(2 ** 32)])


def run_compress(ctx, case):
    r = Rng('c', case['s'])
    B = blake(ctx)
    h = [word(r) for _ in range(8)]
    m = [word(r) for _ in range(16)]
    t = [word(r) for _ in range(4)]
    if case['fl'] == 1:
        t[2:] = [M32, 0]
    elif case['fl'] == 2:
        t[1:] = [0, 0, 0]
    h0, m0 = list(h), list(m)
    with sut('blake2s_compress'):
        o = B.blake2s_compress(h, m, *t)
    check(list(o) == ref_compress(h0, m0, *t), 'blake2s_compress(t0=%d, t1=%d, f0=%x, f1=%x) is wrong' % tuple(t))
    check(h == h0 and m == m0, 'blake2s_compress changes its arguments')
    return ['!']


def run_digest(ctx, case):
    """hashing a message block by block gives the standard digest (any output size, key-less)."""
    B = blake(ctx)
    msg = unblob(case['msg'])
    dl = case['dl']
    h = list(B.IV)
    check(h == IV, 'initial vector was changed')
    h[0] ^= 0x01010000 ^ dl
    blocks = [msg[i:i + 64] for i in range(0, len(msg), 64)] or [b'']
    t = 0
    with sut('blake2s_compress'):
        for i, b in enumerate(blocks):
            t += len(b)
            h = B.blake2s_compress(h, list(struct.unpack('<16I', b.ljust(64, b'\x00'))), t & M32, t >> 32, M32 if i == len(blocks) - 1 else 0, 0)
    d = b''.join(struct.pack('<I', x) for x in h)[:dl]
    check(d == hashlib.blake2s(msg, digest_size=dl).digest(), 'digest of a %d-byte message differs' % len(msg))
    with sut('blake_state_into_felt'):
        x = B.blake_state_into_felt(state=list(h), prime=B.PRIME)
    check(x == int.from_bytes(b''.join(struct.pack('<I', y) for y in h), 'little') % (2 ** 251 + 17 * 2 ** 192 + 1), 'blake_state_into_felt')
    return ['!%dblocks' % min(len(blocks), 9)]


P = 2 ** 251 + 17 * 2 ** 192 + 1


def run_felts(ctx, case):
    B = blake(ctx)
    r = Rng('f', case['s'])
    data = [r.choice([0, 1, 2 ** 63 - 1, 2 ** 63, 2 ** 63 + 1, P - 1, P, P + 5, 2 ** 255, 2 ** 32, r.below(P), r.below(2 ** 63), r.below(2 ** 64), r.below(2 ** 256)])
            for _ in range(case['n'])]
    enc, le = case['enc'], case['le']
    ws = []
    for v in data:
        v %= P
        k = 2 if enc and v < 2 ** 63 else 8
        if enc and k == 8:
            v += 2 ** 255
        w = [(v >> (32 * i)) & M32 for i in range(k)]
        ws += w if le else w[::-1]
    exp = int.from_bytes(hashlib.blake2s(b''.join(struct.pack('<I', w) for w in ws)).digest(), 'little') % P
    d0 = list(data)
    with sut('calculate_blake2s_hash_from_felt252s'):
        got = B.calculate_blake2s_hash_from_felt252s(data, enc, le)
    check(got == exp, 'hash of %d field elements (encode=%s, little_endian=%s, %d words) differs from BLAKE2s' % (len(data), enc, le, len(ws)))
    check(data == d0, 'the input list is changed')
    return ['!%dblocks' % min((len(ws) + 15) // 16, 9)]


FACETS = [
    Facet('compress', lambda ctx: st.fixed_dictionaries({'s': seeds(), 'fl': st.integers(0, 2)}), run_compress, 24000, 200000, rule='arbitrary states, blocks, counters and flags'),
    Facet('digest', lambda ctx: st.fixed_dictionaries({'msg': blob(1500), 'dl': st.sampled_from([32, 32, 16, 1, 20, 31])}), run_digest, 8000, 60000,
          [{'msg': {'n': n, 's': 3}, 'dl': 32} for n in (0, 1, 63, 64, 65, 127, 128, 129, 192, 256)], rule='whole messages'),
    Facet('felts', lambda ctx: st.fixed_dictionaries({'s': seeds(), 'n': st.integers(0, 12), 'enc': st.booleans(), 'le': st.booleans()}), run_felts, 16000, 100000,
          [{'s': 1, 'n': n, 'enc': e, 'le': l} for n in (0, 1, 2, 4, 8, 40, 140, 600, 2100) for e in (False, True) for l in (False, True)], rule='field element lists'),
]
