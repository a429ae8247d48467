"""Shared generators.  Cases are JSON-able; bulk bytes are expanded from small drawn seeds."""
import hashlib
from hypothesis import strategies as st

LENS = [0, 1, 2, 31, 32, 33, 39, 40, 41, 55, 56, 63, 64, 65, 94, 95, 96, 97, 127, 128, 129, 134, 135, 136, 137, 231, 232,
        233, 255, 256, 257, 271, 272, 273, 511, 512, 513, 614, 1023, 1024, 1025, 1330, 2048, 3300]

HUGE = sorted({m * 2 ** k + d for m, k in ((1, 12), (1, 13), (1, 14), (1, 15), (1, 16), (1, 17), (3, 16), (1, 18), (1, 20), (1, 21)) for d in (-41, -40, -1, 0, 1, 77)} | {136 * 500 - 1, 136 * 500, 136 * 512, 70000, 100000, 1000000})


def seeds(bits=32):
    return st.integers(0, 2 ** bits - 1)


def length(maxlen=5000):
    return st.one_of(st.sampled_from([x for x in LENS if x <= maxlen]), st.integers(0, min(200, maxlen)),
                     st.integers(0, maxlen))


@st.composite
def blob(draw, maxlen=5000, ln=None, top=0, rate=40):
    """{'n': length, 's': seed} or {'hex': ...}; once in `rate` draws much longer, up to `top` bytes"""
    if top and draw(st.integers(0, rate)) == rate:
        return {'n': draw(st.sampled_from([x for x in HUGE if x <= top])), 's': draw(st.integers(0, 2 ** 20))}
    if draw(st.booleans()):
        return {'hex': draw(st.binary(max_size=min(64, maxlen))).hex()}
    return {'n': draw(ln if ln is not None else length(maxlen)), 's': draw(st.integers(0, 2 ** 20))}


def unblob(b):
    if 'hex' in b:
        return bytes.fromhex(b['hex'])
    if b['s'] == 0:
        return b'\x00' * b['n']
    if b['s'] == 1:
        return b'\xff' * b['n']
    return hashlib.shake_128(b'blob%d' % b['s']).digest(b['n'])


def ubytes(tag, seed, n):
    return hashlib.shake_128(('%s/%s' % (tag, seed)).encode()).digest(n)


class Rng:
    """Deterministic expansion of one drawn seed (pure function of the case)."""

    def __init__(self, *seed):
        self.key = repr(seed).encode()
        self.buf = b''
        self.ctr = 0

    def bytes(self, n):
        while len(self.buf) < n:
            self.buf += hashlib.shake_128(self.key + b'|%d' % self.ctr).digest(max(4096, n))
            self.ctr += 1
        r, self.buf = self.buf[:n], self.buf[n:]
        return r

    def below(self, n):
        return int.from_bytes(self.bytes(max(8, n.bit_length() // 8 + 8) if n >= 2 ** 32 else 8), 'big') % n

    def randint(self, a, b):
        return a + self.below(b - a + 1)

    def choice(self, l):
        return l[self.below(len(l))]

    def np(self):
        import numpy as np
        return np.random.Generator(np.random.PCG64(int.from_bytes(self.bytes(8), 'big')))


def chunks(data, cuts):
    """split data at the given cut positions (mod len+1)."""
    pts = sorted(c % (len(data) + 1) for c in cuts)
    out, p = [], 0
    for c in pts:
        out.append(data[p:c])
        p = c
    out.append(data[p:])
    return out
