"""C17: control flow and memory accesses of the documented constant-time code do not depend on the values."""
import ctypes as C
import os
import numpy as np
from hypothesis import strategies as st
from ..core import Facet, check, sut, VERIF
from .. import model as M
from ..cprops import key
from ..gen import Rng, seeds, ubytes
from ..clib import Lib
from .c14 import operands
from .c15 import poly, KINDS

ASSUMPTIONS = ['"the same path" means the same sequence of basic blocks and of addresses of loads and stores in the optimised intermediate code of clang (-O2 without vectorisation); instruction timing is outside the check',
               'the two runs of a pair use the same buffers, so every address is comparable']
FLAGS = ['-fPIC', '-O2', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores,no-prune']


def build(b):
    return {'lib': b.clib('nist'), 'ct': b.trace(FLAGS)}


class Trace:
    """Calls a function twice on two sets of values and compares the traces."""

    def __init__(self, path):
        self.d = C.CDLL(path)
        self.d.vp_ct_where.restype = C.c_char_p
        self.buf = {}

    def fn(self, name):
        try:
            f = getattr(self.d, name)
        except AttributeError:
            f = getattr(self.d, 'falcon_inner_' + name)
        return C.cast(f, C.c_void_p)

    def area(self, i, n):
        """buffer i of at least n bytes, 64-byte aligned, always at the same place"""
        if i not in self.buf or self.buf[i][1] < n:
            m = max(n, 1 << 17)
            raw = np.zeros(m + 64, dtype=np.uint8)
            a = raw.ctypes.data
            self.buf[i] = (raw, m, a + (-a) % 64)
        return self.buf[i][2]

    def pair(self, name, args, what=None):
        """args: ints, (a, b) pairs of ints, or [a, b] pairs of byte strings / arrays (a buffer). Returns (retA, retB, [(outA, outB)..], events)."""
        va, vb, bufs = [], [], []
        for x in args:
            if isinstance(x, list):
                a, b = (np.frombuffer(bytes(y) if isinstance(y, (bytes, bytearray)) else np.ascontiguousarray(y).tobytes(), dtype=np.uint8).copy() for y in x)
                assert len(a) == len(b)
                p = self.area(len(bufs), len(a))
                bufs.append((p, a, b))
                va.append(p)
                vb.append(p)
            elif isinstance(x, tuple):
                va.append(int(x[0]) & M64)
                vb.append(int(x[1]) & M64)
            else:
                va.append(int(x) & M64)
                vb.append(int(x) & M64)
        U = C.c_uint64 * 8
        P = C.c_void_p * max(1, len(bufs))
        L = C.c_uint64 * max(1, len(bufs))
        out = (C.c_uint64 * 7)()
        va += [0] * (8 - len(va))
        vb += [0] * (8 - len(vb))
        self.d.vp_ct_pair(self.fn(name), U(*va), U(*vb), C.c_size_t(len(bufs)), P(*[b[0] for b in bufs]), P(*[b[1].ctypes.data for b in bufs]),
                          P(*[b[2].ctypes.data for b in bufs]), L(*[len(b[1]) for b in bufs]), out)
        self.same = out[2] == out[3] and out[4] == out[5]
        self.out = list(out)
        self.events = out[4]
        self.what = what or name
        return out[0], out[1], [(b[1], b[2]) for b in bufs]

    def verdict(self, detail=''):
        check(self.same, lambda: '%s: the path depends on the values (%s): %d and %d events, first difference at event %d in %s'
              % (self.what, detail, self.out[4], self.out[5], self.out[6] if self.out[6] < 1 << 62 else -1, self.d.vp_ct_where().decode()))


M64 = (1 << 64) - 1
TR = lambda ctx: ctx.get('ct', lambda: Trace(ctx.art['ct']))


# ---------------------------------------------------------------- fpr
FOPS = ['add', 'sub', 'mul', 'div', 'sqrt', 'sqr', 'inv', 'neg', 'half', 'double', 'lt', 'rint', 'floor', 'trunc', 'of', 'scaled', 'expm_p63']
OK = ['any', 'any', 'sparse', 'dense', 'short', 'tiny', 'high', 'half']


def ints(g, n):
    """64-bit integers of all sizes"""
    v = g.integers(-2 ** 63 + 1, 2 ** 63 - 1, n)
    return np.where(g.integers(0, 12, n) == 0, 0, v >> g.integers(0, 63, n))


def run_fpr(ctx, case):
    T = TR(ctx)
    op, n = case['op'], 24
    g = Rng('c17f', case['s']).np()
    e = {'rint': (960, 1084), 'floor': (960, 1084), 'trunc': (960, 1084), 'div': (600, 1400), 'inv': (600, 1400), 'mul': (600, 1400), 'sqr': (600, 1400)}.get(op, (200, 1800))
    w = case['near']
    if w:
        e = (1020, 1026)
    x = operands(g, case['ka'], n, *e)
    y = operands(g, case['kb'], n, *e)
    if w and n > 8:
        y[:8] = x[:8] ^ np.array([0, 1, 1 << 63, (1 << 63) | 1, 1 << 51, 1 << 52, 3 << 52, 0], dtype=np.uint64)     # equal, adjacent, opposite
    one = np.uint64(0x3FF0000000000000)
    for i in range(n):
        j = int(g.integers(0, n))
        a, b = int(x[i]), int(x[j])
        c, d = int(y[i]), int(y[int(g.integers(0, n))])
        if op in ('sqrt',):
            a, b = a & ~(1 << 63), b & ~(1 << 63)
        if op in ('div',):
            c, d = (z if z << 1 & M64 else int(one) for z in (c, d))
        if op == 'inv':
            a, b = (z if z << 1 & M64 else int(one) for z in (a, b))
        if op in ('of', 'scaled'):
            a, b = (int(z) for z in ints(g, 2))
            c, d = (int(z) for z in g.integers(-300, 300, 2))
        if op == 'expm_p63':
            a, b, c, d = (int(np.float64(z).view(np.uint64)) for z in (g.random() * 0.6931, g.random() * 0.6931, g.random() * 0.99, g.random() ** 8 * 0.99))
        T.pair('vp_fpr_' + op, [(a, b), (c, d)], 'fpr_' + op)
        T.verdict('operands %016x, %016x and %016x, %016x' % (a & M64, c & M64, b & M64, d & M64))
    return ['!' + op]


# ---------------------------------------------------------------- FFT and polynomials
POPS = {'FFT': 1, 'iFFT': 1, 'poly_add': 2, 'poly_sub': 2, 'poly_neg': 1, 'poly_adj_fft': 1, 'poly_mul_fft': 2, 'poly_muladj_fft': 2, 'poly_mulselfadj_fft': 1,
        'poly_mulconst': 1, 'poly_div_fft': 2, 'poly_invnorm2_fft': 3, 'poly_add_muladj_fft': 5, 'poly_mul_autoadj_fft': 2, 'poly_div_autoadj_fft': 2,
        'poly_LDL_fft': 3, 'poly_LDLmv_fft': 5, 'poly_split_fft': 3, 'poly_merge_fft': 3}


def run_poly(ctx, case):
    T = TR(ctx)
    op, ln = case['op'], case['logn']
    n = 1 << ln
    args = []
    for i in range(POPS[op]):
        v = []
        for side in (0, 1):
            k = case['kinds'][side]
            p = poly(n, k, case['s'] * 8 + i + 100 * side)
            if op in ('poly_div_fft', 'poly_div_autoadj_fft', 'poly_invnorm2_fft', 'poly_LDL_fft', 'poly_LDLmv_fft') and not p.all():
                p = p + (p == 0) * 1.5                # denominators other than zero
            v.append(p)
        args.append(v)
    if op == 'poly_mulconst':
        args.append(tuple(int(np.float64(k).view(np.uint64)) for k in (case['s'] % 7 - 3.0, (case['s'] >> 4) % 1000 / 8.0)))
    T.pair(op, args + [ln])
    T.verdict('logn %d, %s' % (ln, case['kinds']))
    return ['!' + op if case['kinds'][0] != case['kinds'][1] else op, 'logn=%d' % ln]


# ---------------------------------------------------------------- private keys
def i8(v):
    return np.array([int(x) for x in v], dtype=np.int8)


def fullkey(ctx, k):
    c = ctx.get('fk', dict)
    if k not in c:
        d = key(ctx, k)
        # G from the NTRU equation by the library itself (decided in C05)
        L = ctx.get(('lib', 'nist'), lambda: Lib(ctx.art['lib']['nist']))
        G = np.zeros(512, dtype=np.int8)
        f, g, F = i8(d['f']), i8(d['g']), i8(d['F'])
        tmp = np.zeros(1 << 15, dtype=np.uint8)
        p = lambda a: C.c_void_p(a.ctypes.data)
        r = L.z('complete_private')(p(G), p(f), p(g), p(F), 9, p(tmp))
        check(r == 1, 'complete_private on a generated key')
        c[k] = (f, g, F, G)
    return c[k]


KOPS = ['expand', 'encode', 'decode', 'public', 'complete', 'short', 'ntt', 'short']


def run_keys(ctx, case):
    T = TR(ctx)
    op = case['op']
    A, B = fullkey(ctx, case['a']), fullkey(ctx, case['b'])
    tmp = lambda n: [bytes(n), bytes(n)]
    lab = ['!' + op if case['a'] != case['b'] else op]
    r = Rng('c17k', case['s']).np()
    if op == 'expand':
        ra, rb, bufs = T.pair('expand_privkey', [tmp(8 * (8 * 9 + 40) * 512 // 8)] + [[x, y] for x, y in zip(A, B)] + [9, tmp(48 * 512)], 'expand_privkey')
    elif op in ('encode', 'decode'):
        i = case['s'] % 4
        bits = [6, 6, 8, 8][i]
        n = 512 * bits // 8
        if op == 'encode':
            ra, rb, bufs = T.pair('trim_i8_encode', [tmp(n), n, [A[i], B[i]], 9, bits])
            check(ra == rb == n, 'trim_i8_encode on a generated key')
        else:
            src = [int(''.join(format(int(x) & ((1 << bits) - 1), '0%db' % bits) for x in K[i]), 2).to_bytes(n, 'big') for K in (A, B)]
            ra, rb, bufs = T.pair('trim_i8_decode', [tmp(512), 9, bits, src, n])
            check(ra == rb == n, 'trim_i8_decode of a generated key')
    elif op == 'public':
        ra, rb, _ = T.pair('compute_public', [tmp(1024), [A[0], B[0]], [A[1], B[1]], 9, tmp(4 * 512)])
        check(ra & 0xffffffff == rb & 0xffffffff == 1, 'compute_public on a generated key')
    elif op == 'complete':
        ra, rb, _ = T.pair('complete_private', [tmp(512)] + [[A[i], B[i]] for i in (0, 1, 2)] + [9, tmp(4 * 512 * 2)])
        check(ra & 0xffffffff == rb & 0xffffffff == 1, 'complete_private on a generated key')
    elif op == 'short':
        ln = 1 + case['s'] % 10
        n = 1 << ln
        v = [r.integers(-m, m + 1, n).astype(np.int16) for m in r.choice([3, 40, 200, 2047, 32767], 4)]
        if case['s'] & 64:
            T.pair('is_short', [[v[0], v[1]], [v[2], v[3]], ln])
        else:
            T.pair('is_short_half', [tuple(int(x) for x in r.integers(0, 2 ** 32, 2)), [v[2], v[3]], ln])
    else:
        ln = 1 + case['s'] % 10
        n = 1 << ln
        v = [r.integers(0, 12289, n).astype(np.uint16) for _ in range(2)]
        if case['s'] & 64:
            v[0][:] = [0, 12288, 1][case['s'] % 3]
        T.pair('to_ntt_monty' if case['s'] & 128 else 'to_ntt', [v, ln])
    T.verdict('keys %d and %d' % (case['a'], case['b']))
    return lab


# ---------------------------------------------------------------- hashing and generators
SYM = ['shake', 'keccak', 'chacha', 'h2p_ct', 'gauss0', 'sampler', 'h2p_ct']


def run_sym(ctx, case):
    T = TR(ctx)
    d = T.d
    op, s, n = case['op'], case['s'], case['n']
    r = Rng('c17s', s)
    two = lambda m: [r.bytes(m), (bytes(m), b'\xff' * m, r.bytes(m))[s % 3]]
    rep = 1
    if op in ('shake', 'keccak'):
        pre = 'vp_shake_' if op == 'shake' else 'vp_kp_'
        size = (d.vp_sizeof_shake if op == 'shake' else d.vp_sizeof_keccak_prng)()
        c = C.create_string_buffer(size)
        getattr(d, pre + 'init')(c)
        ctxs = [c.raw, c.raw]
        total = 0
        for m in [n % 300, (n * 7) % 140, s % 137]:
            _, _, bufs = T.pair(pre + 'inject', [ctxs, two(m) if m else [b'\0', b'\0'], m])
            T.verdict('%d bytes' % m)
            ctxs = [x.tobytes() for x in bufs[0]]
        _, _, bufs = T.pair(pre + 'flip', [ctxs])
        T.verdict()
        ctxs = [x.tobytes() for x in bufs[0]]
        for m in [n % 290, (n * 5) % 140]:
            _, _, bufs = T.pair(pre + 'extract', [ctxs, [bytes(max(1, m))] * 2, m])
            T.verdict('%d bytes' % m)
            ctxs = [x.tobytes() for x in bufs[0]]
        return ['!' + op]
    sc = []
    for side in (0, 1):
        c = C.create_string_buffer(d.vp_sizeof_shake())
        d.vp_shake_init(c)
        x = r.bytes(40 + n % 200)
        d.vp_shake_inject(c, x, C.c_size_t(len(x)))
        d.vp_shake_flip(c)
        sc.append(c.raw)
    if op == 'h2p_ct':
        ln = 1 + n % 10
        T.pair('hash_to_point_ct', [sc, [bytes(2 << ln)] * 2, ln, [bytes(2 << ln)] * 2])
        T.verdict('logn %d' % ln)
        return ['!' + op]
    if op == 'chacha':
        size = d.vp_sizeof_prng()
        _, _, bufs = T.pair('prng_init', [[bytes(size)] * 2, sc])
        T.verdict()
        _, _, bufs = T.pair('prng_refill', [[x.tobytes() for x in bufs[0]]])
        T.verdict()
        for m in (n % 600, 1 + n % 31):
            _, _, bufs = T.pair('prng_get_bytes', [[x.tobytes() for x in bufs[0]], [bytes(max(1, m))] * 2, m])
            T.verdict()
        return ['!' + op]
    # samplers: same generator state (position), different random bytes
    size = d.vp_sizeof_sampler()
    st_ = []
    logn = 1 + s % 10
    from .c16 import SIGMIN
    for side in (0, 1):
        c = C.create_string_buffer(size)
        seed = r.bytes(20)
        d.vp_sampler_init(c, seed, C.c_size_t(20), C.c_uint64(int(np.float64(SIGMIN[1 << logn]).view(np.uint64))))
        b = r.bytes(512)
        if s % 5 == side:
            b = (bytes(9) + b)[:512]               # largest value of the table
        d.vp_sampler_feed(c, b)
        st_.append(c.raw)
    if op == 'gauss0':
        for _ in range(12):
            _, _, bufs = T.pair('vp_gaussian0', [st_], 'gaussian0_sampler')
            T.verdict()
            st_ = [x.tobytes() for x in bufs[0]]
        return ['!' + op]
    # sampler: pairs of calls that accept at the same attempt and draw the same number of bytes
    g = r.np()
    lab = ['sampler-unequal']
    for _ in range(24):
        mu = [float(g.normal(0, 10 ** g.integers(0, 4))) for _ in (0, 1)]
        isg = [float(1 / (SIGMIN[1 << logn] + (1.8204 - SIGMIN[1 << logn]) * g.random() ** 3)) for _ in (0, 1)]
        b = [int(np.float64(x).view(np.uint64)) for x in mu + isg]
        for side in (0, 1):
            c = C.create_string_buffer(st_[side], size)
            b_ = bytearray(r.bytes(512))
            for at in (0, 11, 22):                  # now and then a large value of the half-Gaussian
                if r.below(4) == 0:
                    k = r.below(10)
                    b_[at + 9 - k:at + 9] = bytes(k)       # the last of these bytes is the most significant
                    b_[max(at, at + 8 - k)] &= r.below(256)
            d.vp_sampler_feed(c, bytes(b_))
            st_[side] = c.raw
        _, _, bufs = T.pair('vp_sampler', [st_, (b[0], b[1]), (b[2], b[3])], 'sampler')
        ptr = []
        for x in bufs[0]:
            c = C.create_string_buffer(x.tobytes(), size)
            ptr.append(int(d.vp_sampler_ptr(c)))
        if ptr[0] == ptr[1] and (11 <= ptr[0] <= 18 or ptr[0] in (22, 33)):    # the same number of attempts, as many acceptance bytes in each
            T.verdict('mu %r, 1/sigma %r' % (mu, isg))
            lab = ['!' + op]
    return lab


S32 = seeds(32)
FACETS = [
    Facet('fpr', st.fixed_dictionaries({'op': st.sampled_from(FOPS), 'ka': st.sampled_from(OK), 'kb': st.sampled_from(OK), 'near': st.booleans(), 's': S32}),
          run_fpr, quick=1500, thorough=60000, rule='the same path on every pair of operands',
          corners=[{'op': o, 'ka': 'any', 'kb': 'any', 'near': w, 's': 5 + i} for o in FOPS for w in (False, True) for i in range(2)]),
    Facet('poly', st.fixed_dictionaries({'op': st.sampled_from(sorted(POPS)), 'logn': st.integers(1, 10), 's': S32,
                                         'kinds': st.lists(st.sampled_from(KINDS), min_size=2, max_size=2)}),
          run_poly, quick=800, thorough=20000, rule='two different kinds of polynomial',
          corners=[{'op': o, 'logn': l, 's': l, 'kinds': k} for o in sorted(POPS) for l in (1, 2, 3, 9) for k in (['small', 'zero'], ['gauss', 'large'])]),
    Facet('keys', st.fixed_dictionaries({'op': st.sampled_from(KOPS), 'a': st.integers(0, 11), 'b': st.integers(12, 23), 's': S32}),
          run_keys, quick=240, thorough=6000, rule='two different keys',
          corners=[{'op': o, 'a': 0, 'b': 1, 's': s} for o in sorted(set(KOPS)) for s in (0, 1, 2, 3, 64, 129, 192, 200)]),
    Facet('sym', st.fixed_dictionaries({'op': st.sampled_from(SYM), 'n': st.integers(0, 4000), 's': S32}),
          run_sym, quick=1000, thorough=40000, rule='values differ, sizes are equal; sampler: as many attempts and acceptance bytes',
          corners=[{'op': o, 'n': n, 's': n} for o in sorted(set(SYM)) for n in (0, 1, 8, 9, 135, 136, 137, 1000)]),
]
