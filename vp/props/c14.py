"""C14: the integer-emulated floating point agrees bit for bit with IEEE-754 doubles."""
import ctypes as C
import math
from fractions import Fraction
from hypothesis import strategies as st
from ..core import Facet, check, Violation
from ..clib import Lib
from ..gen import Rng, seeds

ASSUMPTIONS = ['hardware doubles (numpy, round to nearest even) are the IEEE-754 reference; every generated operand is zero or normal',
               'the error allowed for the exponential is 2^-49*ccs plus 4 units of 2^-63 (documented: deviation of exp(-x) never above 2^-50), scales below 1']


def build(b):
    return {'lib': b.clib('nist')}


def lib(ctx):
    return ctx.get('lib', lambda: Lib(ctx.art['lib']['nist']))


OPS = {'add': 0, 'sub': 1, 'mul': 2, 'div': 3, 'sqrt': 4, 'neg': 5, 'half': 6, 'double': 7, 'lt': 8, 'rint': 9, 'floor': 10, 'trunc': 11,
       'of': 12, 'scaled': 13, 'sqr': 14, 'inv': 15}
N = 2048
MINN, MAXF = 2.2250738585072014e-308, 1.7976931348623157e308


def batch(L, op, a, b):
    import numpy as np
    r = np.zeros(len(a), dtype=np.uint64)
    L.d.vp_fpr_batch(OPS[op], a.ctypes.data_as(C.c_void_p), b.ctypes.data_as(C.c_void_p), r.ctypes.data_as(C.c_void_p), C.c_size_t(len(a)))
    return r


def operands(g, kind, n, elo, ehi):
    """n doubles as uint64, all normal or zero."""
    import numpy as np
    u = np.uint64
    sign = g.integers(0, 2, n).astype(u) << u(63)
    exp = g.integers(elo, ehi + 1, n).astype(u) << u(52)
    m = g.integers(0, 1 << 52, n).astype(u)
    if kind == 'sparse':
        m = (u(1) << g.integers(0, 52, n).astype(u)) | (g.integers(0, 2, n).astype(u) << g.integers(0, 52, n).astype(u))
    elif kind == 'dense':
        m = u((1 << 52) - 1) ^ (u(1) << g.integers(0, 52, n).astype(u)) * g.integers(0, 2, n).astype(u)
    elif kind == 'short':
        m = (m >> u(26)) << u(26)
    elif kind == 'tiny':
        m = g.integers(0, 8, n).astype(u)
    elif kind == 'high':
        m = u((1 << 52) - 1) - g.integers(0, 8, n).astype(u)
    elif kind == 'half':
        m = (u(1) << u(51)) + g.integers(0, 3, n).astype(u) - u(1)
    x = sign | exp | m
    z = g.integers(0, 200, n) == 0
    x[z] = sign[z]
    return x


def run_ops(ctx, case):
    import numpy as np
    L = lib(ctx)
    rng = Rng('fpr', case['s'])
    g = rng.np()
    op = case['op']
    mid = 1023
    w = case['w']
    elo, ehi = max(1, mid + case['e0'] - w), min(2046, mid + case['e0'] + w)
    a = operands(g, case['ka'], N, elo, ehi)
    if case['rel'] == 'near':
        # exponents within a few of the other operand's: cancellation, ties
        b = operands(g, case['kb'], N, 1, 2046)
        e = ((a >> np.uint64(52)) & np.uint64(0x7FF)).astype(np.int64) + g.integers(-56, 57, N) // g.integers(1, 29, N)
        e = np.clip(e, 1, 2046).astype(np.uint64)
        b = (b & np.uint64(0x800FFFFFFFFFFFFF)) | (e << np.uint64(52))
    elif case['rel'] == 'same':
        b = a ^ (g.integers(0, 2, N).astype(np.uint64) << np.uint64(63))
        d = g.integers(0, 4, N).astype(np.uint64)
        b = np.where(g.integers(0, 2, N) == 0, b, b ^ d)
        # flipping low bits of a zero would give a subnormal
        b = np.where((b & np.uint64(0x7FF0000000000000)) == 0, b & np.uint64(1 << 63), b)
    else:
        b = operands(g, case['kb'], N, elo, ehi)
    fa, fb = a.view(np.float64), b.view(np.float64)
    with np.errstate(all='ignore'):
        if op in ('add', 'sub', 'mul', 'div', 'sqrt', 'neg', 'half', 'double', 'sqr', 'inv'):
            if op == 'sqrt':
                a = a & np.uint64(0x7FFFFFFFFFFFFFFF)
                fa = a.view(np.float64)
            e = {'add': lambda: fa + fb, 'sub': lambda: fa - fb, 'mul': lambda: fa * fb, 'div': lambda: fa / fb, 'sqrt': lambda: np.sqrt(fa), 'neg': lambda: -fa,
                 'half': lambda: fa * 0.5, 'double': lambda: fa * 2.0, 'sqr': lambda: fa * fa, 'inv': lambda: 1.0 / fa}[op]()
            ok = np.isfinite(e) & ((np.abs(e) > MINN) | (e == 0))
            # an exact zero only where the exact result is zero (no underflow)
            if op in ('mul', 'sqr'):
                ok &= (e != 0) | (fa == 0) | ((fb == 0) & (op == 'mul'))
            if op == 'div':
                ok &= (fb != 0) & ((e != 0) | (fa == 0))
            if op == 'half':
                ok &= (e != 0) | (fa == 0)
            r = batch(L, op, a, b)
            bad = ok & (r != e.view(np.uint64))
            # the sign of a zero result is compared when the operands are not zero
            bad &= ~((e == 0) & ((r << np.uint64(1)) == 0) & ((fa == 0) | (fb == 0)))
        elif op == 'lt':
            r = batch(L, op, a, b)
            e = (fa < fb).astype(np.uint64)
            ok = ~((fa == 0) & (fb == 0))
            bad = ok & (r != e)
        elif op in ('rint', 'floor', 'trunc'):
            ok = (np.abs(fa) < 2.0 ** 62.99) & (a != np.uint64(1 << 63))
            fe = {'rint': np.rint, 'floor': np.floor, 'trunc': np.trunc}[op](fa)
            e = np.where(ok, fe, 0).astype(np.int64).view(np.uint64)
            r = batch(L, op, a, b)
            bad = ok & (r != e)
        elif op == 'of':
            sh = g.integers(0, 63, N).astype(np.int64)
            i = a.view(np.int64) >> sh
            i = np.where(i == -(1 << 63), 0, i)
            r = batch(L, op, i.view(np.uint64), b)
            e = i.astype(np.float64)
            ok = np.ones(N, dtype=bool)
            bad = r != e.view(np.uint64)
            a = i.view(np.uint64)
        elif op == 'scaled':
            sh = g.integers(0, 63, N).astype(np.int64)
            i = a.view(np.int64) >> sh
            i = np.where(i == -(1 << 63), 0, i)
            sc = g.integers(-900, 900, N).astype(np.int64)
            r = batch(L, op, i.view(np.uint64), sc.view(np.uint64))
            e = np.ldexp(i.astype(np.float64), sc)
            ok = np.isfinite(e)
            bad = ok & (r != e.view(np.uint64))
            a, b = i.view(np.uint64), sc.view(np.uint64)
    if bad.any():
        k = int(np.nonzero(bad)[0][0])
        raise Violation('fpr_%s(%016x, %016x) = %016x, IEEE-754 gives %016x' % (op, int(a[k]), int(b[k]), int(r[k]), int(np.asarray(e).view(np.uint64)[k])))
    n = int(ok.sum())
    return ['!' + op] if n > N // 8 else [op + '-out-of-range']


def run_one(ctx, case):
    """single operands, so that a failure shrinks to one pair."""
    import struct
    L = lib(ctx)
    a, b = case['a'], case['b']
    if any((x >> 52) & 0x7FF in (0, 0x7FF) and x << 1 & (2 ** 64 - 1) for x in (a, b)):
        return []
    fa, fb = (struct.unpack('<d', struct.pack('<Q', x))[0] for x in (a, b))

    def bits(x):
        return struct.unpack('<Q', struct.pack('<d', x))[0]
    lab = []
    for op in ('add', 'sub', 'mul', 'div'):
        exact = None
        x, y = Fraction(fa), Fraction(fb)
        if op == 'div' and y == 0:
            continue
        exact = {'add': x + y, 'sub': x - y, 'mul': x * y, 'div': x / y if y else 0}[op]
        if exact != 0 and not (Fraction(MINN) * 2 < abs(exact) < Fraction(MAXF)):
            continue
        e = {'add': lambda: fa + fb, 'sub': lambda: fa - fb, 'mul': lambda: fa * fb, 'div': lambda: fa / fb}[op]()
        f = getattr(L.d, 'vp_fpr_' + op)
        r = f(C.c_uint64(a), C.c_uint64(b))
        check(r == bits(e) or (e == 0 and r << 1 & (2 ** 64 - 1) == 0 and (x == 0 or y == 0)), 'fpr_%s(%016x, %016x) = %016x, IEEE-754 gives %016x' % (op, a, b, r, bits(e)))
        lab.append('!' + op)
    return lab


def exp_frac(x):
    """exp(-x) as a Fraction to about 2^-100, 0 <= x < 1."""
    t, s, k = Fraction(1), Fraction(1), 1
    while True:
        t = -t * x / k
        if abs(t) < Fraction(1, 1 << 90):
            return s
        t = Fraction(int(t * (1 << 110)), 1 << 110)
        s += t
        k += 1


def run_exp(ctx, case):
    import struct
    L = lib(ctx)
    # x in [0, ln 2), ccs in (0, 1]
    x = case['x'] / (1 << 53) * 0.69314718055994
    if case['tiny']:
        x *= 2.0 ** -case['tiny']
    ccs = max(1, case['c']) / (1 << 53)

    def bits(v):
        return struct.unpack('<Q', struct.pack('<d', v))[0]
    r = L.d.vp_fpr_expm_p63(C.c_uint64(bits(x)), C.c_uint64(bits(ccs)))
    exact = Fraction(ccs) * exp_frac(Fraction(x)) * (1 << 63)
    err = abs(Fraction(r) - exact)
    check(err <= Fraction(ccs) * (1 << 14) + 4, lambda: 'fpr_expm_p63(%r, %r) = %d, exact value %d (error %.1f)' % (x, ccs, r, int(exact), float(err)))
    return ['!exp']


KINDS = ['rnd', 'rnd', 'sparse', 'dense', 'short', 'tiny', 'high', 'half']
op_strat = st.fixed_dictionaries({'op': st.sampled_from(['add', 'add', 'sub', 'mul', 'mul', 'div', 'div', 'sqrt', 'neg', 'half', 'double', 'lt', 'rint', 'floor', 'trunc', 'of', 'scaled', 'sqr', 'inv']),
                                  's': seeds(), 'ka': st.sampled_from(KINDS), 'kb': st.sampled_from(KINDS), 'rel': st.sampled_from(['near', 'near', 'same', 'free']),
                                  'e0': st.one_of(st.integers(-60, 70), st.integers(-900, 900)), 'w': st.sampled_from([0, 1, 5, 30, 100, 700])})
normal = st.builds(lambda s, e, m: s << 63 | e << 52 | m, st.integers(0, 1), st.one_of(st.integers(1, 2046), st.integers(950, 1100)),
                   st.one_of(st.integers(0, 2 ** 52 - 1), st.integers(0, 3), st.integers(2 ** 52 - 4, 2 ** 52 - 1), st.builds(lambda k: 1 << k, st.integers(0, 51))))
one = st.one_of(normal, st.sampled_from([0, 1 << 63]))
FACETS = [Facet('batch', op_strat, run_ops, 48000, 3000000, rule='batches of %d operand pairs with at least an eighth of the results in range' % N),
          Facet('pairs', st.fixed_dictionaries({'a': one, 'b': one}), run_one, 48000, 1000000, rule='operand pairs with an in-range exact result'),
          Facet('exp', st.fixed_dictionaries({'x': st.one_of(st.integers(0, 2 ** 53 - 1), st.integers(0, 100)), 'tiny': st.sampled_from([0, 0, 0, 1, 5, 20, 50, 300]),
                                              'c': st.one_of(st.integers(2 ** 51, 2 ** 53 - 1), st.integers(0, 2 ** 53 - 1), st.just(2 ** 53 - 1))}), run_exp, 24000, 600000,
                rule='argument in [0, ln 2) and scale in (0, 1]')]
