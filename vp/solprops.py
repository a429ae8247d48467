"""Shared by the properties of the Solidity code: the contracts are translated to C and run (vp/sol)."""
import glob
import os
from hypothesis import strategies as st
from . import model as M
from .core import REPO, check
from .gen import Rng
from .sol import vm as V

Q = M.Q
N = 512
FOUND = {}


def roots(*names):
    return ['src/ZKNOX_%s.sol' % x if not x.startswith('external/') else x for x in names]


def build_sol(b, *names, drv=()):
    """names: source files; drv: driver contracts of vp/sol/drv compiled with them"""
    so = os.path.join(b.scratch, 'sol.so')
    extra = {'vpdrv/%s.sol' % d: open(os.path.join(V.HERE, 'drv', d + '.sol')).read() for d in drv}
    notes = V.compile_sol(REPO, so, roots(*names) + sorted(extra), extra=extra)
    for n in notes:
        print('note: ' + n)
    return {'sol': so}


def vm(ctx):
    return ctx.get('vm', lambda: V.VM(ctx.art['sol']))


class gone(Exception):
    pass


def has(ctx, name):
    """whether an internal function still exists under this name (a refactoring may remove it)"""
    try:
        vm(ctx).find(name)
        return True
    except V.NoAnswer:
        return False


def hook(ctx, name, *args, **kw):
    v = vm(ctx)
    s = v.snapshot()
    try:
        return v.hook(name, *args, **kw)
    finally:
        v.rollback(s)


def contract(ctx, name, types=(), args=()):
    return ctx.get(('contract', name, repr(args)), lambda: vm(ctx).deploy(name, types, args))


def call(ctx, addr, sig, *args):
    v = vm(ctx)
    s = v.snapshot()
    try:
        return v.call(addr, sig, *args)
    finally:
        v.rollback(s)


def raw(ctx, addr, data):
    v = vm(ctx)
    s = v.snapshot()
    try:
        return v.raw(addr, data)
    finally:
        v.rollback(s)


def value(r, types, what):
    """decoded return values; a revert is a violation"""
    check(r.ok, lambda: '%s: %s' % (what, r.error()))
    try:
        x = V.dec(types, r)
    except Exception as e:
        check(False, '%s: returned data does not decode (%s)' % (what, e))
    return x[0] if len(x) == 1 else x


def refused(r, what):
    check(not r.ok, lambda: '%s: accepted (returned %s)' % (what, r.data.hex()[:80]))


# ---- polynomials -----------------------------------------------------------------------------
POLY = ['rand', 'rand', 'rand', 'small', 'sparse', 'const', 'edge', 'mono', 'alt', 'ramp']


@st.composite
def polys_(draw):
    """{'k': kind, 's': seed, 'p': [[pos, value], ...]}"""
    c = {'k': draw(st.sampled_from(POLY)), 's': draw(st.integers(0, 2 ** 20))}
    m = draw(st.integers(0, 3))
    if m:
        c['p'] = [[draw(st.integers(0, N - 1)), draw(st.sampled_from([0, 1, 2, 6143, 6144, 6145, Q - 2, Q - 1]))] for _ in range(m)]
    return c


def poly(c, lim=Q, n=N):
    """expand to n values below lim"""
    r = Rng('poly', c['s'])
    k = c['k']
    if k == 'rand':
        x = [r.below(lim) for _ in range(n)]
    elif k == 'small':
        w = 1 + c['s'] % 300
        x = [(r.below(2 * w + 1) - w) % lim for _ in range(n)]
    elif k == 'sparse':
        x = [0] * n
        for _ in range(1 + c['s'] % 8):
            x[r.below(n)] = r.below(lim)
    elif k == 'const':
        v = [0, 1, lim - 1, lim // 2, r.below(lim)][c['s'] % 5]
        x = [v] * n
    elif k == 'edge':
        e = [0, 1, lim - 1, lim - 2, lim // 2, lim // 2 + 1]
        x = [r.choice(e) for _ in range(n)]
    elif k == 'mono':
        x = [0] * n
        x[c['s'] % n] = [1, lim - 1, r.below(lim)][(c['s'] // n) % 3]
    elif k == 'alt':
        a, b = r.below(lim), r.below(lim)
        x = [b if i & 1 else a for i in range(n)]
    else:
        s = r.below(lim)
        x = [(s * i + c['s']) % lim for i in range(n)]
    for i, v in c.get('p', []):
        x[i % n] = v % lim
    return x


def pack(a):
    """512 16-bit values -> 32 words"""
    return [sum(a[16 * i + j] << (16 * j) for j in range(16)) for i in range(len(a) // 16)]


def unpack(w):
    return [(x >> (16 * j)) & 0xffff for x in w for j in range(16)]


def ints(x):
    return [int(v) for v in x]


# ---- signature vectors without a secret key ----------------------------------------------------
HASHES = {'falcon': 'shake', 'ethfalcon': 'keccak', 'epervier': 'shake', 'ethepervier': 'keccak'}
SHAPES = ['flat', 'uniform', 'few', 'half', 'one']
# what a norm kept in 31, 32, 33 or 34 bits loses
WRAPS = [1 << 31, 1 << 32, 2 << 32, 3 << 32, 5 << 32, 7 << 32, 1 << 33, 1 << 34]
VEC = {'seed': st.integers(0, 2 ** 32), 'delta': st.one_of(st.integers(-2, 2), st.sampled_from([0, 1]), st.integers(-30000000, 30000000)),
       'frac': st.integers(0, 16), 'wrap': st.sampled_from([0] * 12 + WRAPS), 'sh1': st.sampled_from(SHAPES), 'sh2': st.sampled_from(SHAPES)}
BOUND = M.BOUND[512]


def short_pair(case, H, rng, total=None):
    """s1, s2 (centered) of squared norm exactly `total` and h with s1 + s2*h = H; or None"""
    from .cprops import vec_with_norm
    if total is None:
        total = BOUND + case['delta'] + case.get('wrap', 0)
    frac = case['frac'] / 16
    for _ in range(6):
        n2 = max(total // 4096, int(total * frac))
        s2 = vec_with_norm(rng, 512, 6144, n2, shape=case['sh2'])
        s1 = vec_with_norm(rng, 512, 6144, total - n2, shape=case['sh1'])
        if s1 is not None and s2 is not None:
            h = M.divq([a - b for a, b in zip(H, s1)], s2)
            if h is not None:
                return s1, s2, ints(h)
        frac = 0.5
    return None


def spike(case, H, rng):
    """one coefficient of s1 or s2 alone takes a short pair over the bound"""
    from .cprops import vec_with_norm
    p, big = case['pos'] % N, 5834 + rng.below(6144 - 5834 + 1)
    base = rng.choice([0, 1000000, 20000000])
    for _ in range(6):
        s1 = vec_with_norm(rng, 512, 300, base // 2, shape='flat')
        s2 = vec_with_norm(rng, 512, 300, base // 2 + 512, shape='flat')
        t = s2 if case['pos'] // N % 2 else s1
        if s1 is None or s2 is None:
            base += 1
            continue
        t[p] = big * (1 if rng.below(2) else -1)
        h = M.divq([a - b for a, b in zip(H, s1)], s2)
        if h is not None:
            return s1, s2, ints(h)
    return None


def modq(v):
    return [int(x) % Q for x in v]


def bitflip(words, i):
    w = list(words)
    j = i % (256 * len(w))
    w[j // 256] ^= 1 << (j % 256)
    return w


def flipbyte(b, i):
    if not b:
        return b'\x01'
    i %= 8 * len(b)
    return b[:i // 8] + bytes([b[i // 8] ^ (1 << (i % 8))]) + b[i // 8 + 1:]
