"""Random streams that make a key generator draw chosen candidate polynomials (f, g).

The C generator (and the C-compatible Python one) adds 2^(10-logn) samples of a table-driven Gaussian per coefficient, 16 bytes each; the
other Python generator adds 4096/n samples of the integer sampler.  For each sample value a pool of byte strings is kept.
"""
import math
import numpy as np
from . import model as M
from .gen import Rng

# the generator's Gaussian for n = 1024, as published with the reference implementation
TABLE = [1283868770400643928, 6416574995475331444, 4078260278032692663, 2353523259288686585, 1227179971273316331, 575931623374121527,
         242543240509105209, 91437049221049666, 30799446349977173, 9255276791179340, 2478152334826140, 590642893610164, 125206034929641,
         23590435911403, 3948334035941, 586753615614, 77391054539, 9056793210, 940121950, 86539696, 7062824, 510971, 32764, 1862, 94, 4, 0]


def sample1024(r1, r2):
    neg, r1, r2 = r1 >> 63, r1 & (2 ** 63 - 1), r2 & (2 ** 63 - 1)
    if r1 < TABLE[0]:
        return 0
    v = next(k for k in range(1, len(TABLE)) if r2 >= TABLE[k])
    return -v if neg else v


class TablePool:
    """16-byte strings by sample value"""

    def __init__(self, rng):
        self.p = {}
        for i in range(3000):
            r1, r2 = (int.from_bytes(rng.bytes(8), 'little') for _ in (0, 1))
            self.add(r1, r2)
        for k in range(2, 18):                   # rare values
            for s in (0, 1):
                self.add(s << 63 | (2 ** 63 - 1), TABLE[k] + rng.below(max(1, TABLE[k - 1] - TABLE[k])))

    def add(self, r1, r2):
        self.p.setdefault(sample1024(r1, r2), []).append(r1.to_bytes(8, 'little') + r2.to_bytes(8, 'little'))


class SamplerPool:
    """strings consumed by the integer sampler, centre 0, deviation 1.43300980528773, by value"""

    def __init__(self, rng):
        from .props.c16 import model_sampler, Ambiguous

        class Src:
            def __init__(self):
                self.out = b''

            def take(self, n):
                b = rng.bytes(n)
                self.out += b
                return int.from_bytes(b, 'little')

            def u64(self):
                return self.take(8)

            def u8(self):
                return self.take(1)
        s = 1.43300980528773
        self.p = {}
        for i in range(1500):
            x = Src()
            try:
                v = model_sampler(0, s, s - 0.001, x)
            except Ambiguous:
                continue
            self.p.setdefault(int(v), []).append(x.out)


def coef(pool, total, k, rng):
    """byte string of k samples that add up to total"""
    vals = sorted(pool.p)
    top = 6 if len(vals) > 20 else 4
    natural = pool.__dict__.setdefault('nat', [v for v in vals for _ in pool.p[v]])
    v = [rng.choice(natural) for _ in range(k)]
    d = total - sum(v)
    i = 0
    while d:
        j = rng.below(k) if i < 50 * k else i % k
        lim = top if i < 40 * k else vals[-1]
        w = max(-lim, min(lim, v[j] + (1 if d > 0 else -1) * min(abs(d), max(1, abs(d) // k))))
        d -= w - v[j]
        v[j] = w
        i += 1
        if i > 200 * k + 5000:
            return None
    return b''.join(rng.choice(pool.p[x]) for x in v)


def poly(pool, f, k, rng):
    out = []
    for c in f:
        b = coef(pool, c, k, rng)
        if b is None:
            return None
        out.append(b)
    return b''.join(out)


def root_mod(n, p, rng):
    """an element of order 2n modulo the prime p"""
    while True:
        x = pow(rng.below(p - 2) + 2, (p - 1) // (2 * n), p)
        if pow(x, n, p) == p - 1:
            return x


def prime_for(n, lo):
    p = lo - lo % (2 * n) + 1
    while True:
        p += 2 * n
        if p != M.Q and all(p % i for i in range(2, int(p ** .5) + 1)):
            return p


def gauss(n, g, odd=True):
    sd = 1.17 * math.sqrt(M.Q / (2 * n))
    while True:
        f = [int(x) for x in np.rint(g.normal(0, sd, n))]
        if not odd or sum(f) & 1:
            return f


def vanish(n, root, p, g, odd=True):
    """a typical polynomial that is zero at the given root modulo p"""
    pw = np.array([pow(int(root), i, p) for i in range(n)], dtype=np.int64)
    sd = 1.17 * math.sqrt(M.Q / (2 * n))
    if n <= 16:
        for _ in range(60):
            f = np.rint(g.normal(0, sd, (40000, n))).astype(np.int64)
            z = np.nonzero(((f * pw % p).sum(axis=1) % p == 0) & (f.any(axis=1)) & ((f.sum(axis=1) % 2 == 1) if odd else True))[0]
            if len(z):
                return [int(x) for x in f[z[0]]]
        return None
    for _ in range(4000):
        f = gauss(n, g, odd)
        t = -int((np.array(f) * pw % p).sum()) % p
        tab = {}
        for i in range(n):
            for s in (1, -1):
                tab[s * int(pw[i]) % p] = (i, s)
        for i in range(n):
            for s in (1, -1):
                d = tab.get((t - s * int(pw[i])) % p)
                if d and d[0] != i:
                    f[i] += s
                    f[d[0]] += d[1]
                    return f
        # nothing within one step of two coefficients: another f
    return None


def candidate(n, kind, rng, slot=0, fgmax=127, odd=True):
    """(f, g) of which the generator must think as `kind` says, or None"""
    from .props.c05 import gs_norms
    g = rng.np()
    B = 1.17 ** 2 * M.Q
    for _ in range(400):
        f, h = gauss(n, g, odd), gauss(n, g, odd)
        if kind in ('slot', 'gslot'):
            r = int(M.ntt([0, 1] + [0] * (n - 2))[slot % n])
            v = vanish(n, r, M.Q, g, odd)
            if v is None:
                return None
            f, h = (v, h) if kind == 'slot' else (f, v)
        elif kind == 'gcd':
            p = prime_for(n, [7, 40, 1000, 3000][rng.below(4)])
            r = root_mod(n, p, rng)
            f, h = vanish(n, r, p, g, odd), vanish(n, r, p, g, odd)
            if f is None or h is None:
                return None
        elif kind == 'coef':
            i = rng.choice([rng.below(2 * n), 0, n - 1, n, 2 * n - 1])
            v = f if i < n else h
            d = rng.choice([fgmax + 1, -fgmax - 1, fgmax + 2, -fgmax - 2])
            if (v[i % n] - d) & 1:
                v[(i + 1) % n] += 1
            v[i % n] = d
        try:
            a, b = gs_norms(f, h)
        except ZeroDivisionError:
            continue
        if not (math.isfinite(b) and max(map(abs, f + h)) <= 127):
            continue
        if kind == 'norm':
            if B < a < B * 1.03 and b < B:
                return f, h
        elif kind == 'bnorm':
            if a < B < b < B * 1.1:
                return f, h
        elif a < B and b < B:
            return f, h
    return None
