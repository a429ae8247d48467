"""C16: Gaussian and lattice samplers follow the specification in C and Python."""
import ctypes as C
import hashlib
import math
from decimal import Decimal, getcontext
import numpy as np
from hypothesis import strategies as st
from ..core import Facet, check, sut
from .. import model as M, pyref
from ..cprops import *
from ..gen import seeds, Rng, ubytes
from .c11 import RefChaCha

getcontext().prec = 36
ASSUMPTIONS = ['acceptance decisions closer than 2^-36 (relative) to the exact probability are not decided by the model; C and Python are still compared',
               'statistical thresholds correspond to false alarm probabilities below 1e-9 per case']

SIGMA = {2: 144.81253976308423, 4: 146.83798833523608, 8: 148.83587593064718, 16: 151.78340713845503, 32: 154.6747794602761,
         64: 157.51308555044122, 128: 160.30114421975344, 256: 163.04153322607107, 512: 165.7366171829776, 1024: 168.38857144654395}
SIGMIN = {2: 1.1165085072329104, 4: 1.1321247692325274, 8: 1.147528535373367, 16: 1.170254078853483, 32: 1.1925466358390344,
          64: 1.2144300507766141, 128: 1.235926056771981, 256: 1.2570545284063217, 512: 1.2778336969128337, 1024: 1.298280334344292}
SIGMA0 = Decimal('1.8205')
# reverse cumulative distribution of the half-Gaussian, from the specification
RCDT = [3024686241123004913666, 1564742784480091954050, 636254429462080897535, 199560484645026482916, 47667343854657281903,
        8595902006365044063, 1163297957344668388, 117656387352093658, 8867391802663976, 496969357462633, 20680885154299,
        638331848991, 14602316184, 247426747, 3104126, 28824, 198, 1]


def build(b):
    tab = [math.exp(-k * k / (2 * 1.8205 ** 2)) for k in range(60)]
    tot = sum(tab)
    for i, v in enumerate(RCDT):      # the table is the half-Gaussian's, to within its published accuracy
        p = sum(tab[i + 1:]) / tot * 2 ** 72
        assert abs(v - p) <= max(2, p * 2 ** -30), (i, v, p)
    return build_std(b)


def z0_of(u):
    return sum(1 for t in RCDT if u < t)


def accept_prob(z, z0, r, sigma, sigmin):
    x = (Decimal(z) - r) ** 2 / (2 * sigma * sigma) - Decimal(z0 * z0) / (2 * SIGMA0 * SIGMA0)
    return sigmin / sigma * (-x).exp()


class Ambiguous(Exception):
    pass


EPS = Decimal(2) ** -36


def zbytes(p):
    top = Decimal(2) ** 64
    lo = int(max(Decimal(0), p * (1 - EPS) * top - 16))
    hi = int(min(top - 1, p * (1 + EPS) * top + 16))
    return lo, hi


def model_sampler(mu, sigma, sigmin, src, trace=None):
    """src: .u64() and .u8(); or a steering source with .steer(lo) for the acceptance bytes"""
    s = math.floor(mu)
    r = Decimal(mu) - s
    sg, sm = Decimal(sigma), Decimal(sigmin)
    while True:
        u = src.u64()
        u |= src.u8() << 64
        z0 = z0_of(u)
        b = src.u8() & 1
        z = b + (2 * b - 1) * z0
        lo, hi = zbytes(accept_prob(z, z0, r, sg, sm))
        if hasattr(src, 'target'):
            src.target(lo, hi)
        res = None
        for i in range(56, -8, -8):
            p = src.u8()
            a, c = (lo >> i) & 255, (hi >> i) & 255
            if a == c and lo >> i == hi >> i:
                if p != a:
                    res = p < a
                    break
            else:
                if p < min(a, c) and lo >> (i + 8) == hi >> (i + 8):
                    res = True
                elif p > max(a, c) and lo >> (i + 8) == hi >> (i + 8):
                    res = False
                else:
                    raise Ambiguous
                break
        if res is None:
            raise Ambiguous
        if res:
            return s + z


class Steered:
    """A source that chooses the bytes as the model asks for them and records them."""

    def __init__(self, seed, limit=470):
        self.r = Rng('steer', seed)
        self.out = bytearray()
        self.n72 = 0
        self.limit = limit
        self.q = None

    def u64(self):
        r = self.r
        k = r.below(4)
        if k == 0:
            u = int.from_bytes(r.bytes(9), 'little')
        else:
            u = RCDT[r.below(len(RCDT))] + r.choice([-1, 0, 1, 0, -1, 1, r.below(2 ** 24), -r.below(2 ** 40), r.below(2 ** 48), -r.below(2 ** 62)])
            u = max(0, min(2 ** 72 - 1, u))
        self.pend = u >> 64
        self.q = ['hi']
        self.out += (u & (2 ** 64 - 1)).to_bytes(8, 'little')
        return u & (2 ** 64 - 1)

    def target(self, lo, hi):
        r = self.r
        done = len(self.out) > self.limit - 40
        k = r.below(5)
        v = lo
        if done or k == 0:
            t = lo - 2 ** r.randint(16, 62)
        elif k == 1:
            t = hi + 2 ** r.randint(16, 62)
        elif k == 2:
            t = lo - lo // 2 ** r.randint(1, 30) - 2 ** 10
        elif k == 3:
            t = hi + hi // 2 ** r.randint(1, 30) + 2 ** 10
        else:
            t = int.from_bytes(r.bytes(8), 'big')
        if done and lo > 2 ** 20:
            t = lo // 2
        t = max(0, min(2 ** 64 - 1, t))
        self.q = list(t.to_bytes(8, 'big'))

    def u8(self):
        if self.q == ['hi']:
            self.q = None
            b = self.pend
        elif self.q:
            b = self.q.pop(0)
        else:
            b = self.r.below(256)
        self.out.append(b)
        if len(self.out) > 495:
            raise Ambiguous
        return b


def u64bits(x):
    return C.c_uint64(int.from_bytes(np.float64(x).tobytes(), 'little'))


class CS:
    def __init__(self, L, seed48, sigmin):
        self.L = L
        self.p = C.create_string_buffer(L.d.vp_sizeof_sampler())
        L.d.vp_sampler_init(self.p, seed48, C.c_size_t(len(seed48)), u64bits(sigmin))

    def feed(self, b):
        self.L.d.vp_sampler_feed(self.p, b)

    def draw(self, mu, sigma):
        return self.L.d.vp_sampler(self.p, u64bits(mu), u64bits(1 / sigma))


def bytesrc(R):
    def f(k):
        if k == 9:
            return R.u64().to_bytes(8, 'little') + bytes([R.u8()])
        if k == 1:
            return bytes([R.u8()])
        check(False, 'the Python sampler asks for %d bytes at once' % k)
    return f


def seeded(s):
    seed = ubytes('smp', s, 48)
    return seed, RefChaCha(hashlib.shake_256(seed).digest(56))


def run_base(ctx, case):
    """half-Gaussian base sampler at and around every threshold"""
    L = lib(ctx)
    S = pyref.mod('samplerz')
    r = Rng('base', case['s'])
    us = []
    for _ in range(40):
        k = r.below(4)
        u = int.from_bytes(r.bytes(9), 'little') if k == 0 else RCDT[r.below(18)] + r.choice([-1, 0, 1, 2 ** 24, -2 ** 24, 2 ** 48, -2 ** 48, r.below(2 ** 30), -r.below(2 ** 30)])
        us.append(max(0, min(2 ** 72 - 1, u)))
    cs = CS(L, b'x' * 48, 1.2)
    cs.feed(b''.join(u.to_bytes(9, 'little') for u in us).ljust(512, b'\0'))
    for u in us:
        e = z0_of(u)
        g = L.d.vp_gaussian0(cs.p)
        check(g == e, 'C base sampler gives %d for u=%d, expected %d' % (g, u, e))
        with sut('basesampler'):
            g = S.basesampler(lambda k: u.to_bytes(k, 'little'))
        check(g == e, 'Python base sampler gives %d for u=%d, expected %d' % (g, u, e))
    return ['!base']


def run_exp(ctx, case):
    L = lib(ctx)
    S = pyref.mod('samplerz')
    r = Rng('exp', case['s'])
    for _ in range(20):
        x = case['x'] * (r.below(2 ** 53) / 2 ** 53) if r.below(3) else r.choice([0.0, 0.5, 2.0 ** -60, 0.6931471805599453 - 2 ** -40, 0.25])
        ccs = r.choice([0.5, 0.7, 0.9999, 0.6 + r.below(2 ** 30) / 2 ** 32, 1 / 1.8205 * 1.2778336969128337])
        with sut('approxexp'):
            y = S.approxexp(x, ccs)
        c = L.d.vp_fpr_expm_p63(u64bits(x), u64bits(ccs))
        t = Decimal(ccs) * (-Decimal(x)).exp() * Decimal(2) ** 64
        check(abs(Decimal(y) - t) <= Decimal(2) ** 17, lambda: 'approxexp(%r, %r) is off by %.3g' % (x, ccs, float((Decimal(y) - t) / Decimal(2) ** 64)))
        check(y >> 1 == c, 'approxexp(%r, %r) differs between C and Python' % (x, ccs))
    return ['!exp']


def run_ber(ctx, case):
    """Python berexp against the exact probability"""
    S = pyref.mod('samplerz')
    r = Rng('ber', case['s'])
    for _ in range(20):
        x = r.choice([r.below(2 ** 40) / 2 ** 40, r.below(2 ** 40) / 2 ** 36, r.below(2 ** 40) / 2 ** 34, 0.0, 0.6931471805599453, 44.0, 60.0])
        ccs = r.choice([0.7, 0.9999, 0.6 + r.below(2 ** 30) / 2 ** 32])
        p = Decimal(ccs) * (-Decimal(x)).exp()
        lo, hi = zbytes(p)
        st_ = Steered(case['s'] + _)
        st_.target(lo, hi)
        bs = bytes(st_.q)
        v = int.from_bytes(bs, 'big')
        it = iter(bs)
        with sut('berexp'):
            got = S.berexp(x, ccs, lambda k: bytes([next(it)]))
        if v < lo:
            check(bool(got), 'berexp(%r, %r) rejects %d < %d' % (x, ccs, v, lo))
        elif v > hi:
            check(not got, 'berexp(%r, %r) accepts %d > %d' % (x, ccs, v, hi))
    return ['!ber']


def mu_of(r, k):
    if k == 'unit':
        return r.below(2 ** 53) / 2 ** 53
    if k == 'int':
        return float(r.randint(-1000, 1000))
    if k == 'half':
        return r.randint(-1000, 1000) + 0.5
    if k == 'edge':
        return r.randint(-5, 5) + r.choice([2.0 ** -30, -2.0 ** -30, 2.0 ** -20, 1 - 2.0 ** -25])
    if k == 'neg':
        return -r.below(2 ** 50) / 2 ** 40
    return (r.below(2 ** 52) - 2 ** 51) / 2 ** 31


def params(case, r):
    n = 1 << case['logn']
    smin = SIGMIN[n]
    sg = {'lo': smin * (1 + 2.0 ** -20), 'hi': 1.82, 'any': smin + (1.8205 - smin) * (1 + r.below(998)) / 1000}[case['sg']]
    return sg, smin


def run_steer(ctx, case):
    """random bytes chosen next to the decision thresholds"""
    r = Rng('st', case['s'])
    sigma, smin = params(case, r)
    mu = mu_of(r, case['mu'])
    src = Steered(case['s'])
    outs = []
    try:
        while len(src.out) < 400:
            outs.append(model_sampler(mu, sigma, smin, src))
    except Ambiguous:
        pass
    if not outs:
        return ['ambiguous']
    buf = bytes(src.out).ljust(512, b'\0')[:512]
    L = lib(ctx)
    cs = CS(L, b'y' * 48, smin)
    cs.feed(buf)
    it = iter(buf)
    S = pyref.mod('samplerz')
    for i, e in enumerate(outs):
        g = cs.draw(mu, sigma)
        check(g == e, 'C sampler: draw %d gives %d, the specified algorithm %d (mu=%r sigma=%r)' % (i, g, e, mu, sigma))
        with sut('samplerz'):
            g = S.samplerz(mu, sigma, smin, lambda k: bytes(next(it) for _ in range(k)))
        check(g == e, 'Python sampler: draw %d gives %d, the specified algorithm %d (mu=%r sigma=%r)' % (i, g, e, mu, sigma))
    return ['!steered']


def run_stream(ctx, case):
    """generator streams: C = Python = model, over several centres"""
    r = Rng('sm', case['s'])
    sigma, smin = params(case, r)
    L = lib(ctx)
    seed, R1 = seeded(case['s'])
    _, R2 = seeded(case['s'])
    cs = CS(L, seed, smin)
    S = pyref.mod('samplerz')
    py = pyref.mod('rng').ChaCha20(hashlib.shake_256(seed).digest(56))
    n = 0
    try:
        for _ in range(case['n']):
            mu = mu_of(r, r.choice(['unit', 'int', 'half', 'edge', 'neg', 'big']))
            e = model_sampler(mu, sigma, smin, R1)
            g = cs.draw(mu, sigma)
            check(g == e, 'C sampler: draw %d gives %d, the specified algorithm %d (mu=%r sigma=%r)' % (n, g, e, mu, sigma))
            with sut('samplerz'):
                g = S.samplerz(mu, sigma, smin, py.randombytes)
            check(g == e, 'Python sampler: draw %d gives %d, the specified algorithm %d (mu=%r sigma=%r)' % (n, g, e, mu, sigma))
            n += 1
    except Ambiguous:
        pass
    return ['!stream'] if n else ['ambiguous']


def chi2_check(counts, probs, total, what):
    """Pearson test with pooled tails"""
    from scipy.stats import chi2
    ks = sorted(probs)
    groups, o, e = [], 0, 0.0
    for k in ks:
        o += counts.get(k, 0)
        e += probs[k] * total
        if e >= 20:
            groups.append([o, e])
            o, e = 0, 0.0
    if groups:
        groups[-1][0] += o
        groups[-1][1] += e
    outside = sum(v for k, v in counts.items() if k not in probs)
    groups[-1][0] += outside
    x = sum((a - b) ** 2 / b for a, b in groups)
    p = chi2.sf(x, max(1, len(groups) - 1))
    check(p > 1e-10, '%s: chi-square %.1f over %d classes, p=%.3g' % (what, x, len(groups), p))
    check(outside <= max(3, total * 1e-6), '%s: %d samples outside the support' % (what, outside))


def gauss_probs(mu, sigma, width=12):
    c = math.floor(mu)
    d = {z: math.exp(-(z - mu) ** 2 / (2 * sigma * sigma)) for z in range(c - int(width * sigma) - 1, c + int(width * sigma) + 2)}
    t = sum(d.values())
    return {z: v / t for z, v in d.items()}


def run_dist(ctx, case):
    L = lib(ctx)
    r = Rng('ds', case['s'])
    sigma, smin = params(case, r)
    mu = mu_of(r, case['mu'])
    n = case['n']
    seed, _ = seeded(case['s'])
    cs = CS(L, seed, smin)
    out = (C.c_int * n)()
    L.d.vp_sampler_many(cs.p, u64bits(mu), u64bits(1 / sigma), out, C.c_size_t(n))
    v, c = np.unique(np.ctypeslib.as_array(out), return_counts=True)
    chi2_check({int(a): int(b) for a, b in zip(v, c)}, gauss_probs(mu, sigma), n, 'C sampler mu=%r sigma=%r' % (mu, sigma))
    return ['!dist']


def run_keydist(ctx, case):
    """distribution of the secret polynomials before and without rejection"""
    s = case['s']
    if case['what'] == 'mkgauss':
        mk = pyref.mod('mkgauss')
        ln = case['logn']
        st_ = hashlib.shake_256(ubytes('mk', s, 32))
        buf = st_.digest(16 * (1 << (10 - ln)) * case['n'])
        pos = [0]

        def rd(k):
            pos[0] += k
            return buf[pos[0] - k:pos[0]]
        with sut('mkgauss'):
            vals = [mk.mkgauss(rd, ln) for _ in range(case['n'])]
        check(pos[0] == len(buf), 'mkgauss draws another number of bytes')
        sg = 1.17 * math.sqrt(M.Q / (2 << ln))
        # a sum of 2^(10-logn) samples of the degree-1024 distribution
        e = [mkgauss_model(buf[i * 16 << (10 - ln):(i + 1) * 16 << (10 - ln)]) for i in range(case['n'])]
        check(vals == e, 'mkgauss differs from the table-driven definition')
        cnt = {}
        for v in vals:
            cnt[v] = cnt.get(v, 0) + 1
        chi2_check(cnt, gauss_probs(0, sg, 9), case['n'], 'mkgauss logn=%d' % ln)
        return ['!mkgauss']
    if case['what'] == 'poly':
        mk = pyref.mod('mkgauss')
        ln = case['logn']
        n = 1 << ln
        st_ = hashlib.shake_256(ubytes('pg', s, 32)).digest(60000)
        pos = [0]

        def rd(k):
            pos[0] += k
            return st_[pos[0] - k:pos[0]]
        with sut('poly_small_mkgauss'):
            f = mk.poly_small_mkgauss(rd, n, ln)
        e, p = poly_model(st_, n, ln)
        check(f == e and pos[0] == p, 'poly_small_mkgauss differs from the definition at n=%d' % n)
        check(sum(f) % 2 == 1 and all(abs(x) <= 127 for x in f), 'poly_small_mkgauss: parity or range')
        return ['!poly']
    # the generic generator of the Python code
    N = pyref.mod('ntrugen')
    n = 1 << case['logn']
    py = pyref.mod('rng').ChaCha20(hashlib.shake_256(ubytes('gp', s, 48)).digest(56))
    with sut('gen_poly'):
        f = N.gen_poly(n, randombytes=py.randombytes).coeffs
    check(len(f) == n, 'gen_poly length')
    f = np.array([int(x) for x in M.centered(f)])
    var = 4096 / n * 1.43300980528773 ** 2
    chi = float((f ** 2).sum() / var)
    from scipy.stats import chi2
    check(min(chi2.sf(chi, n), chi2.cdf(chi, n)) > 1e-10 or n < 16, 'gen_poly: variance %.2f instead of %.2f' % (float((f ** 2).mean()), var))
    z = abs(float(f.sum())) / math.sqrt(var * n)
    check(z < 7, 'gen_poly: mean is off by %.1f sigma' % z)
    return ['!gen_poly']


def _mk_table():
    sg2 = 2 * 1.17 ** 2 * M.Q / 2048
    getcontext().prec = 60
    D = Decimal
    s2 = D(2) * D('1.17') ** 2 * D(M.Q) / D(2048)
    w = [(-(D(k * k)) / s2).exp() for k in range(0, 120)]
    tot = w[0] + 2 * sum(w[1:])
    t = [w[0] / tot]
    pos = sum(w[1:])
    for k in range(1, 27):
        t.append(sum(w[k + 1:]) / pos)
    getcontext().prec = 36
    return [int(x * D(2) ** 63) for x in t]


GT = [1283868770400643928, 6416574995475331444, 4078260278032692663, 2353523259288686585, 1227179971273316331, 575931623374121527,
      242543240509105209, 91437049221049666, 30799446349977173, 9255276791179340, 2478152334826140, 590642893610164, 125206034929641,
      23590435911403, 3948334035941, 586753615614, 77391054539, 9056793210, 940121950, 86539696, 7062824, 510971, 32764, 1862, 94, 4, 0]


def mkgauss_model(b):
    v = 0
    for i in range(0, len(b), 16):
        r1, r2 = int.from_bytes(b[i:i + 8], 'little'), int.from_bytes(b[i + 8:i + 16], 'little')
        neg = r1 >> 63
        if r1 & (2 ** 63 - 1) < GT[0]:
            continue
        r2 &= 2 ** 63 - 1
        k = next(k for k in range(1, 27) if r2 >= GT[k])
        v += -k if neg else k
    return v


def poly_model(st_, n, ln):
    g = 16 << (10 - ln)
    p = 0
    f = []
    par = 0
    while len(f) < n:
        s = mkgauss_model(st_[p:p + g])
        p += g
        if abs(s) > 127:
            continue
        if len(f) == n - 1 and not (par ^ (s & 1)):
            continue
        par ^= s & 1
        f.append(s)
    return f, p


# ---- lattice sampler
def ckey(ctx, ln, k):
    c = ctx.get('ckeys', dict)
    if (ln, k) not in c:
        L = lib(ctx)
        n = 1 << ln
        sc = shake(L, ubytes('lk', k, 48))
        f, g, F, G = (np.zeros(n, dtype=np.int8) for _ in range(4))
        h = np.zeros(n, dtype=np.uint16)
        tmp = np.zeros(70000, dtype=np.uint64)
        L.z('keygen')(sc, vp(f), vp(g), vp(F), vp(G), vp(h), ln, vp(tmp))
        ek = np.zeros(((8 * ln + 40) << ln) // 8 + 1, dtype=np.uint64)
        ek[-1] = 0x77
        L.z('expand_privkey')(vp(ek), vp(f), vp(g), vp(F), vp(G), ln, vp(tmp))
        check(ek[-1] == 0x77, 'expand_privkey writes beyond its documented size')
        c[ln, k] = (f, g, F, G, h.astype(np.int64), ek)
    return c[ln, k]


def vp(a):
    return C.c_void_p(a.ctypes.data)


def shake(L, seed):
    sc = C.create_string_buffer(L.d.vp_sizeof_shake())
    L.d.vp_shake_init(sc)
    L.d.vp_shake_inject(sc, seed, C.c_size_t(len(seed)))
    L.d.vp_shake_flip(sc)
    return sc


def lattice_stats(ss, f, g, n, what):
    """ss: list of (s1, s2).  The distribution is spherical with deviation SIGMA[n] in every direction."""
    N = len(ss)
    sg2 = SIGMA[n] ** 2
    if N * n < 2000:
        return
    S1, S2 = np.array([s[0] for s in ss], dtype=float), np.array([s[1] for s in ss], dtype=float)
    tot = N * n
    for nm, S in (('s1', S1), ('s2', S2)):
        ratio = float((S ** 2).mean()) / sg2
        tol = 7 * math.sqrt(2 / tot) + 0.002
        check(abs(ratio - 1) < tol, '%s: variance of %s is %.4f times the specified one (tolerance %.4f)' % (what, nm, ratio, tol))
        z = float(S.sum()) / math.sqrt(tot * sg2)
        check(abs(z) < 7.5, '%s: mean of %s is off by %.1f deviations' % (what, nm, z))
    # along the short basis vectors (g, -f) and their rotations, and orthogonally to them
    w = np.exp(1j * np.pi * np.arange(n) / n)
    E1, E2 = np.fft.fft(S1 * w, axis=1), np.fft.fft(S2 * w, axis=1)
    ef, eg = np.fft.fft(f.astype(float) * w), np.fft.fft(g.astype(float) * w)
    d = abs(ef) ** 2 + abs(eg) ** 2
    par = abs(E1 * eg.conj() - E2 * ef.conj()) ** 2 / d
    ort = abs(E1 * ef + E2 * eg) ** 2 / d
    for nm, x in (('along', par), ('orthogonally to', ort)):
        ratio = float(x.mean()) / n / sg2
        tol = 7 * math.sqrt(2 / tot) + 0.002
        check(abs(ratio - 1) < tol, '%s: variance %s the short basis vectors is %.4f times the specified one' % (what, nm, ratio))
        # every frequency separately
        fr = x.mean(axis=0) / n / sg2
        if N >= 100:
            dev = float(np.abs(fr - 1).max())
            lim = (math.sqrt(2 * math.log(2 * n)) + 6) * 1.5 / math.sqrt(N)
            check(dev < lim, '%s: variance %s the short vectors at one frequency is off by %.3f' % (what, nm, dev))


def run_clattice(ctx, case):
    L = lib(ctx)
    ln = case['logn']
    n = 1 << ln
    f, g, F, G, h, ek = ckey(ctx, ln, case['k'])
    tmp = np.zeros(72 * n // 8 + 1, dtype=np.uint64)
    ss = []
    agree = 0
    for i in range(case['n']):
        c = np.random.default_rng(case['s'] * 1000 + i).integers(0, M.Q, n)
        hm = np.zeros(n + 1, dtype=np.uint16)
        hm[:n] = c
        hm[n] = 0x1234
        seed = ubytes('ls', '%d/%d' % (case['s'], i), 48)
        res = []
        for mode in case['modes']:
            sc = shake(L, seed)
            sig = np.full(n + 1, 0x1111, dtype=np.int16)
            tmp[-1] = 0x99
            inp = hm
            out = sig
            if case['overlap']:
                out = inp = hm.copy().view(np.int16)
            if mode == 'dyn':
                L.z('sign_dyn')(vp(out), sc, vp(f), vp(g), vp(F), vp(G), vp(inp), ln, vp(tmp))
            else:
                tmp[48 * n // 8] = 0x4141
                L.z('sign_tree')(vp(out), sc, vp(ek), vp(inp), ln, vp(tmp))
                check(tmp[48 * n // 8] == 0x4141, 'sign_tree writes beyond the documented temporary size')
            check(tmp[-1] == 0x99, 'signing writes beyond its temporary buffer')
            check(out[n] == (0x1111 if out is sig else 0x1234), 'signing writes beyond its output')
            s1 = tmp.view(np.int16)[:n].astype(np.int64).copy()
            s2 = out[:n].astype(np.int64)
            check(((s1 + M.mulq(s2, h) - c) % M.Q == 0).all(), '%s: s1 + s2*h != c at n=%d' % (mode, n))
            check(M.norm2(s1, s2) <= M.BOUND[n], '%s: norm above the bound at n=%d' % (mode, n))
            res.append((s1, s2))
        ss.append(res[0])
    lattice_stats(ss, f, g, n, 'C %s n=%d' % (case['modes'][0], n)) if ln >= 6 else None
    return ['!n=%d' % n]


def run_pylattice(ctx, case):
    ln = case['logn']
    n = 1 << ln
    f, g, F, G, h, _ = ckey(ctx, ln, case['k'])
    Fa = pyref.mod('falcon')
    cache = ctx.get('psk', dict)
    with sut('Python signing at n=%d' % n):
        if (ln, case['k']) not in cache:
            cache[ln, case['k']] = Fa.SecretKey(n, polys=[[int(x) for x in p] for p in (f, g, F, G)])
        sk = cache[ln, case['k']]
        check([int(x) for x in sk.h] == [int(x) for x in h], 'Python public key differs from C at n=%d' % n)
        ss = []
        ch = pyref.mod('rng').ChaCha20(ubytes('pl', case['s'], 56))
        for i in range(max(1, case['n'] * 64 // n)):
            c = np.random.default_rng(case['s'] * 1000 + i).integers(0, M.Q, n)
            if case['mode'] == 'prng':
                s = sk.sample_preimage_with_prng([int(x) for x in c], ch.randombytes)
            else:
                s = sk.sample_preimage([int(x) for x in c], seed=ubytes('sp', '%d/%d' % (case['s'], i), 56))
            s1, s2 = (np.array(x, dtype=np.int64) for x in s)
            check(((s1 + M.mulq(s2, h) - c) % M.Q == 0).all(), 'sample_preimage: s0 + s1*h != c at n=%d' % n)
            check(M.norm2(s1, s2) < 2 * M.BOUND[n] or n < 64, 'sample_preimage: norm %d at n=%d' % (M.norm2(s1, s2), n))
            ss.append((s1, s2))
    # without rejection the distribution is exactly spherical
    lattice_stats(ss, f, g, n, 'Python n=%d' % n)
    return ['!n=%d' % n]


def run_norms(ctx, case):
    """the two norm tests against exact integers, at and around the bound of each degree and beyond 2^31 and 2^32"""
    L = lib(ctx)
    ln = case['logn']
    n = 1 << ln
    B = M.BOUND[n]
    r = Rng('norms', case['s'])
    g = r.np()
    lab = ['n=%d' % n]
    for _ in range(8):
        big = r.choice([2, 10, 100, 127, 2047, 6144, 32767, int(math.sqrt(B / n)), int(math.sqrt(B))])
        s2 = np.clip(g.integers(-big, big + 1, n), -32767, 32767)
        if r.below(2):
            z = np.zeros(n, dtype=np.int64)
            i = r.choice([0, n - 1, r.below(n)])
            z[i] = s2[i]
            s2 = z
        n2 = int((s2 ** 2).sum())
        sq = r.choice([B - n2 - 1, B - n2, B - n2, B - n2 + 1, B - n2 + 2, 0, B, B + 1, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32 - n2, 2 ** 32 - n2 + B])
        if 0 <= sq < 2 ** 32:
            sq = sq if sq < 2 ** 31 else 2 ** 32 - 1
            a = np.asarray(s2, dtype=np.int16)
            got = bool(L.z('is_short_half')(C.c_uint32(sq), vp(a), ln))
            check(got == (sq + n2 <= B), lambda: 'is_short_half accepts=%s a squared norm %d + %d at n=%d (bound %d)' % (got, sq, n2, n, B))
            lab.append('!half')
        tot = r.choice([B - 1, B, B, B + 1, B + 2, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 32 + B, 2 ** 32 + 5, 2 ** 33, B // 2])
        mx = r.choice([6144, 32767])
        if tot > 2 * n * mx * mx * 0.6:
            continue
        v = vec_with_norm(r, 2 * n, mx, tot, spare=min(12, 2 * n), shape=r.choice(['flat', 'one', 'few', 'half', 'uniform']))
        if v is None:
            v = [int(x) for x in g.integers(-big, big + 1, 2 * n).clip(-32767, 32767)]
            tot = sum(x * x for x in v)
        a, b = np.array(v[:n], dtype=np.int16), np.array(v[n:], dtype=np.int16)
        got = bool(L.z('is_short')(vp(a), vp(b), ln))
        check(got == (tot <= B), lambda: 'is_short accepts=%s a squared norm of %d at n=%d (bound %d)' % (got, tot, n, B))
        lab.append('!exact' if abs(tot - B) < 3 else 'other')
    return lab


def run_agree(ctx, case):
    """one seed: both C procedures and the Python sampler take the same decisions (up to roundings next to a threshold)"""
    L = lib(ctx)
    ln = case['logn']
    n = 1 << ln
    f, g, F, G, h, ek = ckey(ctx, ln, case['k'])
    Fa = pyref.mod('falcon')
    cache = ctx.get('psk', dict)
    tmp = np.zeros(72 * n // 8 + 1, dtype=np.uint64)
    if case['py'] and (ln, case['k']) not in cache:
        with sut('Python key at n=%d' % n):
            cache[ln, case['k']] = Fa.SecretKey(n, polys=[[int(x) for x in p] for p in (f, g, F, G)])
    bad = {'dyn': 0, 'py': 0}
    N = max(case['n'], (512 if case['py'] else 4096) // n)
    for i in range(N):
        c = np.random.default_rng(case['s'] * 2000 + i).integers(0, M.Q, n)
        hm = c.astype(np.uint16)
        seed = ubytes('la', '%d/%d' % (case['s'], i), 48)
        res = {}
        for mode in ('tree', 'dyn'):
            sc = shake(L, seed)
            out = np.zeros(n, dtype=np.int16)
            if mode == 'dyn':
                L.z('sign_dyn')(vp(out), sc, vp(f), vp(g), vp(F), vp(G), vp(hm), ln, vp(tmp))
            else:
                L.z('sign_tree')(vp(out), sc, vp(ek), vp(hm), ln, vp(tmp))
            res[mode] = (tmp.view(np.int16)[:n].tolist(), out.tolist())
        if case['py']:
            x = hashlib.shake_256(seed).digest(56 * 400)
            with sut('Python sampling at n=%d' % n):
                for k in range(400):
                    s = cache[ln, case['k']].sample_preimage_with_prng([int(v) for v in c], pyref.mod('rng').ChaCha20(x[56 * k:56 * k + 56]).randombytes)
                    if sum(v * v for v in s[0]) + sum(v * v for v in s[1]) <= M.BOUND[n]:
                        break
            res['py'] = ([int(v) for v in s[0]], [int(v) for v in s[1]])
        for m in bad:
            bad[m] += m in res and res[m] != res['tree']
    for m in bad:
        check(bad[m] <= 5, lambda: '%s and the tree procedure in C give different signatures for %d of %d seeds at n=%d' % (
            {'dyn': 'the dynamic procedure', 'py': 'Python'}[m], bad[m], N, n))
    return ['!n=%d' % n]


def run_consts(ctx, case):
    """the parameters of every degree are the specification's (sigma, sigma_min, bound, smoothing)"""
    L = lib(ctx)
    ln = case['logn']
    n = 1 << ln
    P = pyref.mod('falcon').Params[n]
    # sigma from the definition: (1/pi) sqrt(ln(4N(1+1/eps))/2) * 1.17 sqrt(q), with 1/eps = sqrt(Qs * lambda)
    d = L.d
    smin = np.uint64(d.vp_sigma_min(ln)).view(np.float64)
    isg = np.uint64(d.vp_inv_sigma(ln)).view(np.float64)
    for nm, v, e in (('C sigma_min', float(smin), SIGMIN[n]), ('C 1/sigma', float(isg), 1 / SIGMA[n]), ('Python sigma', P['sigma'], SIGMA[n]), ('Python sigmin', P['sigmin'], SIGMIN[n])):
        check(abs(v / e - 1) < 2 ** -48, '%s for n=%d is %r instead of %r' % (nm, n, v, e))
    check(abs(SIGMA[n] / SIGMIN[n] / (1.17 * math.sqrt(M.Q)) - 1) < 1e-9, 'internal: sigma')
    check(P['sig_bound'] == M.BOUND[n] and P['n'] == n, 'Python signature bound for n=%d' % n)
    S = pyref.mod('samplerz')
    check(abs(S.MAX_SIGMA - 1.8205) < 1e-12 and abs(S.INV_2SIGMA2 * 2 * 1.8205 ** 2 - 1) < 1e-12, 'sigma0')
    return ['!consts']


def corners_consts(ctx):
    return [{'logn': i} for i in range(1, 11)]


SG = st.sampled_from(['lo', 'hi', 'any', 'any', 'any'])
MU = st.sampled_from(['unit', 'unit', 'int', 'half', 'edge', 'neg', 'big'])
LN = st.one_of(st.just(9), st.integers(1, 10))
FACETS = [
    Facet('base', st.fixed_dictionaries({'s': seeds()}), run_base, 4000, 200000, rule='40 values of u at and around the 18 thresholds'),
    Facet('exp', st.fixed_dictionaries({'s': seeds(), 'x': st.sampled_from([0.6931471805599453, 0.01])}), run_exp, 2500, 100000, rule='20 arguments each; within 2^-47'),
    Facet('berexp', st.fixed_dictionaries({'s': seeds()}), run_ber, 2000, 100000, rule='20 (x, ccs, random bytes near the threshold)'),
    Facet('steered', st.fixed_dictionaries({'s': seeds(), 'logn': LN, 'sg': SG, 'mu': MU}), run_steer, 2500, 150000,
          rule='random bytes chosen next to the acceptance and table thresholds; C, Python and model'),
    Facet('stream', st.fixed_dictionaries({'s': seeds(), 'logn': LN, 'sg': SG, 'n': st.integers(1, 60)}), run_stream, 1500, 100000,
          rule='sequences of draws from one generator; C, Python and model'),
    Facet('dist', st.fixed_dictionaries({'s': seeds(), 'logn': LN, 'sg': SG, 'mu': MU, 'n': st.sampled_from([20000, 100000])}), run_dist, 240, 8000,
          rule='chi-square of 20,000 or 100,000 samples'),
    Facet('key-dist', st.fixed_dictionaries({'s': seeds(), 'what': st.sampled_from(['mkgauss', 'poly', 'gen_poly']), 'logn': st.integers(6, 10), 'n': st.just(1500)}), run_keydist, 240, 8000,
          rule='distribution of secret polynomials'),
    Facet('c-lattice', st.fixed_dictionaries({'s': seeds(), 'logn': st.integers(1, 10), 'k': st.integers(0, 3), 'n': st.sampled_from([20, 40]), 'overlap': st.booleans(),
                                              'modes': st.sampled_from([['dyn', 'tree'], ['tree', 'dyn'], ['tree'], ['dyn']])}), run_clattice, 240, 8000,
          rule='signatures of random targets at every degree, both signing procedures'),
    Facet('c-lattice-many', st.fixed_dictionaries({'s': seeds(), 'logn': st.sampled_from([7, 8, 9, 9, 10]), 'k': st.integers(0, 1), 'n': st.just(150), 'overlap': st.just(False),
                                                   'modes': st.sampled_from([['dyn'], ['tree']])}), run_clattice, 32, 1500,
          rule='150 signatures: variance per direction and per frequency'),
    Facet('py-lattice', st.fixed_dictionaries({'s': seeds(), 'logn': st.sampled_from([1, 2, 3, 4, 5, 6, 7, 8, 9]), 'k': st.integers(0, 1), 'n': st.sampled_from([20, 60]),
                                               'mode': st.sampled_from(['prng', 'seed'])}), run_pylattice, 90, 3000, rule='preimages of random targets in Python'),
    Facet('agree', st.fixed_dictionaries({'s': seeds(), 'logn': st.integers(1, 10), 'k': st.integers(0, 3), 'n': st.just(40), 'py': st.booleans()}), run_agree, 40, 3000,
          [{'s': 5, 'logn': l, 'k': 0, 'n': 40, 'py': p} for l in range(1, 11) for p in (True, False)],
          rule='one seed, both C procedures and Python'),
    Facet('norms', st.fixed_dictionaries({'s': seeds(), 'logn': st.integers(1, 10)}), run_norms, 1500, 60000, rule='eight vectors each, at and around the bound'),
    Facet('consts', st.fixed_dictionaries({'logn': st.integers(1, 10)}), run_consts, 10, 10, corners=corners_consts, rule='parameters of each degree'),
]
