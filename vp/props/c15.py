"""C15: FFT, NTT, split/merge, LDL and division implement exact polynomial arithmetic (C and Python)."""
import ctypes as C
import math
import numpy as np
from hypothesis import strategies as st
from ..core import Facet, check, sut
from .. import model as M, pyref
from ..cprops import *
from ..gen import seeds, Rng, ubytes

ASSUMPTIONS = ['real arithmetic is compared with schoolbook arithmetic within 2^-42 of the product of the operand norms (times the condition number for quotients)']


def build(b):
    return build_std(b)


# ---- reference: evaluations at the odd powers of exp(i*pi/n), by numpy
def ev(a):
    a = np.asarray(a, dtype=np.float64)
    n = len(a)
    return np.fft.fft(a * np.exp(1j * np.pi * np.arange(n) / n))


def unev(v):
    n = len(v)
    return (np.fft.ifft(v) * np.exp(-1j * np.pi * np.arange(n) / n)).real


def adj(a):
    a = np.asarray(a)
    return np.concatenate([a[:1], -a[:0:-1]])


def mulr(a, b):
    """product modulo x^n+1 in float64 (exact for integers whose products stay below 2^53)"""
    n = len(a)
    r = np.convolve(np.asarray(a, dtype=np.float64), np.asarray(b, dtype=np.float64))
    o = r[:n].copy()
    o[:n - 1] -= r[n:]
    return o


def nrm(*v):
    return math.sqrt(sum(float((np.asarray(x, dtype=np.float64) ** 2).sum()) for x in v))


KINDS = ['small', 'small', 'gauss', 'real', 'large', 'mono', 'sparse', 'ones', 'alt', 'tiny', 'zero']


def poly(n, kind, seed):
    r = Rng('c15', kind, seed).np()
    if kind == 'small':
        v = r.integers(-127, 128, n)
    elif kind == 'gauss':
        v = np.rint(r.normal(0, 4, n))
    elif kind == 'real':
        v = r.normal(0, 1000, n)
    elif kind == 'large':
        v = r.integers(-2 ** 20, 2 ** 20, n)
    elif kind == 'mono':
        v = np.zeros(n)
        v[r.integers(0, n)] = r.integers(1, 100) * r.choice([-1, 1])
    elif kind == 'sparse':
        v = np.zeros(n)
        for _ in range(3):
            v[r.integers(0, n)] = r.integers(-50, 51)
    elif kind == 'ones':
        v = np.ones(n) * r.integers(1, 9)
    elif kind == 'alt':
        v = np.array([(-1) ** i for i in range(n)]) * r.integers(1, 9)
    elif kind == 'tiny':
        v = r.normal(0, 1e-6, n)
    else:
        v = np.zeros(n)
    return np.asarray(v, dtype=np.float64)


class CF:
    """FFT functions of the C library on numpy arrays."""

    def __init__(self, L):
        self.L = L

    def __getattr__(self, name):
        f = self.L.z(name)

        def call(*args):
            f(*[C.c_void_p(a.ctypes.data) if isinstance(a, np.ndarray) else a for a in args])
        return call

    def fft(self, a, logn):
        # canary words around the array
        n = 1 << logn
        b = np.full(n + 4, 7.25)
        b[2:2 + n] = a
        v = b[2:2 + n]
        self.FFT(v, logn)
        check(b[0] == b[1] == b[-1] == b[-2] == 7.25, 'FFT writes outside its array')
        return v.copy()

    def ifft(self, a, logn):
        v = np.array(a, dtype=np.float64)
        self.iFFT(v, logn)
        return v


def close(got, ref, scale, what, rel=2.0 ** -42):
    err = float(np.max(np.abs(np.asarray(got) - np.asarray(ref)))) if len(np.atleast_1d(ref)) else 0.0
    check(err <= rel * scale + 1e-300 and np.isfinite(np.asarray(got)).all(),
          lambda: '%s: off by %.3g (tolerance %.3g)' % (what, err, rel * scale))


def well(n, kind, seed):
    """polynomial with a small condition number in the frequency domain, and that number"""
    for i in range(50):
        b = poly(n, kind if kind != 'zero' else 'small', seed + i * 7919)
        e = abs(ev(b))
        if e.min() > 0 and e.max() / e.min() < 1e5:
            return b, float(e.max() / e.min()), float(e.min())
    b = np.zeros(n)
    b[0] = 3
    return b, 1.0, 3.0


def run_c(ctx, case):
    F = ctx.get('cf', lambda: CF(lib(ctx)))
    ln, op, s = case['logn'], case['op'], case['s']
    n = 1 << ln
    hn = n >> 1
    a, b, c, d = (poly(n, k, s + i) for i, k in enumerate(case['kinds']))
    A, B, Cc, D = (F.fft(x, ln) for x in (a, b, c, d))
    lab = ['!' + op, 'n=%d' % n]
    sab = nrm(a) * nrm(b)
    if op == 'fft':
        close(F.ifft(A, ln), a, nrm(a), 'iFFT(FFT(a))')
        # the values are the evaluations at one root of each conjugate pair
        got = np.sort_complex(np.round(np.concatenate([A[:hn] + 1j * A[hn:], A[:hn] - 1j * A[hn:]]) / (nrm(a) + 1e-300), 9))
        e = ev(a)
        close(np.sum(A[:hn] ** 2 + A[hn:] ** 2), np.sum(abs(e) ** 2) / 2, n * nrm(a) ** 2 + 1e-300, 'Parseval')
        x = np.zeros(n)
        x[1] = 1
        X = F.fft(x, ln)
        roots = X[:hn] + 1j * X[hn:]
        k = np.rint((np.angle(roots) / math.pi * n - 1) / 2).astype(int)
        close(roots, np.exp(1j * math.pi * (2 * k + 1) / n), 1.0, 'the value of x at a root', 2.0 ** -48)
        val = np.polyval(a[::-1], roots) if n <= 64 else None
        if val is not None:
            close(np.abs(val - (A[:hn] + 1j * A[hn:])), np.zeros(hn), nrm(a) * math.sqrt(n), 'evaluation at the roots', 2.0 ** -40)
        close(np.sort(np.angle(roots ** n)), np.full(hn, math.pi) * np.sign(np.sort(np.angle(roots ** n))), n * 8.0, 'roots of x^n+1')
        B2 = F.ifft(B, ln)
        check(True, '')
        y = F.ifft(b, ln)              # any array is the transform of something
        close(F.fft(y, ln), b, nrm(b), 'FFT(iFFT(b))')
    elif op == 'lin':
        v = A.copy()
        F.poly_add(v, B, ln)
        close(F.ifft(v, ln), a + b, nrm(a) + nrm(b), 'add')
        v = A.copy()
        F.poly_sub(v, B, ln)
        close(F.ifft(v, ln), a - b, nrm(a) + nrm(b), 'sub')
        v = A.copy()
        F.poly_neg(v, ln)
        close(F.ifft(v, ln), -a, nrm(a), 'neg')
        v = a.copy()
        F.poly_add(v, b, ln)
        check((v == a + b).all(), 'add on coefficients')
        v = A.copy()
        F.poly_adj_fft(v, ln)
        close(F.ifft(v, ln), adj(a), nrm(a), 'adjoint')
        v = A.copy()
        k = float((s % 2001) - 1000) / 8
        F.L.z('poly_mulconst')(C.c_void_p(v.ctypes.data), C.c_uint64(int.from_bytes(np.float64(k).tobytes(), 'little')), ln)
        close(F.ifft(v, ln), a * k, nrm(a) * (abs(k) + 1e-9), 'mulconst')
    elif op == 'mul':
        v = A.copy()
        F.poly_mul_fft(v, B, ln)
        close(F.ifft(v, ln), mulr(a, b), sab, 'mul')
        v = A.copy()
        F.poly_muladj_fft(v, B, ln)
        close(F.ifft(v, ln), mulr(a, adj(b)), sab, 'muladj')
        v = A.copy()
        F.poly_mulselfadj_fft(v, ln)
        close(F.ifft(v, ln), mulr(a, adj(a)), nrm(a) ** 2, 'mulselfadj')
        check((v[hn:] == 0).all(), 'mulselfadj leaves imaginary parts')
        v = np.empty(n)
        F.poly_add_muladj_fft(v, A, B, Cc, D, ln)
        close(F.ifft(v, ln), mulr(a, adj(c)) + mulr(b, adj(d)), nrm(a) * nrm(c) + nrm(b) * nrm(d), 'add_muladj')
        g = B.copy()
        F.poly_mulselfadj_fft(g, ln)
        v = A.copy()
        F.poly_mul_autoadj_fft(v, g[:hn].copy(), ln)
        close(F.ifft(v, ln), mulr(a, mulr(b, adj(b))), nrm(a) * nrm(b) ** 2 * math.sqrt(n), 'mul_autoadj')
    elif op == 'div':
        w, cond, mn = well(n, case['kinds'][1], s + 1)
        W = F.fft(w, ln)
        v = A.copy()
        F.poly_div_fft(v, W, ln)
        ref = unev(ev(a) / ev(w))
        close(F.ifft(v, ln), ref, cond * nrm(a) / mn, 'div')
        g = W.copy()
        F.poly_mulselfadj_fft(g, ln)
        v = A.copy()
        F.poly_div_autoadj_fft(v, g[:hn].copy(), ln)
        close(F.ifft(v, ln), unev(ev(a) / abs(ev(w)) ** 2), cond ** 2 * nrm(a) / mn ** 2, 'div_autoadj')
        dd = np.full(hn + 1, 9.5)
        F.poly_invnorm2_fft(dd, W, B, ln)
        check(dd[hn] == 9.5, 'invnorm2 writes more than n/2 values')
        full = np.concatenate([dd[:hn], np.zeros(hn)])
        e = 1 / (abs(ev(w)) ** 2 + abs(ev(b)) ** 2)
        close(F.ifft(full, ln), unev(e), cond ** 2 * float(e.max()), 'invnorm2')
    elif op == 'split':
        f0, f1 = np.full(hn + 1, 3.5), np.full(hn + 1, 3.5)
        F.poly_split_fft(f0, f1, A, ln)
        check(f0[hn] == 3.5 and f1[hn] == 3.5, 'split writes more than n/2 values')
        h0, h1 = f0[:hn].copy(), f1[:hn].copy()
        if ln > 1:
            x0, x1 = F.ifft(h0, ln - 1), F.ifft(h1, ln - 1)
        else:
            x0, x1 = h0, h1
        close(x0, a[0::2], nrm(a), 'split: even half')
        close(x1, a[1::2], nrm(a), 'split: odd half')
        v = np.empty(n)
        F.poly_merge_fft(v, h0, h1, ln)
        close(v, A, nrm(A), 'merge(split(a))')
        if ln > 1:
            p, r = b[:hn], b[hn:]
            P, R = F.fft(p, ln - 1), F.fft(r, ln - 1)
        else:
            P, R = b[:1].copy(), b[1:].copy()
        F.poly_merge_fft(v, P, R, ln)
        e = np.empty(n)
        e[0::2], e[1::2] = b[:hn], b[hn:]
        close(F.ifft(v, ln), e, nrm(b), 'merge')
    else:  # ldl
        w, cond, mn = well(n, case['kinds'][1], s + 1)
        W = F.fft(w, ln)
        g00, g11, g01 = np.empty(n), np.empty(n), np.empty(n)
        F.poly_add_muladj_fft(g00, W, A, W, A, ln)
        F.poly_add_muladj_fft(g01, W, A, Cc, D, ln)
        F.poly_add_muladj_fft(g11, Cc, D, Cc, D, ln)
        ew, ea, ec, ed = ev(w), ev(a), ev(c), ev(d)
        r00 = abs(ew) ** 2 + abs(ea) ** 2
        r01 = ew * ec.conj() + ea * ed.conj()
        r11 = abs(ec) ** 2 + abs(ed) ** 2
        k = float(r00.max() / r00.min())
        if k > 1e8:
            return ['ldl-ill-conditioned']
        l10 = r01.conj() / r00
        d11 = r11 - abs(r01) ** 2 / r00
        sc10 = float(abs(l10).max()) * k + nrm(w, a) * nrm(c, d) / float(r00.min()) + 1e-300
        sc11 = (float(r11.max()) + float((abs(r01) ** 2 / r00).max()) + nrm(c, d) ** 2) * k + 1e-300
        p, q = g01.copy(), g11.copy()
        F.poly_LDL_fft(g00.copy(), p, q, ln)
        close(F.ifft(p, ln), unev(l10), sc10, 'LDL: l10')
        close(F.ifft(q, ln), unev(d11), sc11, 'LDL: d11')
        x, y = np.empty(n), np.empty(n)
        F.poly_LDLmv_fft(x, y, g00.copy(), g01.copy(), g11.copy(), ln)
        check((y == p).all() and (x == q).all(), 'LDLmv differs from LDL')
    return lab


# ---- exact arithmetic modulo q in C
def run_cq(ctx, case):
    L = lib(ctx)
    ln, s = case['logn'], case['s']
    n = 1 << ln
    r = Rng('c15q', case['kind'], s).np()
    tmp = C.create_string_buffer(16384 + 8)
    vp = lambda a: C.c_void_p(a.ctypes.data)
    hi = {'canon': M.Q, 'small': 3, 'edge': M.Q}[case['kind']]
    a = r.integers(0, hi, n) if case['kind'] != 'edge' else r.choice([0, 1, M.Q - 1, M.Q // 2, M.Q // 2 + 1], n)
    h = np.zeros(n + 2, dtype=np.uint16)
    h[:n] = a
    h[n:] = 0xBEEF
    L.z('to_ntt')(vp(h), ln)
    check((h[n:] == 0xBEEF).all(), 'to_ntt writes outside its array')
    check((h[:n].astype(np.int64) == M.ntt(a)).all(), 'to_ntt differs from the negacyclic NTT at n=%d' % n)
    mm = np.asarray(a, dtype=np.uint16)
    L.z('to_ntt_monty')(vp(mm), ln)
    R = (1 << 16) % M.Q
    check((mm.astype(np.int64) == M.ntt(a) * R % M.Q).all(), 'to_ntt_monty is not the NTT times 2^16')
    # a small s2
    lim = case['lim']
    s2 = r.integers(-lim, lim + 1, n).astype(np.int16)
    if case['zero']:
        # an s2 with a zero NTT coefficient: c * (psi^k' - x)-like low-degree combination
        s2 = np.zeros(n, dtype=np.int16)
        root = M.ntt([0, 1] + [0] * (n - 2))[int(r.integers(0, n))]
        s2[0], s2[1] = M.centered([-int(root)])[0], 1
    z = int((M.ntt(s2) == 0).sum())
    check(L.z('count_nttzero')(vp(s2), ln, tmp) == z, 'count_nttzero')
    check(bool(L.z('is_invertible')(vp(s2), ln, tmp)) == (z == 0), 'is_invertible')
    # verify_raw, verify_recover with an exact relation c = s1 + s2*h
    s1 = r.integers(-lim, lim + 1, n).astype(np.int16)
    c = (M.mulq(s2, a) + s1) % M.Q
    cc = c.astype(np.uint16)
    short = M.norm2(M.centered(s1), s2) <= M.BOUND[n]
    got = bool(L.z('verify_raw')(vp(cc), vp(s2), vp(mm), ln, tmp))
    check(got == short or lim > M.Q // 2, 'verify_raw returns %s at n=%d, norm %d' % (got, n, M.norm2(s1, s2)))
    hr = np.zeros(n, dtype=np.uint16)
    got = bool(L.z('verify_recover')(vp(hr), vp(cc), vp(s1), vp(s2), ln, tmp))
    check(got == (short and z == 0), 'verify_recover returns %s' % got)
    if got:
        check((hr.astype(np.int64) == a).all(), 'verify_recover gives another key')
    hr[:] = 0
    got = bool(L.z('verify_recover_epervier')(vp(hr), vp(cc), vp(s1), vp(s2), ln, tmp))
    check(got == (short and z == 0), 'verify_recover_epervier returns %s' % got)
    if got:
        check((hr.astype(np.int64) == M.ntt(a)).all(), 'verify_recover_epervier gives another key')
    if z == 0 and ln <= 9:      # the hint is defined for degree 512
        p = 1
        for x in M.ntt(s2):
            p = p * int(x) % M.Q
        check(L.z('hint_epervier')(vp(s2), ln) == pow(p, -1, M.Q), 'hint_epervier')
    # public key of an arbitrary invertible f
    f = np.asarray(r.integers(-min(lim, 127), min(lim, 127) + 1, n), dtype=np.int8)
    g = np.asarray(r.integers(-min(lim, 127), min(lim, 127) + 1, n), dtype=np.int8)
    ph = np.zeros(n, dtype=np.uint16)
    ok = L.z('compute_public')(vp(ph), vp(f), vp(g), ln, tmp)
    ref = M.divq(g, f)
    check(bool(ok) == (ref is not None), 'compute_public returns %d' % ok)
    if ok:
        check((ph.astype(np.int64) == ref).all(), 'compute_public is not g/f')
    return ['!n=%d' % n, '!short' if short else 'long', '!noninv' if z else 'inv']


def run_ckeygen(ctx, case):
    L = lib(ctx)
    ln = case['logn']
    n = 1 << ln
    key = ('kg', ln, case['s'])
    sc = C.create_string_buffer(L.d.vp_sizeof_shake())
    L.d.vp_shake_init(sc)
    seed = ubytes('kg', case['s'], 48)
    L.d.vp_shake_inject(sc, seed, C.c_size_t(48))
    L.d.vp_shake_flip(sc)
    f, g, F, G = (np.full(n + 1, 55, dtype=np.int8) for _ in range(4))
    h = np.full(n + 1, 0x5555, dtype=np.uint16)
    tmp = np.zeros(70000, dtype=np.uint64)
    vp = lambda a: C.c_void_p(a.ctypes.data)
    withG, withh = case['g'], case['h']
    L.z('keygen')(sc, vp(f), vp(g), vp(F), vp(G) if withG else None, vp(h) if withh else None, ln, vp(tmp))
    for x in (f, g, F, G):
        check(x[n] == 55, 'keygen writes outside its arrays')
    fl, gl, Fl = (x[:n].astype(np.int64) for x in (f, g, F))
    ref = M.divq(gl, fl)
    check(ref is not None, 'f is not invertible')
    if withh:
        check((h[:n].astype(np.int64) == ref).all(), 'public key is not g/f')
    Gr = M.centered(M.mulq(Fl, ref))
    e = M.negmul(fl, Gr) - M.negmul(gl, Fl)
    check(e[0] == M.Q and not e[1:].any(), 'no G with f*G - g*F = q')
    if withG:
        check((G[:n].astype(np.int64) == Gr).all(), 'G of keygen is wrong')
    G2 = np.full(n + 1, 55, dtype=np.int8)
    check(L.z('complete_private')(vp(G2), vp(f), vp(g), vp(F), ln, vp(tmp)) == 1, 'complete_private refuses a generated key')
    check((G2[:n].astype(np.int64) == Gr).all() and G2[n] == 55, 'complete_private recomputes another G')
    return ['!n=%d' % n]


# ---- Python
def run_py(ctx, case):
    T = pyref.mod('fft')
    ln, op, s = case['logn'], case['op'], case['s']
    n = 1 << ln
    a, b, c, d = (poly(n, k, s + i) for i, k in enumerate(case['kinds']))
    la, lb = [float(x) for x in a], [float(x) for x in b]
    ff = pyref.mod('ffsampling')
    with sut('Python fft.py/ffsampling.py %s n=%d' % (op, n)):
        A, B = T.fft(la), T.fft(lb)
        check(len(A) == n, 'fft length')
        if op == 'fft':
            close(T.ifft(A), a, nrm(a), 'ifft(fft(a))')
            X = np.array(T.fft([0.0, 1.0] + [0.0] * (n - 2)))
            k = np.rint((np.angle(X) / math.pi * n - 1) / 2).astype(int) % n
            check(len(set(k.tolist())) == n, 'the roots are not the n roots of x^n+1')
            close(X, np.exp(1j * math.pi * (2 * k + 1) / n), 1.0, 'the value of x at a root', 2.0 ** -45)
            close(abs(np.array(A) - ev_at(a, k)), np.zeros(n), nrm(a) * math.sqrt(n), 'fft values', 2.0 ** -40)
        elif op == 'lin':
            close(T.ifft(T.add_fft(A, B)), a + b, nrm(a) + nrm(b), 'add_fft')
            close(T.ifft(T.sub_fft(A, B)), a - b, nrm(a) + nrm(b), 'sub_fft')
            check(list(T.add(la, lb)) == [x + y for x, y in zip(la, lb)], 'add')
            check(list(T.sub(la, lb)) == [x - y for x, y in zip(la, lb)], 'sub')
            check(list(T.neg(la)) == [-x for x in la], 'neg')
            close(T.adj(la), adj(a), nrm(a), 'adj')
            close(T.ifft(T.adj_fft(A)), adj(a), nrm(a), 'adj_fft')
        elif op == 'mul':
            close(T.mul(la, lb), mulr(a, b), nrm(a) * nrm(b), 'mul')
            close(T.ifft(T.mul_fft(A, B)), mulr(a, b), nrm(a) * nrm(b), 'mul_fft')
        elif op == 'div':
            w, cond, mn = well(n, case['kinds'][1], s + 1)
            close(T.div(la, [float(x) for x in w]), unev(ev(a) / ev(w)), cond * nrm(a) / mn, 'div')
        elif op == 'split':
            if n > 2:
                f0, f1 = T.split_fft(A)
                close(T.ifft(f0), a[0::2], nrm(a), 'split_fft even')
                close(T.ifft(f1), a[1::2], nrm(a), 'split_fft odd')
                v = T.merge_fft([T.fft(la[:n // 2]), T.fft(la[n // 2:])])
                e = np.empty(n)
                e[0::2], e[1::2] = a[:n // 2], a[n // 2:]
                close(T.ifft(v), e, nrm(a), 'merge_fft')
            else:
                f0, f1 = T.split_fft(A)
                close([f0[0].real, f1[0].real, f0[0].imag, f1[0].imag], [a[0], a[1], 0, 0], nrm(a), 'split_fft at n=2')
            m = T.merge_fft(T.split_fft(A))
            close(abs(np.array(m) - np.array(A)), np.zeros(n), nrm(a) * math.sqrt(n), 'merge_fft(split_fft(a))')
            cm = pyref.mod('common')
            x0, x1 = cm.split(la)
            check(x0 == la[0::2] and x1 == la[1::2] and cm.merge([x0, x1]) == la, 'split/merge')
            check(cm.sqnorm([[int(x) for x in np.rint(a)], [int(x) for x in np.rint(b)]]) == M.norm2(np.rint(a), np.rint(b)), 'sqnorm')
        else:
            w, cond, mn = well(n, case['kinds'][1], s + 1)
            lw = [float(x) for x in w]
            Bm = [[lw, la], [[float(x) for x in c], [float(x) for x in d]]]
            G = ff.gram(Bm)
            ew, ea, ec, ed = ev(w), ev(a), ev(c), ev(d)
            r00 = abs(ew) ** 2 + abs(ea) ** 2
            r10 = (ew * ec.conj() + ea * ed.conj()).conj()
            r11 = abs(ec) ** 2 + abs(ed) ** 2
            sc = nrm(w, a, c, d) ** 2
            for (i, j), e in {(0, 0): r00, (1, 0): r10, (0, 1): r10.conj(), (1, 1): r11}.items():
                close(G[i][j], unev(e), sc, 'gram[%d][%d]' % (i, j))
            k = float(r00.max() / r00.min())
            if k > 1e8:
                return ['ldl-ill-conditioned']
            l10, d11 = r10 / r00, r11 - abs(r10) ** 2 / r00
            s10 = float(abs(l10).max()) * k + sc / float(r00.min()) + 1e-300
            s11 = (float(r11.max()) + float((abs(r10) ** 2 / r00).max()) + sc) * k + 1e-300
            Lc, Dc = ff.ldl(G)
            close(Lc[1][0], unev(l10), s10, 'ldl: l10')
            close(Dc[0][0], unev(r00), sc, 'ldl: d00')
            close(Dc[1][1], unev(d11), s11, 'ldl: d11')
            check(Lc[0][0] == [1] + [0] * (n - 1) and Lc[1][1] == Lc[0][0] and not any(Lc[0][1]) and not any(Dc[0][1]) and not any(Dc[1][0]), 'ldl: constant parts')
            Lf, Df = ff.ldl_fft([[T.fft(G[i][j]) for j in (0, 1)] for i in (0, 1)])
            close(T.ifft(Lf[1][0]), unev(l10), s10, 'ldl_fft: l10')
            close(T.ifft(Df[1][1]), unev(d11), s11, 'ldl_fft: d11')
            close(T.ifft(Df[0][0]), unev(r00), sc, 'ldl_fft: d00')
    return ['!py-' + op, 'n=%d' % n]


def ev_at(a, k):
    """values of a at exp(i*pi*(2k+1)/n); ev() gives exp(-i*pi*(2j-1)/n)"""
    n = len(a)
    v = np.fft.ifft(np.asarray(a) * np.exp(1j * np.pi * np.arange(n) / n)) * n
    return v[k]


# reference tree and nearest plane, on the coefficient domain
def ref_tree(g00, g10, g11):
    n = len(g00)
    e00, e10, e11 = ev(g00).real, ev(g10), ev(g11).real
    l10 = unev(e10 / e00)
    d11 = unev(e11 - abs(e10) ** 2 / e00)
    if n == 2:
        return [l10, g00[0], d11[0]]
    out = [l10]
    for dd in (g00, d11):
        d0, d1 = dd[0::2], dd[1::2]
        # [[d0, d1], [adj(d1), d0]]
        out.append(ref_tree(d0, adj(d1), d0))
    return out


def cmp_tree(T, t, r, fftdom, what, path=''):
    l = T.ifft(t[0]) if fftdom else t[0]
    close(l, r[0], float(np.abs(r[0]).max()) + 1, what + ': l10 at ' + path, 2.0 ** -24)
    for i in (1, 2):
        if isinstance(r[i], list):
            cmp_tree(T, t[i], r[i], fftdom, what, path + str(i))
        else:
            v = t[i]
            v0 = v[0]
            v0 = v0.real if isinstance(v0, complex) else v0
            close([v0], [r[i]], abs(r[i]) + 1e-9, what + ': leaf at ' + path, 2.0 ** -20)


def leaves(r):
    return [x for i in (1, 2) for x in (leaves(r[i]) if isinstance(r[i], list) else [r[i]])]


def run_tree(ctx, case):
    T, ff = pyref.mod('fft'), pyref.mod('ffsampling')
    n = 1 << case['logn']
    r = Rng('tree', case['s']).np()
    f, g, F, G = (r.normal(0, 4, n).round() for _ in range(4))
    f[0] += 20 * math.sqrt(n)
    G[0] += 20 * math.sqrt(n)
    Bm = [[list(map(float, f)), list(map(float, g))], [list(map(float, F)), list(map(float, G))]]
    g00 = mulr(f, adj(f)) + mulr(g, adj(g))
    g10 = mulr(F, adj(f)) + mulr(G, adj(g))
    g11 = mulr(F, adj(F)) + mulr(G, adj(G))
    ref = ref_tree(g00, g10, g11)
    with sut('Python ffldl/ffnp n=%d' % n):
        Gm = ff.gram(Bm)
        tc = ff.ffldl(Gm)
        cmp_tree(T, tc, ref, False, 'ffldl')
        tf = ff.ffldl_fft([[T.fft(Gm[i][j]) for j in (0, 1)] for i in (0, 1)])
        cmp_tree(T, tf, ref, True, 'ffldl_fft')
        t = [list(r.normal(0, case['w'], n)), list(r.normal(0, case['w'], n))]
        z = ff.ffnp(t, tc)
        zf = ff.ffnp_fft([T.fft(t[0]), T.fft(t[1])], tf)
        zf = [T.ifft(zf[0]), T.ifft(zf[1])]
    for i in (0, 1):
        zi = np.rint(zf[i])
        close(zf[i], zi, float(np.abs(zi).max()) + 1, 'ffnp_fft is integral', 2.0 ** -24)
        check(all(float(x) == int(x) for x in z[i]), 'ffnp is not integral')
    for nm, zz in (('ffnp', [np.asarray(z[0], dtype=float), np.asarray(z[1], dtype=float)]), ('ffnp_fft', [np.rint(zf[0]), np.rint(zf[1])])):
        d0, d1 = np.array(t[0]) - zz[0], np.array(t[1]) - zz[1]
        v0 = mulr(d0, f) + mulr(d1, F)
        v1 = mulr(d0, g) + mulr(d1, G)
        bound = sum(leaves(ref)) / 2      # each leaf is used for two coordinates, each at most 1/2 away
        check(float((v0 ** 2).sum() + (v1 ** 2).sum()) <= bound * (1 + 1e-6), '%s: the target is outside the fundamental box (%.6g > %.6g)' % (nm, float((v0 ** 2).sum() + (v1 ** 2).sum()), bound))
    return ['!n=%d' % n]


def ibig(r, n, bits):
    return [r.randint(-(1 << bits), 1 << bits) for _ in range(n)]


def bmul(a, b):
    """exact product of integer lists modulo x^n+1 by Kronecker substitution"""
    n = len(a)
    k = max([abs(x).bit_length() for x in a] + [1]) + max([abs(x).bit_length() for x in b] + [1]) + n.bit_length() + 2
    pa = sum_shift(a, k)
    pb = sum_shift(b, k)
    p = pa * pb
    out = []
    m, half = (1 << k) - 1, 1 << (k - 1)
    neg = p < 0
    if neg:
        p = -p
    for _ in range(2 * n):
        d = p & m
        p >>= k
        if d >= half:
            d -= 1 << k
            p += 1
        out.append(-d if neg else d)
    return [out[i] - out[i + n] for i in range(n)]


def sum_shift(a, k):
    if len(a) == 1:
        return a[0]
    h = len(a) // 2
    return sum_shift(a[:h], k) + (sum_shift(a[h:], k) << (k * h))


def run_ntrupoly(ctx, case):
    N = pyref.mod('ntrugen')
    n = 1 << case['logn']
    r = Rng('ntp', case['s'])
    a, b = ibig(r, n, case['ba']), ibig(r, n, case['bb'])
    lab = ['!n=%d' % n]
    with sut('ntrugen arithmetic n=%d' % n):
        check(N.karamul(a, b) == bmul(a, b), 'karamul differs from the schoolbook product')
        check(N.galois_conjugate(a) == [x if i % 2 == 0 else -x for i, x in enumerate(a)], 'galois_conjugate')
        check(N.lift(a) == [x for v in a for x in (v, 0)], 'lift')
        if n > 1:
            # N(a)(x^2) = a(x) a(-x)
            check(N.lift(N.field_norm(a)) == bmul(a, [x if i % 2 == 0 else -x for i, x in enumerate(a)]), 'field_norm')
        for x in a[:4]:
            bs = N.bitsize(x)
            check(bs % 8 == 0 and abs(x) < 1 << bs and (bs == 0 or abs(x) >> (bs - 8)), 'bitsize')
        x, y = a[0], b[0]
        d, u, v = N.xgcd(x, y)
        check(abs(d) == math.gcd(x, y) and u * x + v * y == d, 'xgcd')
        if n >= 2 and case['red']:
            f, g = ibig(r, n, case['ba'] // 4 + 2), ibig(r, n, case['ba'] // 4 + 2)
            if ev(f).any() and min(abs(ev([float(t) for t in f])) ** 2 + abs(ev([float(t) for t in g])) ** 2) > 0:
                # a multiple of (f, g) plus a small pair, as in NTRUSolve: the part orthogonal to (f, g) is small
                k0 = ibig(r, n, case['bb'])
                F = [x + r.randint(-2, 2) * (1 + abs(f[0])) for x in bmul(k0, f)]
                G = [x + r.randint(-2, 2) * (1 + abs(f[0])) for x in bmul(k0, g)]
                inv = [p - q for p, q in zip(bmul(f, G), bmul(g, F))]
                f0, g0 = f[:], g[:]
                F2, G2 = N.reduce(f, g, F[:], G[:])
                check(f == f0 and g == g0, 'reduce changes f or g')
                check([p - q for p, q in zip(bmul(f, G2), bmul(g, F2))] == inv, 'reduce does not preserve f*G - g*F')
                dF = [p - q for p, q in zip(F, F2)]
                dG = [p - q for p, q in zip(G, G2)]
                check(bmul(dF, g) == bmul(dG, f), 'reduce subtracts something that is no multiple of (f, g)')
                if case['bb'] < 200:
                    # reduced: the remaining quotient is small
                    ef, eg = ev([float(t) for t in f]), ev([float(t) for t in g])
                    eF, eG = ev([float(t) for t in F2]), ev([float(t) for t in G2])
                    k = unev((eF * ef.conj() + eG * eg.conj()) / (abs(ef) ** 2 + abs(eg) ** 2))
                    mx = max(max(map(abs, F2)), max(map(abs, G2)))
                    if mx.bit_length() <= 44 and float(np.max(abs(ef))) / float(np.sqrt(np.min(abs(ef) ** 2 + abs(eg) ** 2))) < 1e3:
                        check(float(np.abs(k).max()) < 1.01, 'reduce stops at quotient %.3f' % float(np.abs(k).max()))
                        lab.append('!reduced')
    return lab


ops = ['fft', 'lin', 'mul', 'div', 'split', 'ldl']


def strat(hi):
    return st.fixed_dictionaries({'logn': st.one_of(st.integers(1, 10 if hi else 7), st.sampled_from([1, 2, 9, 10]) if hi else st.sampled_from([1, 2, 8, 9, 10])),
                                  'op': st.sampled_from(ops), 's': seeds(), 'kinds': st.lists(st.sampled_from(KINDS), min_size=4, max_size=4)})


FACETS = [
    Facet('c-fft', strat(True), run_c, 16000, 600000, rule='degree, operation, four operands of 11 shapes'),
    Facet('c-modq', st.fixed_dictionaries({'logn': st.integers(1, 10), 's': seeds(), 'kind': st.sampled_from(['canon', 'small', 'edge']),
                                           'lim': st.sampled_from([1, 2, 20, 127, 170, 300, 2047]), 'zero': st.integers(0, 4).map(lambda x: x == 0)}),
          run_cq, 10000, 400000, rule='NTT, public key, verification and recovery at every degree'),
    Facet('c-keygen', st.fixed_dictionaries({'logn': st.integers(1, 10), 's': seeds(), 'g': st.booleans(), 'h': st.booleans()}), run_ckeygen, 700, 15000,
          rule='key generation and completion at every degree'),
    Facet('py-fft', strat(False), run_py, 3500, 120000, rule='as c-fft, Python'),
    Facet('py-tree', st.fixed_dictionaries({'logn': st.one_of(st.integers(1, 7), st.integers(1, 9)), 's': seeds(), 'w': st.sampled_from([0.3, 1, 20, 1000])}),
          run_tree, 450, 12000, rule='LDL tree and nearest plane of random bases'),
    Facet('py-ntru-arith', st.fixed_dictionaries({'logn': st.one_of(st.integers(0, 6), st.integers(0, 7)), 's': seeds(), 'ba': st.sampled_from([1, 4, 8, 30, 53, 64, 200, 800]),
                                                  'bb': st.sampled_from([1, 4, 8, 30, 53, 64, 100, 200, 800]), 'red': st.booleans()}),
          run_ntrupoly, 3500, 120000, rule='big-integer polynomial arithmetic and reduction'),
]
