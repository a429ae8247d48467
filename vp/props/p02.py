"""P02: Python verification is total and accepts exactly what the specification allows."""
from hypothesis import strategies as st
from ..core import Facet, check, sut
from .. import model as M
from .. import pyref
from ..pyprops import *
from ..cprops import vec_with_norm
from ..gen import Rng, blob, unblob, seeds, ubytes


def build(b):
    return {}


def setup_worker(ctx):
    pyref.setup()


def base_sig(ctx, n, k, xn, j):
    """a genuine signature (made with the reference equation as a guard)."""
    def mk():
        sk = sk_obj(ctx, n, k)
        msg = ubytes('m', j, 20 + j)
        return msg, sk.sign(msg, randombytes=Stream('b', n, k, xn, j), xof=xof_class(xn))
    return ctx.get(('bs', n, k, xn, j), mk)


def compare(ctx, n, h, msg, sig, xn, what):
    exp = py_accept(n, h, msg, sig, xn)
    P = pyref.mod('falcon').PublicKey(n, h)
    with sut('degree %d: verify on %s' % (n, what)):
        got = P.verify(msg, sig, xof=xof_class(xn))
    check(isinstance(got, bool), 'degree %d: verify returns %r on %s' % (n, got, what))
    check(got == exp, 'degree %d: verify on %s is %s, the specification says %s' % (n, what, got, exp))
    return exp


def run_mut(ctx, case):
    n, k, xn = case['n'], case['key'], case['xof']
    msg, sig = base_sig(ctx, n, k, xn, case['j'])
    h = h_of(n, k)
    op, a, b = case['op'], case['a'], case['b']
    sl = len(sig)
    if op == 'flip':
        i = a % (8 * sl)
        s = sig[:i // 8] + bytes([sig[i // 8] ^ (128 >> i % 8)]) + sig[i // 8 + 1:]
    elif op == 'setbyte':
        i = a % sl
        s = sig[:i] + bytes([b & 255]) + sig[i + 1:]
    elif op == 'trunc':
        s = sig[:a % (sl + 1)]
    elif op == 'extend':
        s = sig + (b'\x00' if b & 1 else ubytes('x', b, 1)) * (a % 70)
    elif op == 'header':
        s = bytes([b & 255]) + sig[1:]
    elif op == 'strip':
        s = sig.rstrip(b'\x00') + b'\x00' * (a % 4)
    elif op == 'pad':
        # set one padding bit after the last coefficient
        v = py_decode(sig[41:], SIGLEN[n] - 41, n)
        used = len(M.comp_bits(v))
        tot = 8 * (sl - 41)
        if used == tot:
            return []
        bit = 41 * 8 + used + a % (tot - used)
        s = sig[:bit // 8] + bytes([sig[bit // 8] ^ (128 >> bit % 8)]) + sig[bit // 8 + 1:]
    elif op == 'recode':
        # another vector in place of the decoded one
        v = list(py_decode(sig[41:], SIGLEN[n] - 41, n))
        i = a % n
        v[i] += [1, -1, 128, -128, 12289, -12289, 2048, -v[i]][b % 8]
        e = py_encode(v, SIGLEN[n] - 41)
        s = sig[:41] + (e if e is not None else M.bits_to_bytes(M.comp_bits(v)))
    elif op == 'negzero':
        v = list(py_decode(sig[41:], SIGLEN[n] - 41, n))
        i = a % n
        v[i] = 0
        bits = M.comp_bits(v)
        p = len(M.comp_bits(v[:i]))
        bits = bits[:p] + '1' + bits[p + 1:]
        s = sig[:41] + M.bits_to_bytes(bits.ljust(8 * (sl - 41), '0'))
    elif op == 'count':
        v = list(py_decode(sig[41:], SIGLEN[n] - 41, n))
        v = v[:-1] if b & 1 else v + [b % 3]
        s = sig[:41] + M.bits_to_bytes(M.comp_bits(v).ljust(8 * (sl - 41), '0'))
    elif op == 'window':
        # drop or insert a byte
        i = a % sl
        s = sig[:i] + (sig[i + 1:] if b & 1 else bytes([b >> 1 & 255]) + sig[i:])
    elif op == 'rand':
        s = sig[:41] + ubytes('r', a, (b % 3 and sl - 41) or b % (sl - 41 + 3))
    elif op == 'raw':
        s = unblob(case['blob'])
    else:
        s = sig
    if case['mmsg'] and op != 'raw':
        msg = msg + b'\x00'
    e = compare(ctx, n, h, msg, s, xn, 'a %s-altered signature' % op)
    return ['!' + op, 'accept' if e else 'reject']


OPS = ['flip', 'setbyte', 'trunc', 'extend', 'header', 'strip', 'pad', 'recode', 'negzero', 'count', 'window', 'rand', 'raw', 'none']


def strat_mut(ctx=None):
    return st.fixed_dictionaries({
        'n': st.sampled_from([2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2, 4, 8, 16, 512]), 'key': st.integers(0, 2), 'xof': st.sampled_from(XOFS),
        'j': st.integers(0, 2), 'op': st.sampled_from(OPS), 'a': st.one_of(st.integers(0, 20), st.integers(0, 20000)), 'b': st.integers(0, 511),
        'blob': blob(800), 'mmsg': st.sampled_from([0, 0, 0, 0, 1])})


def corners_mut(ctx):
    z = {'key': 0, 'xof': 'shake', 'j': 0, 'a': 0, 'b': 0, 'blob': {'n': 0, 's': 0}, 'mmsg': 0}
    out = []
    for n in (8, 512):
        for b in range(0, 256, 1 if n == 8 else 16):
            out.append(dict(z, n=n, op='header', b=b))
        for a in [0, 1, 2, 40, 41, 42, 43, 60]:
            out.append(dict(z, n=n, op='trunc', a=a))
            for s in (0, 1, 7):
                out.append(dict(z, n=n, op='raw', blob={'n': a, 's': s}))
        for a in range(6):
            out.append(dict(z, n=n, op='pad', a=a))
        out.append(dict(z, n=n, op='raw', blob={'hex': '%02x' % (0x20 + LOGN[n]) + '00' * 40 + '80'}))
        out.append(dict(z, n=n, op='raw', blob={'hex': '%02x' % (0x20 + LOGN[n]) + '00' * 40 + '01' * 30}))
    return out


def exact_norm(rng, n, total):
    if n > 16:
        return vec_with_norm(rng, n, 6144, total, shape=rng.choice(['flat', 'uniform', 'few']))
    import math
    for _ in range(20):
        rest, v = total, []
        for i in range(n - 2):
            x = rng.randint(0, min(6144, math.isqrt(rest // (n - 1 - i))))
            v.append(x if rng.below(2) else -x)
            rest -= x * x
        for a in range(min(6144, math.isqrt(rest)) + 1):
            b = math.isqrt(rest - a * a)
            if b * b == rest - a * a and b <= 6144:
                v += [a, -b]
                return v if rng.below(2) else v[::-1]
    return None


def run_norm(ctx, case):
    """vectors of a chosen squared norm: the bound is inclusive and counts every coefficient of both halves."""
    n, xn = case['n'], case['xof']
    rng = Rng('norm', case['s'])
    bound = M.BOUND[n]
    delta = case['delta'] + case.get('wrap', 0) * (n >= 128)
    target = bound + delta
    # s2 small and invertible; the whole remaining norm in s1 (or most of it in s2, within the encoding)
    for t in range(50):
        if case['heavy'] == 's2':
            # s2 carries most of the norm (few large coefficients so that it still encodes)
            big = min(2047 if case['lim'] else 5000, int((bound * 0.9) ** 0.5))
            v = [rng.randint(-20, 20) for _ in range(n)]
            pos = rng.below(n) if case['where'] == 'any' else (n - 1 if case['where'] == 'last' else 0)
            v[pos] = big if rng.below(2) else -big
        else:
            m = max(1, int((bound / n / 8) ** 0.5))
            v = [rng.randint(-min(m, 60), min(m, 60)) for _ in range(n)]
        if (M.ntt(v) == 0).any():
            continue
        body = py_encode(v, SIGLEN[n] - 41)
        if body is None or M.norm2(v) > target:
            continue
        s1 = exact_norm(rng, n, target - M.norm2(v))
        if s1 is None or max(map(abs, s1)) > 6144:
            continue
        break
    else:
        return []
    if case['where'] == 'last' and case['heavy'] == 's1':
        k = max(range(n), key=lambda i: abs(s1[i]))
        s1[k], s1[n - 1] = s1[n - 1], s1[k]
    salt = ubytes('salt', case['s'], 40)
    msg = ubytes('msg', case['s'], case['s'] % 60)
    c = h2p(xn, salt, msg, n)
    h = [int(x) for x in M.divq([a - b for a, b in zip(c, s1)], v)]
    sig = bytes([0x20 + LOGN[n]]) + salt + body
    ok, nn = M.accept(c, v, h, n)
    e = py_accept(n, h, msg, sig, xn)
    check(e == (delta <= 0), 'reference disagrees with the construction')
    compare(ctx, n, h, msg, sig, xn, 'a vector of squared norm bound%+d' % delta)
    return ['!%s%+d' % (case['heavy'], max(-2, min(2, delta)))]


def strat_norm(ctx=None):
    return st.fixed_dictionaries({'n': st.sampled_from(DEGREES), 'xof': st.sampled_from(XOFS), 's': seeds(20),
                                  'delta': st.one_of(st.sampled_from([-1, 0, 1, 2]), st.integers(-30, 30), st.integers(-2000, 2000)),
                                  'wrap': st.sampled_from([0] * 7 + [1 << 31, 1 << 32]), 'heavy': st.sampled_from(['s1', 's2']), 'lim': st.booleans(), 'where': st.sampled_from(['any', 'last', 'first'])})


def corners_norm(ctx):
    return [{'n': n, 'xof': 'shake', 's': 7 + i, 'delta': d, 'heavy': hv, 'lim': True, 'where': w} for n in DEGREES for d in (0, 1)
            for i, (hv, w) in enumerate((('s1', 'last'), ('s2', 'last'), ('s1', 'any'), ('s2', 'first')))]


def run_pk(ctx, case):
    """keys read from bytes verify the same way."""
    n = 512 if case['n'] == 512 else 1024
    F = pyref.mod('falcon')
    h = h_of(n, case['key'])
    pkb = bytes([LOGN[n]]) + M.fixed_encode(h, 14)
    with sut('PublicKey.from_bytes (degree %d)' % n):
        P = F.PublicKey.from_bytes(pkb)
    check(P.n == n and list(P.pk) == h, 'from_bytes gives another key (degree %d)' % n)
    msg, sig = base_sig(ctx, n, case['key'], 'shake', 0)
    with sut('verify'):
        check(P.verify(msg, sig, xof=xof_class('shake')) is True, 'a key read from bytes refuses a valid signature')
    bad = []
    i, b = case['i'] % len(pkb), case['b']
    bad.append(pkb[:i])
    bad.append(pkb + ubytes('e', case['i'], 1 + case['i'] % 5))
    bad.append(bytes([case['hd']]) + pkb[1:])
    j = case['i'] % n
    h2 = list(h)
    h2[j] = 12289 + case['i'] % (16384 - 12289)
    bad.append(pkb[:1] + M.fixed_encode(h2, 14))
    bad.append(pkb[:1] + M.fixed_encode(h + [0], 14))
    for x in bad:
        good = len(x) == len(pkb) and x[0] == pkb[0] and max(M.fixed_decode(x[1:], n, 14)[0]) < M.Q
        try:
            r = F.PublicKey.from_bytes(x)
        except ValueError:
            check(not good, 'a valid public key is refused')
            continue
        except Exception as e:
            check(False, 'from_bytes raises %s on a malformed key' % type(e).__name__)
        check(good, 'from_bytes accepts a malformed key: length %d, header 0x%02x' % (len(x), x[0] if x else -1))
        check(list(r.pk) == M.fixed_decode(x[1:], n, 14)[0], 'from_bytes gives another key')
    return ['!']


def strat_pk(ctx=None):
    return st.fixed_dictionaries({'n': st.sampled_from([512, 1024]), 'key': st.integers(0, 5), 'i': st.integers(0, 20000), 'b': st.integers(0, 7),
                                  'hd': st.one_of(st.sampled_from([0x09, 0x0A, 0x00, 0x08, 0x0B, 0x29, 0x59]), st.integers(0, 255))})


FACETS = [
    Facet('history', strat_history(['plain'], ('verify',)), run_history, 250, 8000, corners_history(['plain']), rule=HISTORY_RULE),
    Facet('altered', strat_mut, run_mut, 9000, 150000, corners_mut, rule='altered, truncated, extended, re-encoded and random signatures against the reference predicate; non-trivial unless the alteration was impossible'),
    Facet('norm', strat_norm, run_norm, 3000, 60000, corners_norm, rule='signatures with a chosen squared norm around the bound; non-trivial when constructed'),
    Facet('keybytes', strat_pk, run_pk, 240, 5000, [{'n': n, 'key': 0, 'i': i, 'b': 0, 'hd': hd} for n in (512, 1024) for i, hd in ((0, 9), (896, 10), (897, 0), (1792, 9), (1791, 10))],
          rule='public keys from bytes, well-formed and malformed'),
]
