"""Helpers shared by the C-library properties."""
from . import model as M
from .clib import Lib, SK, PK, PK16
from .core import Violation, check
from .gen import ubytes

HASH = {'nist': 'shake', 'eth': 'keccak'}      # library variant -> hash


def build_std(b):
    return {'lib': b.clib('nist', 'eth')}


def lib(ctx, v='nist'):
    return ctx.get(('lib', v), lambda: Lib(ctx.art['lib'][v]))


def key(ctx, k):
    """Key number k: dict with sk, pk14, pk16, h, f, g, F (cached)."""
    cache = ctx.get('keys', dict)
    if k not in cache:
        if len(cache) > 400:
            cache.clear()
        L = lib(ctx)
        seed = ubytes('key', k, 48)
        if k % 2:       # the seed comes from the random source
            r, pk, sk = L.keypair('nist', seed)
            r2, pk16, sk2 = L.keypair('zk', seed)
        else:
            r, pk, sk = L.keypair_seed('nist', seed)
            r2, pk16, sk2 = L.keypair_seed('zk', seed)
        check(r == 0, 'key generation from a 48-byte seed failed')
        check(r2 == 0, 'EVM key generation from a 48-byte seed failed')
        d = {'seed': seed, 'sk': sk[:SK], 'pk': pk[:PK], 'pk16': pk16[:PK16], 'sk16': sk2[:SK]}
        check(d['pk'][0] == 9 and d['sk'][0] == 0x59 and d['pk16'][0] == 9, 'key header bytes')
        d['h'] = M.pk14_decode(d['pk'])
        d['f'], d['g'], d['F'] = M.sk_decode(d['sk'])
        cache[k] = d
    return cache[k]


def pub(k, fmt):
    return k['pk'] if fmt == 'nist' else k['pk16']


def ref_pk(fmt, pk):
    """public polynomial h (coefficient domain) or None if malformed."""
    if pk[0] != 9:
        return None
    if fmt == 'nist':
        h = M.pk14_decode(pk)
        return None if max(h) >= M.Q else h
    v = M.pk16_decode(pk)
    return None if max(v) >= M.Q else [int(x) for x in M.intt(v)]


def ref_sig_zk(body):
    if len(body) != 1024:
        return None
    v = M.fixed_decode(body, 512, 16)[0]
    if max(v) >= M.Q:
        return None
    return [int(x) for x in M.centered(v)]


def ref_open(fmt, hashkind, sm, pk):
    """Reference opening: message or None.  fmt nist|zk."""
    h = ref_pk(fmt, pk)
    if h is None or len(sm) < 42:
        return None
    sl = int.from_bytes(sm[:2], 'big')
    if sl < 1 or sl > len(sm) - 42:
        return None
    ml = len(sm) - 42 - sl
    salt, msg, sig = sm[2:42], sm[42:42 + ml], sm[42 + ml:]
    if sig[0] != 0x29:
        return None
    if fmt == 'nist':
        d = M.comp_decode(sig[1:], 512)
        if d is None or d[1] != len(sig) - 1:
            return None
        s2 = d[0]
    else:
        s2 = ref_sig_zk(sig[1:])
        if s2 is None:
            return None
    ok, _ = M.accept(M.h2p(hashkind, salt, msg), s2, h)
    return msg if ok else None


def ref_open_ep(sm, pk):
    """Reference EPERVIER opening."""
    if pk[0] != 9:
        return None
    hn = M.pk16_decode(pk)
    if max(hn) >= M.Q or len(sm) < 42 + 2052:
        return None
    if int.from_bytes(sm[:2], 'big') != 2052:
        return None
    salt, msg, sig = sm[2:42], sm[42:-2052], sm[-2052:]
    if sig[0] != 0x29 or sig[1025] != 0x29:
        return None
    s1, s2 = ref_sig_zk(sig[1:1025]), ref_sig_zk(sig[1026:2050])
    if s1 is None or s2 is None:
        return None
    hint = int.from_bytes(sig[2050:], 'big')
    if M.norm2(s1, s2) > M.BOUND[512]:
        return None
    s2n = M.ntt(s2)
    if (s2n == 0).any():
        return None
    p = 1
    for x in s2n:
        p = p * int(x) % M.Q
    if hint != pow(p, -1, M.Q):
        return None
    c = M.h2p('shake', salt, msg)
    import numpy as np
    lhs = (M.ntt((np.array(c) - np.array(s1)) % M.Q)) % M.Q
    rhs = s2n * np.array(hn) % M.Q
    return msg if (lhs == rhs).all() else None


def keccak_limit_exceeded(variant, salt_and_msg_len):
    return variant == 'eth' and salt_and_msg_len > 4096


def vec_with_norm(rng, n, maxabs, total, spare=12, shape='flat'):
    """Integer vector of length n, |x|<=maxabs, squared norm exactly total (or None)."""
    import math
    g = rng.np()
    import numpy as np
    std = math.sqrt(max(total, 1) / n)
    if std > maxabs / 2.5:
        v = np.clip(np.rint(g.normal(std, std * 0.08, n)), 0, maxabs).astype(np.int64) * g.choice([-1, 1], n)
    elif shape == 'flat':
        v = np.rint(g.normal(0, std, n)).astype(np.int64)
        v = np.clip(v, -maxabs, maxabs)
    elif shape == 'uniform':
        b = min(maxabs, int(math.sqrt(3 * max(total, 1) / n)))
        v = g.integers(-b, b + 1, n)
    else:
        v = np.zeros(n, dtype=np.int64)
        k = {'one': 0, 'few': min(5, n), 'half': n // 2}[shape]
        if k:
            idx = g.permutation(n)[:k]
            b = min(maxabs, max(1, int(math.sqrt(total / k))))
            v[idx] = g.integers(-b, b + 1, k)
    v = [int(x) for x in v]
    order = [int(x) for x in g.permutation(n)]
    # drop entries until the rest fits below the total
    cur = sum(x * x for x in v)
    i = 0
    while cur > total and i < n:
        j = order[i]
        cur -= v[j] * v[j]
        v[j] = 0
        i += 1
    # clear spare slots and fill greedily
    free = order[:max(i, spare)]
    for j in free:
        cur -= v[j] * v[j]
        v[j] = 0
    rem = total - cur
    pool = free + order[len(free):]
    for j in pool:
        if rem == 0:
            break
        cand = rem + v[j] * v[j]
        x = min(maxabs, math.isqrt(cand))
        if x * x - v[j] * v[j] <= 0 and v[j] != 0:
            continue
        rem = cand - x * x
        v[j] = x if g.integers(0, 2) else -x
    return v if rem == 0 else None
