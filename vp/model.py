"""Reference model of Falcon: written from the specification, independent of the code under test."""
import hashlib
import numpy as np

Q = 12289
BOUND = {2: 101498, 4: 208714, 8: 428865, 16: 892039, 32: 1852696, 64: 3842630, 128: 7959734,
         256: 16468416, 512: 34034726, 1024: 70265242}


def keccak256(b):
    from Crypto.Hash import keccak
    return keccak.new(digest_bits=256, data=b).digest()


def keccak_ctr(data, n):
    s = keccak256(data)
    out = b''.join(keccak256(s + i.to_bytes(8, 'big')) for i in range((n + 31) // 32))
    return out[:n]


def h2p_stream(stream, n, start=None):
    """stream: callable k -> first k bytes of the extendable output."""
    k = start or (n * 2 + n // 4 + 64)
    while True:
        b = np.frombuffer(stream(k - k % 2), dtype='>u2').astype(np.int64)
        ok = b[b < 61445]
        if len(ok) >= n:
            return [int(v) for v in ok[:n] % Q]
        k *= 2


def h2p(kind, salt, msg, n=512):
    if kind == 'shake':
        return h2p_stream(lambda k: hashlib.shake_256(salt + msg).digest(k), n)
    if kind == 'keccak':
        return h2p_stream(lambda k: keccak_ctr(salt + msg, k), n)
    if kind == 'blake2s':
        return h2p_stream(lambda k: blake2s_ctr(salt + msg, k), n)
    raise ValueError(kind)


def blake2s_ctr(data, n):
    s = hashlib.blake2s(data).digest()
    out = b''.join(hashlib.blake2s(s + i.to_bytes(8, 'big')).digest() for i in range((n + 31) // 32))
    return out[:n]


# ---- exact polynomial arithmetic modulo x^n+1 and q
def centered(v):
    v = np.asarray(v, dtype=np.int64) % Q
    return np.where(v > Q // 2, v - Q, v)


def negmul(a, b):
    """exact product in Z[x]/(x^n+1) for operands whose product coefficients are below 2^62."""
    a = np.asarray(a, dtype=np.int64)
    b = np.asarray(b, dtype=np.int64)
    n = len(a)
    r = np.convolve(a, b)
    out = r[:n].copy()
    out[:n - 1] -= r[n:]
    return out


def mulq(a, b):
    return negmul(np.asarray(a, dtype=np.int64) % Q, np.asarray(b, dtype=np.int64) % Q) % Q


def norm2(*vs):
    return int(sum(int((np.asarray(v, dtype=np.int64) ** 2).sum()) for v in vs))


def accept(c, s2, h, n=512, bound=None):
    """the specification's predicate; returns (bool, norm)."""
    s2c = centered(s2)
    s1 = centered(np.asarray(c, dtype=np.int64) - mulq(s2c, h))
    nn = norm2(s1, s2c)
    return nn <= (BOUND[n] if bound is None else bound), nn


# ---- NTT with the project's ordering (bit-reversed powers of psi); psi = 10810-based table of order 1024
def _bitrev(i, l):
    r = 0
    for _ in range(l):
        r = (r << 1) | (i & 1)
        i >>= 1
    return r


_ntt_tab = {}


def psi_rev(n, psi=None):
    """psi_rev[i] = psi^bitrev(i), psi a primitive 2n-th root with psi^(n/2)... = 10810 in slot 1 for n=512."""
    if n not in _ntt_tab:
        l = n.bit_length() - 1
        # generator: C uses g = 7 as a primitive 2048-th root (inverse 8778)
        g = pow(7, 2048 // (2 * n), Q)
        _ntt_tab[n] = [pow(g, _bitrev(i, l), Q) for i in range(n)]
    return _ntt_tab[n]


def ntt(a):
    a = [int(x) % Q for x in a]
    n = len(a)
    tab = psi_rev(n)
    a = np.array(a, dtype=np.int64)
    t = n
    m = 1
    while m < n:
        t //= 2
        s = np.array(tab[m:2 * m], dtype=np.int64)[:, None]
        x = a.reshape(m, 2 * t)
        u = x[:, :t]
        v = x[:, t:] * s % Q
        a = np.concatenate([(u + v) % Q, (u - v) % Q], axis=1).reshape(-1)
        m *= 2
    return a


def intt(a):
    a = np.array([int(x) % Q for x in a], dtype=np.int64)
    n = len(a)
    tab = psi_rev(n)
    m = n // 2
    t = 1
    while m >= 1:
        s = np.array([pow(z, -1, Q) for z in tab[m:2 * m]], dtype=np.int64)[:, None]
        x = a.reshape(m, 2 * t)
        u, v = x[:, :t], x[:, t:]
        a = np.concatenate([(u + v) % Q, (u - v) * s % Q], axis=1).reshape(-1)
        t *= 2
        m //= 2
    return a * pow(n, -1, Q) % Q


def invq(a):
    """inverse modulo (x^n+1, q) or None."""
    v = ntt(a)
    if (v == 0).any():
        return None
    return intt([pow(int(x), -1, Q) for x in v])


def divq(a, b):
    i = invq(b)
    return None if i is None else mulq(a, i)


# ---- codecs
def bits_to_bytes(bits):
    bits = bits + '0' * (-len(bits) % 8)
    return int(bits, 2).to_bytes(len(bits) // 8, 'big') if bits else b''


def fixed_encode(vals, width):
    acc = 0
    for v in vals:
        acc = (acc << width) | (v & ((1 << width) - 1))
    nb = len(vals) * width
    pad = -nb % 8
    return (acc << pad).to_bytes((nb + pad) // 8, 'big')


def fixed_decode(b, n, width):
    """unsigned values and padding value; b must have exactly the right length."""
    nb = n * width
    pad = -nb % 8
    acc = int.from_bytes(b, 'big')
    padv = acc & ((1 << pad) - 1)
    acc >>= pad
    mask = (1 << width) - 1
    return [(acc >> (width * (n - 1 - i))) & mask for i in range(n)], padv


def comp_bits(vals):
    out = []
    for v in vals:
        m = abs(v)
        out.append('1' if v < 0 else '0')
        out.append(format(m & 127, '07b'))
        out.append('0' * (m >> 7) + '1')
    return ''.join(out)


def comp_encode(vals):
    """minimal byte string, or None when out of range."""
    if any(abs(v) > 2047 for v in vals):
        return None
    return bits_to_bytes(comp_bits(vals))


def comp_decode(b, n):
    """(values, bytes consumed) or None; canonical only (zero padding bits in last byte)."""
    bits = bin(int.from_bytes(b'\x01' + b, 'big'))[3:]
    p, L = 0, len(bits)
    vals = []
    for _ in range(n):
        if p + 8 > L:
            return None
        s = bits[p] == '1'
        m = int(bits[p + 1:p + 8], 2)
        p += 8
        j = bits.find('1', p)
        if j < 0:
            return None
        k = j - p
        p = j + 1
        m += k << 7
        if m > 2047:
            return None
        if s and m == 0:
            return None
        vals.append(-m if s else m)
    used = (p + 7) // 8
    if '1' in bits[p:used * 8]:
        return None
    return vals, used


def sk_decode(sk, n=512, fgbits=6, FGbits=8):
    """f, g, F of a Falcon-512 secret key."""
    assert len(sk) == 1281 and sk[0] == 0x59
    l = n * fgbits // 8
    out = []
    off = 1
    for w, ln in ((fgbits, l), (fgbits, l), (FGbits, n * FGbits // 8)):
        v, _ = fixed_decode(sk[off:off + ln], n, w)
        out.append([x - (1 << w) if x >> (w - 1) else x for x in v])
        off += ln
    return out


def pk14_decode(pk):
    assert pk[0] == 9 and len(pk) == 897
    v, pad = fixed_decode(pk[1:], 512, 14)
    return v


def pk16_decode(pk):
    assert pk[0] == 9 and len(pk) == 1025
    return [int(x) for x in np.frombuffer(pk[1:], dtype='>u2')]


def pk14_encode(h):
    return b'\x09' + fixed_encode([int(x) for x in h], 14)


def pk16_encode(h):
    return b'\x09' + np.asarray(h, dtype='>u2').tobytes()


def split_bundle(sm):
    """(siglen, salt, msg, sig) of a signed message."""
    sl = int.from_bytes(sm[:2], 'big')
    return sl, sm[2:42], sm[42:len(sm) - sl], sm[len(sm) - sl:]


def bundle(salt, msg, sig):
    return len(sig).to_bytes(2, 'big') + salt + msg + sig
