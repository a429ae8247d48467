"""G03: the other precompiled contracts of the geth fork keep Ethereum's rules."""
import hashlib
import struct
from hypothesis import strategies as st
from ..core import Facet, Violation, check
from ..gen import Rng, seeds, ubytes
from ..gobind import build_precompile, Driver
from .g02 import ask, go, w
from .. import model as M

ASSUMPTIONS = ['the curve arithmetic of bn256, BLS12-381 and KZG is not part of this repository: stand-ins with computable sums and congruences replace it, '
               'so that decoding, checks, order of arguments and encoding of the results are compared exactly',
               'BLAKE2b, RIPEMD-160 and secp256k1, which the file imports, are reimplemented for the run']
FORKS = ['Homestead', 'Byzantium', 'Istanbul', 'Berlin', 'Cancun', 'Prague', 'Verkle']


def build(b):
    return {'go': build_precompile(b)}


# --- reference
P1 = 0xfffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f
N1 = 0xfffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141
G1 = (0x79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798, 0x483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8)
PB = 21888242871839275222246405745257275088696311157297823662689037894645226208583
PL = 0x1a0111ea397fe69a4b1ba7b6434bacd764774b84f38512bf6730d2a0f6b0f6241eabfffeb153ffffb9feffffffffaaab
RL = 0x73eda753299d7d483339d80809a1d80553bda402fffe5bfeffffffff00000001
ERR = 'error'


def padd(a, b):
    if a is None:
        return b
    if b is None:
        return a
    if a[0] == b[0]:
        if (a[1] + b[1]) % P1 == 0:
            return None
        l = 3 * a[0] * a[0] * pow(2 * a[1], -1, P1)
    else:
        l = (b[1] - a[1]) * pow(b[0] - a[0], -1, P1)
    x = (l * l - a[0] - b[0]) % P1
    return x, (l * (a[0] - x) - a[1]) % P1


def pmul(k, a):
    r = None
    for c in bin(k)[2:]:
        r = padd(r, r)
        if c == '1':
            r = padd(r, a)
    return r


def ecrecover(d):
    d = d[:128] + bytes(max(0, 128 - len(d)))
    z, v, r, s = (int.from_bytes(d[i:i + 32], 'big') for i in (0, 32, 64, 96))
    if v not in (27, 28) or not 0 < r < N1 or not 0 < s < N1:
        return b''
    y2 = (pow(r, 3, P1) + 7) % P1
    y = pow(y2, (P1 + 1) // 4, P1)
    if y * y % P1 != y2:
        return b''
    if y % 2 != v - 27:
        y = P1 - y
    ri = pow(r, -1, N1)
    q = padd(pmul(-z * ri % N1, G1), pmul(s * ri % N1, (r, y)))
    if q is None:
        return b''
    return bytes(12) + M.keccak256(q[0].to_bytes(32, 'big') + q[1].to_bytes(32, 'big'))[12:]


def rip(d):
    """RIPEMD-160 (ISO/IEC 10118-3)"""
    r1 = [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15]
    rho = [7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8]
    pi = [(9 * i + 5) % 16 for i in range(16)]
    left, right, l, r = [], [], r1, pi
    for _ in range(5):
        left.append(l)
        right.append(r)
        l, r = [rho[i] for i in l], [rho[i] for i in r]
    sh = [[11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8], [12, 13, 11, 15, 6, 9, 9, 7, 12, 15, 11, 13, 7, 8, 7, 7], [13, 15, 14, 11, 7, 7, 6, 8, 13, 14, 13, 12, 5, 5, 6, 9],
          [14, 11, 12, 14, 8, 6, 5, 5, 15, 12, 15, 14, 9, 9, 8, 6], [15, 12, 13, 13, 9, 5, 8, 6, 14, 11, 12, 11, 8, 6, 5, 5]]
    kl, kr = [0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e], [0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0]
    fs = [lambda x, y, z: x ^ y ^ z, lambda x, y, z: (x & y) | (~x & z), lambda x, y, z: (x | ~y) ^ z, lambda x, y, z: (x & z) | (y & ~z), lambda x, y, z: x ^ (y | ~z)]
    m = d + b'\x80' + bytes((55 - len(d)) % 64) + struct.pack('<Q', 8 * len(d))
    h = [0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0]

    def rol(x, n):
        x &= 0xffffffff
        return ((x << n) | (x >> (32 - n))) & 0xffffffff
    for o in range(0, len(m), 64):
        x = struct.unpack('<16I', m[o:o + 64])
        v = []
        for idx, ks, f in ((left, kl, fs), (right, kr, fs[::-1])):
            a, b, c, e, g = h
            for j in range(5):
                for i in range(16):
                    t = (rol(a + f[j](b, c, e) + x[idx[j][i]] + ks[j], sh[j][idx[j][i]]) + g) & 0xffffffff
                    a, g, e, c, b = g, e, rol(c, 10), b, t
            v.append((a, b, c, e, g))
        (a, b, c, e, g), (A, B, C, E, G) = v
        h = [(h[1] + c + E) & 0xffffffff, (h[2] + e + G) & 0xffffffff, (h[3] + g + A) & 0xffffffff, (h[4] + a + B) & 0xffffffff, (h[0] + b + C) & 0xffffffff]
    return struct.pack('<5I', *h)


def at(d, o, n):
    return d[o:o + n] + bytes(max(0, n - len(d[o:o + n])))


def modexp(d):
    bl, el, ml = (int.from_bytes(at(d, 32 * i, 32), 'big') for i in range(3))
    d = d[96:]
    if bl == 0 and ml == 0:
        return b''
    b, e, m = (int.from_bytes(at(d, o, n), 'big') for o, n in ((0, bl), (bl, el), (bl + el, ml)))
    return (pow(b, e, m) if m else 0).to_bytes(ml, 'big')


def modexp_gas(d, new):
    bl, el, ml = (int.from_bytes(at(d, 32 * i, 32), 'big') for i in range(3))
    d = d[96:]
    head = int.from_bytes(at(d, bl, min(el, 32)), 'big') if bl < len(d) else 0
    it = max(0, 8 * (el - 32)) + max(0, head.bit_length() - 1)
    x = max(bl, ml)
    if new:
        g = max(200, (-(-x // 8)) ** 2 * max(1, it) // 3)
    else:
        g = (x * x if x <= 64 else x * x // 4 + 96 * x - 3072 if x <= 1024 else x * x // 16 + 480 * x - 199680) * max(1, it) // 20
    return min(g, 2 ** 64 - 1)


IV = [0x6a09e667f3bcc908, 0xbb67ae8584caa73b, 0x3c6ef372fe94f82b, 0xa54ff53a5f1d36f1, 0x510e527fade682d1, 0x9b05688c2b3e6c1f, 0x1f83d9abfb41bd6b, 0x5be0cd19137e2179]
SIGMA = [[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15], [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3], [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
         [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8], [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13], [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
         [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11], [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10], [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
         [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0]]
MASK = 2 ** 64 - 1


def blake2f(d):
    if len(d) != 213 or d[212] > 1:
        return ERR
    rounds = int.from_bytes(d[:4], 'big')
    h, m, t = struct.unpack('<8Q', d[4:68]), struct.unpack('<16Q', d[68:196]), struct.unpack('<2Q', d[196:212])
    v = list(h) + IV[:]
    v[12] ^= t[0]
    v[13] ^= t[1]
    if d[212]:
        v[14] ^= MASK

    def g(a, b, c, e, x, y):
        for s, z, r1, r2 in ((0, x, 32, 24), (1, y, 16, 63)):
            v[a] = (v[a] + v[b] + z) & MASK
            v[e] ^= v[a]
            v[e] = ((v[e] >> r1) | (v[e] << (64 - r1))) & MASK
            v[c] = (v[c] + v[e]) & MASK
            v[b] ^= v[c]
            v[b] = ((v[b] >> r2) | (v[b] << (64 - r2))) & MASK
    for i in range(rounds):
        s = SIGMA[i % 10]
        for j in range(4):
            g(j, 4 + j, 8 + j, 12 + j, m[s[2 * j]], m[s[2 * j + 1]])
        for j in range(4):
            g(j, 4 + (j + 1) % 4, 8 + (j + 2) % 4, 12 + (j + 3) % 4, m[s[8 + 2 * j]], m[s[9 + 2 * j]])
    return struct.pack('<8Q', *[h[i] ^ v[i] ^ v[i + 8] for i in range(8)])


# stand-ins of the curves
def wsum(c, a, b):
    return sum(v * (a * i + b) for i, v in enumerate(c))


def bn_point(b, n):
    c = [int.from_bytes(b[32 * i:32 * i + 32], 'big') for i in range(n)]
    return None if max(c) >= PB or wsum(c, 2, 1) & 2 else c


def bn_add(d):
    p = [bn_point(at(d, 64 * i, 64), 2) for i in range(2)]
    return ERR if None in p else b''.join(w((p[0][i] + p[1][i]) % PB) for i in range(2))


def bn_mul(d):
    p = bn_point(at(d, 0, 64), 2)
    return ERR if p is None else b''.join(w(x * int.from_bytes(at(d, 64, 32), 'big') % PB) for x in p)


def bn_pair(d):
    if len(d) % 192:
        return ERR
    s = 0
    for i in range(0, len(d), 192):
        a, b = bn_point(d[i:i + 64], 2), bn_point(d[i + 64:i + 192], 4)
        if a is None or b is None:
            return ERR
        s += (a[0] + 2 * a[1]) * wsum(b, 1, 1)
    return w(s % 3 == 0)


def bl_fe(b):
    v = int.from_bytes(b, 'big')
    return None if any(b[:16]) or v >= PL else v


def bl_point(b, sub):
    c = [bl_fe(b[i:i + 64]) for i in range(0, len(b), 64)]
    if None in c or wsum(c, 2, 1) & 2 or sub and wsum(c, 3, 1) % 3:
        return None
    return c


def bl_out(c):
    return b''.join((v % PL).to_bytes(64, 'big') for v in c)


def bl_add(n):
    def f(d):
        if len(d) != 2 * n:
            return ERR
        a, b = bl_point(d[:n], 0), bl_point(d[n:], 0)
        return ERR if a is None or b is None else bl_out([x + y for x, y in zip(a, b)])
    return f


def bl_msm(n):
    def f(d):
        if not d or len(d) % (n + 32):
            return ERR
        r = [0] * (n // 64)
        for i in range(0, len(d), n + 32):
            a = bl_point(d[i:i + n], 1)
            if a is None:
                return ERR
            k = int.from_bytes(d[i + n:i + n + 32], 'big') % RL
            r = [(x + k * y) % PL for x, y in zip(r, a)]
        return bl_out(r)
    return f


def bl_pair(d):
    if not d or len(d) % 384:
        return ERR
    s = 0
    for i in range(0, len(d), 384):
        a, b = bl_point(d[i:i + 128], 1), bl_point(d[i + 128:i + 384], 1)
        if a is None or b is None:
            return ERR
        s += wsum(a, 1, 1) * wsum(b, 2, 1)
    return w(s % 3 == 0)


def bl_map1(d):
    u = bl_fe(d) if len(d) == 64 else None
    return ERR if u is None else bl_out([3 * u + 1, 5 * u + 7])


def bl_map2(d):
    if len(d) != 128:
        return ERR
    a, b = bl_fe(d[:64]), bl_fe(d[64:])
    return ERR if a is None or b is None else bl_out([3 * a + 1, 5 * b + 7, 9 * b + 2, 11 * a + 4])


def kzg(d):
    if len(d) != 192 or d[:32] != b'\x01' + hashlib.sha256(d[96:144]).digest()[1:]:
        return ERR
    s = sum(d[96:144]) + 3 * sum(d[32:64]) + 5 * sum(d[64:96]) + 7 * sum(d[144:])
    return ERR if s % 4 > 1 else w(4096) + w(RL)


D1 = [1000, 949, 848, 797, 764, 750, 738, 728, 719, 712, 705, 698, 692, 687, 682, 677, 673, 669, 665, 661, 658, 654, 651, 648, 645, 642, 640, 637, 635, 632, 630, 627, 625, 623,
      621, 619, 617, 615, 613, 611, 609, 608, 606, 604, 603, 601, 599, 598, 596, 595, 593, 592, 591, 589, 588, 586, 585, 584, 582, 581, 580, 579, 577, 576, 575, 574, 573, 572,
      570, 569, 568, 567, 566, 565, 564, 563, 562, 561, 560, 559, 558, 557, 556, 555, 554, 553, 552, 551, 550, 549, 548, 547, 547, 546, 545, 544, 543, 542, 541, 540, 540, 539,
      538, 537, 536, 536, 535, 534, 533, 532, 532, 531, 530, 529, 528, 528, 527, 526, 525, 525, 524, 523, 522, 522, 521, 520, 520, 519]
D2 = [1000, 1000, 923, 884, 855, 832, 812, 796, 782, 770, 759, 749, 740, 732, 724, 717, 711, 704, 699, 693, 688, 683, 679, 674, 670, 666, 663, 659, 655, 652, 649, 646, 643,
      640, 637, 634, 632, 629, 627, 624, 622, 620, 618, 615, 613, 611, 609, 607, 606, 604, 602, 600, 598, 597, 595, 593, 592, 590, 589, 587, 586, 584, 583, 582, 580, 579, 578,
      576, 575, 574, 573, 571, 570, 569, 568, 567, 566, 565, 563, 562, 561, 560, 559, 558, 557, 556, 555, 554, 553, 552, 552, 551, 550, 549, 548, 547, 546, 545, 545, 544, 543,
      542, 541, 541, 540, 539, 538, 537, 537, 536, 535, 535, 534, 533, 532, 532, 531, 530, 530, 529, 528, 528, 527, 526, 526, 525, 524, 524]


def words(d):
    return (len(d) + 31) // 32


def discount(t, last, k):
    return t[k - 1] if k <= len(t) else last if k >= 128 else None


def msm_gas(mul, n, t, last):
    def f(d, fork):
        k = len(d) // n
        x = discount(t, last, k) if k else 0
        return None if x is None else k * mul * x // 1000
    return f


# address: (first fork, result, price)
TABLE = {
    1: (0, ecrecover, lambda d, f: 3000),
    2: (0, lambda d: hashlib.sha256(d).digest(), lambda d, f: 60 + 12 * words(d)),
    3: (0, lambda d: bytes(12) + rip(d), lambda d, f: 600 + 120 * words(d)),
    4: (0, lambda d: d, lambda d, f: 15 + 3 * words(d)),
    5: (1, modexp, lambda d, f: modexp_gas(d, f >= 3)),
    6: (1, bn_add, lambda d, f: 150 if f >= 2 else 500),
    7: (1, bn_mul, lambda d, f: 6000 if f >= 2 else 40000),
    8: (1, bn_pair, lambda d, f: 45000 + 34000 * (len(d) // 192) if f >= 2 else 100000 + 80000 * (len(d) // 192)),
    9: (2, blake2f, lambda d, f: int.from_bytes(d[:4], 'big') if len(d) == 213 else 0),
    10: (4, kzg, lambda d, f: 50000),
    11: (5, bl_add(128), lambda d, f: 375),
    12: (5, bl_msm(128), msm_gas(12000, 160, D1, 519)),
    13: (5, bl_add(256), lambda d, f: 600),
    14: (5, bl_msm(256), msm_gas(22500, 288, D2, 524)),
    15: (5, bl_pair, lambda d, f: 37700 + 32600 * (len(d) // 384)),
    16: (5, bl_map1, lambda d, f: 5500),
    17: (5, bl_map2, lambda d, f: 23800),
}
LIMIT = 3000000


def judge(ctx, a, d, fork, x=0):
    first, fn, price = TABLE[a]
    what = 'contract %d under %s, %d bytes' % (a, FORKS[fork], len(d))
    want_gas = price(d, fork)
    if fork < first:
        s, _, _ = ask(ctx, d, fork=fork, addr=a, what=what)
        check(s == 4, what + ': exists before its fork')
        return 'absent'
    s, r, g = ask(ctx, d, gas=0, fork=fork, addr=a, what=what)
    if want_gas is not None:
        check(g == want_gas if s == 5 else want_gas == 0, lambda: '%s: price %d, not %d' % (what, g, want_gas))
    if s != 5:
        g = 0
    if g > 40 * LIMIT or g > LIMIT and a in (5, 9):
        s2, _, _ = ask(ctx, d, gas=LIMIT, fork=fork, addr=a, what=what)
        check(s2 == 5, what + ': runs without enough gas')
        return 'too dear'
    if g:
        s2, _, _ = ask(ctx, d, gas=g - 1 - (x % g if x % 3 == 0 else 0), fork=fork, addr=a, what=what)
        check(s2 == 5, what + ': runs without enough gas')
    s, r, g2 = ask(ctx, d, gas=g + (0 if x % 2 else x), fork=fork, addr=a, what=what)
    want = fn(d)
    if want == ERR:
        check(s == 1, lambda: '%s: no error, returns %s' % (what, r.hex()[:100]))
        return 'error'
    check(s == 0, lambda: '%s: error %s, expected %s' % (what, r.decode(errors='replace'), want.hex()[:100]))
    check(r == want, lambda: '%s: returns %s, not %s' % (what, r.hex()[:140], want.hex()[:140]))
    return 'empty' if not want else 'value'


# --- generators
def curve_coords(rng, p, n, kind):
    """n coordinates; kind 'ok' on curve and in the subgroup, else flawed"""
    if kind == 'zero':
        return [0] * n
    while True:
        c = [rng.choice([rng.below(p), rng.below(p), rng.below(1000), p - 1 - rng.below(5)]) for _ in range(n)]
        on, sub = not wsum(c, 2, 1) & 2, wsum(c, 3, 1) % 3 == 0
        if kind == 'off' and not on or kind == 'sub' and on and not sub or kind in ('ok', 'big', 'top') and on and sub:
            break
    if kind == 'big':
        i = rng.below(n)
        c[i] = p + rng.choice([0, 0, rng.below(1000)])
    return c


def scalar(rng):
    return rng.choice([rng.below(2 ** 256), rng.below(1000), 0, 1, RL, RL - 1, RL + 1, 2 ** 256 - 1])


def bl_enc(rng, c, kind):
    b = bytearray(b''.join(v.to_bytes(64, 'big') for v in c))
    if kind == 'top':
        b[64 * rng.below(len(c)) + rng.choice([0, 15, 15, rng.below(16)])] = rng.choice([1, 128, 1 + rng.below(255)])
    return bytes(b)


def make(a, rng, flaws, k):
    """call data; flaws: kinds for the points in turn"""
    nxt = [0]

    def kind():
        nxt[0] += 1
        return flaws[(nxt[0] - 1) % len(flaws)] if flaws else 'ok'

    def bn(n):
        return b''.join(map(w, curve_coords(rng, PB, n, kind())))

    def bl(n):
        q = kind()
        return bl_enc(rng, curve_coords(rng, PL, n, q), q)
    if a == 1:
        z, r, s = rng.below(2 ** 256), rng.below(N1), rng.below(N1)
        v = 27 + rng.below(2)
        f = flaws[0] if flaws else 'ok'
        if f == 'big':
            r, s = rng.choice([(N1, s), (r, N1), (N1 + 5, s), (P1 - 1, s), (2 ** 256 - 1, s)])
        elif f == 'zero':
            r, s = rng.choice([(0, s), (r, 0)])
        elif f == 'top':
            v += rng.choice([256, 2 ** 255, 2 ** 248, 2 ** 16, (1 + rng.below(255)) << (8 * (1 + rng.below(31)))])
        elif f == 'off':
            v = rng.choice([0, 1, 2, 26, 29, 30, 255])
        else:
            kk = 1 + rng.below(N1 - 1)
            r = pmul(kk, G1)[0] % N1
            if f == 'sub':
                z = rng.choice([0, 0, 1, 2 ** 256 - 1, N1, N1 + 1])
            e = rng.below(6)
            if e == 0:
                s = rng.choice([1 + rng.below(255), N1 - 1 - rng.below(3), N1 // 2 + rng.below(3) - 1])
            elif e == 1:
                r = 1 + rng.below(255)
            elif e == 2:
                z >>= 8 * rng.below(32)
        return w(z) + w(v) + w(r) + w(s)
    if a in (2, 3, 4):
        return rng.bytes(rng.choice([k, k * 7, rng.below(300), 31 + rng.below(3), 55 + rng.below(10), 119 + rng.below(10)]))
    if a == 5:
        f = flaws[0] if flaws else 'ok'
        ls = [rng.choice([0, 1, 2, 8, 31, 32, 33, 64, 65, rng.below(100), rng.below(400)]) for _ in range(3)]
        if rng.below(8) == 0:
            ls[rng.below(3)] = rng.choice([1023, 1024, 1025, 1500])
        if f == 'big':
            ls[rng.below(3)] = rng.choice([2 ** 32, 2 ** 63, 2 ** 64 - 1, 2 ** 64, 2 ** 64 + 3, 2 ** 255, 2 ** 256 - 1, 100000])
        body = b''.join([rng.bytes(l) if rng.below(4) else [bytes(l), b'\xff' * l, bytes(max(0, l - 1)) + bytes([rng.below(4)] * min(l, 1))][rng.below(3)] for l in ls if l < 5000])
        if f in ('off', 'top'):
            body = body[:rng.below(len(body) + 1)]
        if f == 'zero':
            ls[0] = ls[2] = 0
            body = rng.bytes(rng.below(100))
        return b''.join(map(w, ls)) + body
    if a == 6:
        return bn(2) + bn(2)
    if a == 7:
        return bn(2) + w(scalar(rng))
    if a == 8:
        return b''.join(bn(2) + bn(4) for _ in range(k % 5))
    if a == 9:
        f = flaws[0] if flaws else 'ok'
        r = rng.choice([0, 1, 9, 10, 11, 12, 13, rng.below(100)]) if f != 'big' else rng.choice([2 ** 24, 2 ** 31, 2 ** 32 - 1])
        return struct.pack('>I', r) + rng.bytes(208) + bytes([rng.below(2) if f != 'top' else rng.choice([2, 128, 129, 255, 2 + rng.below(254)])])
    if a == 10:
        c = rng.bytes(48)
        f = flaws[0] if flaws else 'ok'
        h = b'\x01' + hashlib.sha256(c).digest()[1:]
        if f == 'off':
            i = rng.below(32)
            h = h[:i] + bytes([h[i] ^ (1 + rng.below(255))]) + h[i + 1:]
        elif f == 'top':
            h = hashlib.sha256(c).digest()
        return h + rng.bytes(64) + c + rng.bytes(48)
    if a == 11:
        return bl(2) + bl(2)
    if a == 12:
        return b''.join(bl(2) + w(scalar(rng)) for _ in range(k % 6))
    if a == 13:
        return bl(4) + bl(4)
    if a == 14:
        return b''.join(bl(4) + w(scalar(rng)) for _ in range(k % 6))
    if a == 15:
        return b''.join(bl(2) + bl(4) for _ in range(k % 5))
    q = kind()
    c = [rng.choice([rng.below(PL), rng.below(1000), PL - 1]) for _ in range(a - 15)]
    if q == 'big':
        c[rng.below(len(c))] = PL + rng.below(2)
    return bl_enc(rng, c, q)


def run_contract(ctx, case):
    rng = Rng('g03', case['seed'])
    a = case['a']
    d = make(a, rng, case['flaws'], case['n'])
    c = case['cut']
    if c:
        d = d[:max(0, len(d) - c)] if c > 0 else d + rng.bytes(-c)
    r = judge(ctx, a, d, case['fork'], case['seed'])
    return ['!contract %d: %s' % (a, r)] if r not in ('absent',) else ['absent']


def run_modexp(ctx, case):
    """operands of chosen values, and lengths which put the price next to a bound"""
    rng = Rng('g03m', case['seed'])
    k, fork = case['k'], case['fork']
    if k == 'wide':         # long operands, and long input of the hashes and the identity
        L = [64, 65, 127, 128, 256, 512, 1023, 1024, 1025, 1040, 2048, 4095, 4096, 4097, 8192, 10000, 16384]
        if rng.below(3) == 0:
            n = rng.choice([4095, 4096, 65535, 65536, 65537, 131072, 200000])
            d = rng.bytes(64) + bytes([case['seed'] % 256]) * (n - 64)
            return ['!hash', judge(ctx, 2 + rng.below(3), d, fork, case['seed'])]
        bl, el, ml = rng.choice([0, 1] + L), rng.choice([0, 1, 1, 2]), rng.choice([1] + L + L)
        if rng.below(4) == 0:
            bl, el, ml = rng.choice([1, 2, 40]), rng.choice(L), rng.choice([1, 8])
        m = rng.bytes(ml) if rng.below(3) else (rng.below(300)).to_bytes(ml, 'big') if ml > 1 else b'\7'
        e = (rng.below(8) % 256 ** el).to_bytes(el, 'big') if rng.below(4) or el > 40 else rng.bytes(el)[:1].rjust(el, b'\0')
        return ['!wide', judge(ctx, 5, w(bl) + w(el) + w(ml) + rng.bytes(bl) + e + m, fork, case['seed'])]
    if k == 'value':
        ml = rng.choice([1, 1, 2, 4, 8, 20, 32, 33])
        m = rng.choice([0, 1, 1, 2, 3, rng.below(256), rng.below(256 ** ml)]) % 256 ** ml
        bl, el = rng.choice([0, 1, 2, ml, ml + 3, 32, 40]), rng.choice([0, 1, 1, 2, 31, 32, 33, 40])
        b = rng.choice([0, 1, 1, 2, m, m + 1, max(m - 1, 0), 2 ** 256 + 1, rng.below(256 ** max(bl, 1))]) % 256 ** bl
        e = rng.choice([0, 1, 2, 3, 255, rng.below(256 ** min(el, 2)), rng.below(256 ** el) if el < 33 else 1 << rng.below(8 * el)]) % 256 ** el
        d = w(bl) + w(el) + w(ml) + b.to_bytes(bl, 'big') + e.to_bytes(el, 'big') + m.to_bytes(ml, 'big')
        return ['!value', judge(ctx, 5, d, fork, case['seed'])]
    if k == 'floor':        # around the least price, and small prices
        x = rng.choice([8, 8, 16, 24, 32, 40, 1, 7, 9, 17, 56])
        t = rng.choice([200, 200, 0, 1, rng.below(1000)])
        c = (x + 7) // 8 * ((x + 7) // 8)
        it = max(0, (3 * t if fork >= 3 else 20 * t) // (c if fork >= 3 else x * x) + rng.below(9) - 4)
    else:                   # around 2^64
        x = rng.choice([1, 8, 64, 65, 1000, 1024, 1025, 2 ** 13, 2 ** 16 - 1, 2 ** 20, 2 ** 25, 2 ** 31, 2 ** 32, 2 ** 33, 2 ** 34 - 3, 2 ** 35, 2 ** 36])
        c = ((x + 7) // 8) ** 2 * 20 if fork >= 3 else 3 * (x * x if x <= 64 else x * x // 4 + 96 * x - 3072 if x <= 1024 else x * x // 16 + 480 * x - 199680)
        t = 60 * rng.choice([2 ** 64, 2 ** 64, 2 ** 65, 2 ** 63, 2 ** 66])
        it = t // c + rng.choice([0, 0, 8, -8, 1, -1, rng.below(100), rng.below(10 ** 6)])
        it = max(0, it)
    el = 32 + max(0, it - 255) // 8 + (it > 255)
    hb = it - 8 * (el - 32) + 1
    if not 0 <= hb <= 256:
        hb = 0
    head = (1 << hb) >> 1
    if hb > 1 and rng.below(2):
        head |= rng.below(head)
    bl, ml = (rng.choice([0, 1, x]), x) if rng.below(2) else (x, rng.choice([0, 1, x]))
    d = w(bl) + w(el) + w(ml)
    if bl < 5000:
        d += rng.bytes(bl) + head.to_bytes(32, 'big') + (rng.bytes(el - 32 + ml) if el + ml < 5000 else b'')
    want = modexp_gas(d, fork >= 3)
    s, _, g = ask(ctx, d, gas=0, fork=fork, addr=5, what='contract 5')
    check(g == want if s == 5 else want == 0, lambda: 'contract 5 under %s, lengths %d, %d and %d: price %d, not %d' % (FORKS[fork], bl, el, ml, g, want))
    return ['!' + k, '2^%d' % (want.bit_length() // 16 * 16)]


def run_long(ctx, case):
    """prices of long inputs, which grow with the number of items"""
    a = case['a']
    n = {8: 192, 12: 160, 14: 288, 15: 384}[a]
    d = bytes(max(0, n * case['k'] + case['d']))
    fork = 5 + case['seed'] % 2
    want = TABLE[a][2](d, fork)
    s, _, g = ask(ctx, d, gas=0, fork=fork, addr=a, what='contract %d' % a)
    if want is not None:
        check(g == want or want == 0 and s != 5, 'contract %d: price of %d bytes is %d, not %d' % (a, len(d), g, want))
    d2 = d + bytes(n)
    s2, _, g2 = ask(ctx, d2, gas=0, fork=fork, addr=a, what='contract %d' % a)
    check(g2 > (g if s == 5 else 0), 'contract %d: one more item costs nothing' % a)
    r = judge(ctx, a, d, fork, case['seed'])
    return ['!many' if case['k'] > 10 else '!few', r]


NAMES = {i: '%040x' % i for i in range(32)}


def run_table(ctx, case):
    f = case['fork']
    _, m, l = go(ctx)(b'A', bytes([f]))
    have = sorted(x.split(':')[0] for x in m.decode().split())
    want = sorted([NAMES[a] for a in TABLE if TABLE[a][0] <= f] + ([NAMES[0x13]] if f >= 5 else []))
    check(have == want, '%s: contracts at %s, not at %s' % (FORKS[f], [x[-2:] for x in have], [x[-2:] for x in want]))
    check(sorted(l.decode().split()) == want, '%s: the list of addresses does not match the contracts' % FORKS[f])
    return ['!table']


FLAW = st.sampled_from(['ok', 'ok', 'zero', 'off', 'sub', 'big', 'top'])
FACETS = [
    Facet('contract', st.fixed_dictionaries({'a': st.integers(1, 17), 'fork': st.sampled_from([0, 1, 2, 3, 4, 5, 5, 5, 6]), 'seed': seeds(),
                                             'flaws': st.one_of(st.just([]), st.just(['ok', 'zero']), st.lists(FLAW, min_size=1, max_size=5),
                                                                 st.tuples(st.integers(1, 4), FLAW).map(lambda t: ['ok'] * t[0] + [t[1]])), 'n': st.integers(0, 40),
                                             'cut': st.one_of(st.just(0), st.just(0), st.integers(-70, 300))}), run_contract, 6000, 200000,
          rule='the contract exists under the rules of the fork',
          corners=[{'a': a, 'fork': f, 'seed': 7 * a + f + 1000 * j, 'flaws': fl, 'n': 3, 'cut': 0} for a in range(1, 18) for f in range(7) for j, fl in
                   enumerate([[], ['zero'], ['off'], ['big'], ['top'], ['sub']])] +
                  [{'a': a, 'fork': 5, 'seed': a + 50 * j + 7 * p, 'flaws': ['ok'] * p + [fl], 'n': 3, 'cut': 0} for a in (6, 7, 8, 11, 12, 13, 14, 15, 16, 17) for p in (1, 2, 3) for j, fl in
                   enumerate(['zero', 'off', 'big', 'top', 'sub'])] +
                  [{'a': a, 'fork': 5, 'seed': a, 'flaws': [], 'n': 2, 'cut': c} for a in range(1, 18) for c in (1, 32, 64, 128, 1000, -1, -32, -64)]),
    Facet('long', st.fixed_dictionaries({'a': st.sampled_from([8, 12, 14, 15]), 'k': st.one_of(st.integers(0, 12), st.integers(0, 140), st.integers(120, 140)), 'd': st.sampled_from([0, 0, 1, -1]), 'seed': seeds()}),
          run_long, 200, 5000, rule='every call', corners=[{'a': a, 'k': k, 'd': d, 'seed': 1} for a in (8, 12, 14, 15) for k in (0, 1, 2, 10, 63, 126, 127, 128, 129) for d in (0, -1, 1)]),
    Facet('modexp', st.fixed_dictionaries({'k': st.sampled_from(['value', 'value', 'value', 'value', 'floor', 'floor', 'top', 'top', 'wide']), 'fork': st.sampled_from([1, 2, 3, 5]), 'seed': seeds()}),
          run_modexp, 3000, 100000, rule='every call', corners=[{'k': k, 'fork': f, 'seed': i} for k in ('value', 'floor', 'top', 'wide') for f in (1, 3, 5) for i in range(40)]),
    Facet('table', st.fixed_dictionaries({'fork': st.integers(0, 6)}), run_table, 7, 20, rule='every fork', corners=[{'fork': f} for f in range(7)], max_shards=1),
]
