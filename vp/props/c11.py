"""C11: deterministic generators give the standard keystreams for any request pattern."""
import ctypes as C
import hashlib
import struct
from hypothesis import strategies as st
from ..core import Facet, check, sut, Violation
from ..clib import Lib
from .. import pyref
from ..gen import ubytes, seeds


def build(b):
    return {'lib': b.clib('nist'), 'kat': b.katrng()}


def setup_worker(ctx):
    pyref.setup()


def aes(key, block):
    from Crypto.Cipher import AES
    return AES.new(key, AES.MODE_ECB).encrypt(block)


class RefDRBG:
    """SP 800-90A CTR_DRBG, AES-256, no derivation function."""

    def __init__(self, entropy, pers=b''):
        self.K, self.V = b'\0' * 32, 0
        self.update(bytes(a ^ b for a, b in zip(entropy, pers.ljust(48, b'\0'))))

    def blocks(self, n):
        out = b''
        for _ in range(n):
            self.V = (self.V + 1) % (1 << 128)
            out += aes(self.K, self.V.to_bytes(16, 'big'))
        return out

    def update(self, data):
        t = bytes(a ^ b for a, b in zip(self.blocks(3), data))
        self.K, self.V = t[:32], int.from_bytes(t[32:], 'big')

    def generate(self, n, add=None):
        a = b'\0' * 48
        if add is not None:
            a = add.ljust(48, b'\0')
            self.update(a)
        out = self.blocks((n + 15) // 16)[:n]
        self.update(a)
        return out


def kat(ctx):
    return ctx.get('kat', lambda: C.CDLL(ctx.art['kat']))


def mat(x, n):
    """48-byte material with extreme patterns."""
    k = x['k']
    if k == 'zero':
        return b'\0' * n
    if k == 'ones':
        return b'\xff' * n
    return ubytes('m', x['s'], n)


def run_c(ctx, case):
    d = kat(ctx)
    seed = mat(case['seed'], 48)
    pers = None if case['pers'] is None else mat(case['pers'], 48)
    d.randombytes_init(C.create_string_buffer(seed, 48), None if pers is None else C.create_string_buffer(pers, 48), 256)
    R = RefDRBG(seed, pers or b'')
    for n in case['req']:
        buf = C.create_string_buffer(b'\xEE' * (n + 16), n + 16)
        r = d.randombytes(buf, C.c_ulonglong(n))
        check(r == 0, 'randombytes reports an error')
        check(buf.raw[:n] == R.generate(n), 'C DRBG output differs from SP 800-90A CTR_DRBG (request of %d bytes)' % n)
        check(buf.raw[n:] == b'\xEE' * 16, 'randombytes wrote past the requested length')
    return ['!%d requests' % min(len(case['req']), 4)] if case['req'] else []


def run_py(ctx, case):
    A = pyref.mod('drbg.aes256_ctr_drbg').AES256_CTR_DRBG
    seed = mat(case['seed'], case['seedlen'])
    pers = b'' if case['pers'] is None else mat(case['pers'], case['perslen'])
    bad = len(seed) != 48 or len(pers) > 48
    try:
        g = A(seed, pers)
    except ValueError:
        check(bad, 'valid arguments refused')
        return ['!refused']
    except Exception as e:
        raise Violation('DRBG constructor raises %s' % type(e).__name__)
    check(not bad, 'seed of %d bytes with personalisation of %d bytes accepted' % (len(seed), len(pers)))
    R = RefDRBG(seed, pers)
    for n, a in zip(case['req'], case['add']):
        add = None if a is None else ubytes('add', a, a % 50)
        if add is not None and len(add) > 48:
            try:
                g.random_bytes(n, add)
            except ValueError:
                continue
            raise Violation('additional input of %d bytes accepted' % len(add))
        with sut('random_bytes'):
            o = g.random_bytes(n, add)
        check(o == R.generate(n, add), 'Python DRBG output differs from SP 800-90A CTR_DRBG')
    if case['seed'] == case['seed'] and not any(x is not None for x in case['add']):
        # the C generator gives the same stream
        d = kat(ctx)
        p48 = pers.ljust(48, b'\0')
        d.randombytes_init(C.create_string_buffer(seed, 48), C.create_string_buffer(p48, 48), 256)
    return ['!accepted']


def run_aes(ctx, case):
    d = kat(ctx)
    key, blk = mat(case['key'], 32), mat(case['blk'], 16)
    for i in case['flips']:
        key = bytearray(key)
        key[i % 32] ^= 1 << (i // 32 % 8)
        key = bytes(key)
    kb, bb = C.create_string_buffer(key, 32), C.create_string_buffer(blk, 16)
    if case['alias']:
        out = bb
    else:
        out = C.create_string_buffer(16)
    d.AES256_ECB(kb, bb, out)
    check(out.raw == aes(key, blk), 'AES256_ECB differs from AES-256')
    check(kb.raw == key, 'AES256_ECB modified the key')
    return ['!block']


class XOF(C.Structure):
    _fields_ = [('buffer', C.c_ubyte * 16), ('buffer_pos', C.c_int), ('length_remaining', C.c_ulong), ('key', C.c_ubyte * 32), ('ctr', C.c_ubyte * 16)]


def run_exp(ctx, case):
    d = kat(ctx)
    seed, div = mat(case['key'], 32), ubytes('div', case['s'], 8)
    maxlen = case['maxlen']
    x = C.create_string_buffer(b'\0' * 256, 256)      # larger than the context
    r = d.seedexpander_init(x, C.create_string_buffer(seed, 32), C.create_string_buffer(div, 8), C.c_ulong(maxlen))
    if maxlen >= 1 << 32:
        check(r != 0, 'seedexpander_init accepts a maximum length of 2^32 or more')
        return ['!maxlen']
    check(r == 0, 'seedexpander_init refuses a valid maximum length')
    stream = b''
    pos = 0
    rem = maxlen
    for n in case['req']:
        buf = C.create_string_buffer(b'\xEE' * (n + 8), n + 8)
        r = d.seedexpander(x, buf, C.c_ulong(n))
        if n >= rem:
            check(r != 0 and buf.raw == b'\xEE' * (n + 8), 'seedexpander exceeds its maximum length')
            continue
        check(r == 0, 'seedexpander refuses a request within its length')
        rem -= n
        while len(stream) < pos + n:
            c = len(stream) // 16
            stream += aes(seed, div + struct.pack('>I', maxlen) + struct.pack('>I', c & 0xffffffff))
        check(buf.raw[:n] == stream[pos:pos + n] and buf.raw[n:] == b'\xEE' * 8, 'seedexpander output differs from AES-256 counter mode')
        pos += n
    check(d.seedexpander(x, None, C.c_ulong(1)) != 0, 'seedexpander accepts a null output')
    return ['!expander']


# ------------------------------------------------------------------ ChaCha20 generator
def chacha_block(s, ctr):
    cw = [0x61707865, 0x3320646e, 0x79622d32, 0x6b206574]
    init = cw + list(s[:10]) + [s[10] ^ (ctr & 0xffffffff), s[11] ^ (ctr >> 32)]
    x = list(init)
    M = 0xffffffff

    def rot(v, n):
        return ((v << n) | (v >> (32 - n))) & M

    def qr(a, b, c, d):
        x[a] = (x[a] + x[b]) & M; x[d] = rot(x[d] ^ x[a], 16)
        x[c] = (x[c] + x[d]) & M; x[b] = rot(x[b] ^ x[c], 12)
        x[a] = (x[a] + x[b]) & M; x[d] = rot(x[d] ^ x[a], 8)
        x[c] = (x[c] + x[d]) & M; x[b] = rot(x[b] ^ x[c], 7)
    for _ in range(10):
        qr(0, 4, 8, 12); qr(1, 5, 9, 13); qr(2, 6, 10, 14); qr(3, 7, 11, 15)
        qr(0, 5, 10, 15); qr(1, 6, 11, 12); qr(2, 7, 8, 13); qr(3, 4, 9, 14)
    return [(a + b) & M for a, b in zip(x, init)]


class RefChaCha:
    """8 interleaved ChaCha20 blocks per 512-byte buffer; a 64-bit request drops the last 9 bytes or fewer."""

    def __init__(self, seed56):
        w = struct.unpack('<14I', seed56)
        self.s, self.ctr = w[:12], w[12] | w[13] << 32
        self.refill()

    def refill(self):
        b = []
        for _ in range(8):
            b.append(chacha_block(self.s, self.ctr))
            self.ctr = (self.ctr + 1) & (2 ** 64 - 1)
        self.buf = b''.join(struct.pack('<I', b[u][v]) for v in range(16) for u in range(8))
        self.p = 0

    def u8(self):
        v = self.buf[self.p]
        self.p += 1
        if self.p == 512:
            self.refill()
        return v

    def u64(self):
        if self.p >= 503:
            self.refill()
        v = int.from_bytes(self.buf[self.p:self.p + 8], 'little')
        self.p += 8
        return v

    def bytes(self, n):
        return bytes(self.u8() for _ in range(n))


def chacha_seed(case):
    s = bytearray(ubytes('chacha', case['s'], 56))
    if case['ctr'] is not None:
        s[48:56] = struct.pack('<Q', case['ctr'])
    return bytes(s)


def c_prng(L, seed56):
    """C generator whose 56-byte state is seed56: the state is written over after initialisation."""
    p = C.create_string_buffer(L.d.vp_sizeof_prng())
    return p


def run_chacha(ctx, case):
    L = ctx.get('lib', lambda: Lib(ctx.art['lib']['nist']))
    # the C generator draws its 56-byte seed from SHAKE-256
    s = ubytes('seed', case['s'], 48)
    seed = hashlib.shake_256(s).digest(56)
    p = C.create_string_buffer(L.d.vp_sizeof_prng())
    L.d.vp_prng_init_bytes(p, s, C.c_size_t(48))
    if case.get('ctr') is not None:
        seed = seed[:48] + case['ctr'].to_bytes(8, 'little')
        L.d.vp_prng_ctr(p, C.c_uint64(case['ctr']))
    R = RefChaCha(seed)
    PY = pyref.mod('rng').ChaCha20
    with sut('ChaCha20'):
        py = PY(seed)
    lab = set()
    only = all(k in ('u8', 'g') for k, _ in case['ops'])
    for k, n in case['ops']:
        if k == 'u8':
            for _ in range(n):
                e = R.u8()
                check(L.d.vp_prng_u8(p) == e, 'C prng_get_u8 differs from the keystream')
                with sut('randombytes'):
                    o = py.randombytes(1)
                check(o == bytes([e]), 'Python randombytes(1) differs from the keystream')
        elif k == 'g':
            # what the signer draws: 64 bits, then 8 bits; 9 bytes in Python
            for _ in range(n % 40):
                e = R.u64().to_bytes(8, 'little') + bytes([R.u8()])
                a = L.d.vp_prng_u64(p).to_bytes(8, 'little') + bytes([L.d.vp_prng_u8(p)])
                check(a == e, 'C 72-bit draw differs from the keystream')
                with sut('randombytes'):
                    o = py.randombytes(9)
                check(o == e, 'Python 9-byte draw differs from the C generator')
        elif k == 'u64':
            for _ in range(n % 40):
                e = R.u64()
                check(L.d.vp_prng_u64(p) == e, 'C prng_get_u64 differs from the keystream')
                with sut('randombytes'):
                    o = py.randombytes(8)
                check(o == e.to_bytes(8, 'little'), 'Python 8-byte draw differs from the C 64-bit draw')
        else:
            # lengths around the end of the buffer as well as arbitrary ones
            m = n * 5 % 1500 if n % 3 else max(0, 512 - R.p + n // 3 % 7 - 3 + 512 * (n // 21 % 3))
            e = R.bytes(m)
            buf = C.create_string_buffer(b'\xEE' * (m + 8), m + 8)
            L.d.vp_prng_bytes(p, buf, C.c_size_t(m))
            check(buf.raw[:m] == e and buf.raw[m:] == b'\xEE' * 8, 'C prng_get_bytes(%d) differs from the keystream' % m)
            with sut('randombytes'):
                o = b''.join(py.randombytes(1) for _ in range(m))
            check(o == e, 'Python byte stream differs')
        lab.add(k)
    return ['!' + k for k in sorted(lab)]


def run_pychacha(ctx, case):
    """Python alone: counters of every size, requests of every length are contiguous pieces of the keystream."""
    seed = chacha_seed(case)
    PY = pyref.mod('rng').ChaCha20
    R = RefChaCha(seed)
    ks = R.buf
    while len(ks) < 16000:
        R.refill()
        ks += R.buf
    with sut('ChaCha20'):
        py = PY(seed)
    pos = 0
    for n in case['req']:
        with sut('randombytes(%d)' % n):
            o = py.randombytes(n)
        check(len(o) == n, 'randombytes(%d) returns %d bytes' % (n, len(o)))
        end = pos + (-pos % 512)
        if ks[pos:pos + n] == o:
            pos += n
        else:
            check(n > 1 and ks[end:end + n] == o, 'randombytes(%d) is no continuation of the keystream' % n)
            check(end - pos < max(n, 10), 'randombytes(%d) dropped %d bytes' % (n, end - pos))
            pos = end + n
    return ['!wrap' if case['ctr'] is not None and case['ctr'] > 2 ** 64 - 200 else '!stream']


CTR = st.one_of(st.none(), st.none(), st.sampled_from([0, 2 ** 32 - 1, 2 ** 32 - 8, 2 ** 32 - 9, 2 ** 64 - 1, 2 ** 64 - 3, 2 ** 63, 5 * 2 ** 32 - 4, 2 ** 48 - 5]))
m48 = st.fixed_dictionaries({'k': st.sampled_from(['rnd', 'rnd', 'rnd', 'zero', 'ones']), 's': seeds()})
reqs = st.lists(st.one_of(st.sampled_from([0, 1, 15, 16, 17, 31, 32, 33, 40, 47, 48, 49, 64, 255, 256, 257, 1000]), st.integers(0, 400)), min_size=1, max_size=8)
FACETS = [
    Facet('drbg-c', st.fixed_dictionaries({'seed': m48, 'pers': st.one_of(st.none(), m48), 'req': reqs}), run_c, 6000, 200000,
          rule='seed, personalisation and request sizes'),
    Facet('drbg-py', st.fixed_dictionaries({'seed': m48, 'seedlen': st.sampled_from([48, 48, 48, 48, 48, 0, 1, 32, 47, 49, 64]), 'pers': st.one_of(st.none(), m48),
                                            'perslen': st.one_of(st.integers(0, 48), st.sampled_from([48, 49, 60])), 'req': reqs,
                                            'add': st.lists(st.one_of(st.none(), st.none(), seeds()), min_size=8, max_size=8)}), run_py, 6000, 200000,
          rule='as drbg-c, with additional input and invalid argument lengths'),
    Facet('aes', st.fixed_dictionaries({'key': m48, 'blk': m48, 'alias': st.booleans(), 'flips': st.lists(st.integers(0, 255), max_size=3)}), run_aes, 16000, 1000000,
          rule='key and block'),
    Facet('expander', st.fixed_dictionaries({'key': m48, 's': seeds(), 'maxlen': st.one_of(st.integers(0, 5000), st.sampled_from([2 ** 32 - 1, 2 ** 32, 2 ** 40, 2 ** 31])),
                                             'req': reqs}), run_exp, 4000, 100000, rule='seed, diversifier, maximum length and request sizes'),
    Facet('chacha', st.fixed_dictionaries({'s': seeds(), 'ctr': CTR, 'ops': st.lists(st.tuples(st.sampled_from(['u8', 'g', 'g', 'u64', 'bytes']), st.integers(1, 300)).map(list),
                                                                         min_size=1, max_size=8)}), run_chacha, 3000, 100000, rule='history of byte, 64-bit, 72-bit and block requests'),
    Facet('chacha-py', st.fixed_dictionaries({'s': seeds(), 'ctr': CTR,
                                              'req': st.lists(st.one_of(st.integers(0, 40), st.sampled_from([1, 8, 9, 56, 511, 512, 513, 1025])), min_size=1, max_size=9)}),
          run_pychacha, 3000, 100000, rule='request lengths, counters near the 32- and 64-bit limits')]
