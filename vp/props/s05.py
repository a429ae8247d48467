"""S05: decoding of NIST keys and bundles on chain is strict and agrees with C."""
import ctypes as CT
from hypothesis import strategies as st
from ..core import Facet, check
from .. import model as M
from ..cprops import lib, key
from ..gen import Rng, blob, unblob, seeds, ubytes
from ..solprops import *

KAT = 'decompress_KAT(bytes,bytes,uint256)'
SIGD = '_decompress_sig(bytes,uint256)'
KEYD = '_ZKNOX_NTT_Decompress(bytes,uint256)'
LONG = 666     # documented: bodies of this many bytes or more are refused


def build(b):
    a = {'lib': b.clib('nist')}
    a.update(build_sol(b, 'falcon_encodings', 'falcon_utils'))
    return a


# ---- the C decoder ------------------------------------------------------------------------------
def c_key(ctx, pk):
    """coefficients or None: format of the C public key decoder"""
    if len(pk) != 897 or pk[0] != 9:
        return None
    x = CT.create_string_buffer(2 * N)
    r = lib(ctx).z('modq_decode')(x, CT.c_uint(9), pk[1:], CT.c_size_t(896))
    return [int.from_bytes(x.raw[2 * i:2 * i + 2], 'little') for i in range(N)] if r == 896 else None


def c_body(ctx, b):
    """coefficients modulo q or None; the whole of b must be consumed"""
    x = CT.create_string_buffer(2 * N)
    r = lib(ctx).z('comp_decode')(x, CT.c_uint(9), b + bytes(8), CT.c_size_t(len(b)))
    if r != len(b) or r == 0:
        return None
    return [int.from_bytes(x.raw[2 * i:2 * i + 2], 'little', signed=True) % Q for i in range(N)]


def c_bundle(ctx, pk, sm, mlen):
    """(h, s2, salt, message) or None"""
    h = c_key(ctx, pk)
    if h is None or len(sm) < 43:
        return None
    sl, salt, msg, sig = M.split_bundle(sm)
    if sl < 1 or sl > len(sm) - 42 or len(sm) - 42 - sl != mlen or sig[0] != 0x29:
        return None
    s2 = c_body(ctx, sig[1:])
    return None if s2 is None else (h, s2, salt, msg)


def model_bundle(pk, sm, mlen):
    if len(pk) != 897 or pk[0] != 9 or len(sm) < 43:
        return None
    h = M.pk14_decode(pk)
    sl, salt, msg, sig = M.split_bundle(sm)
    if max(h) >= Q or sl < 1 or sl > len(sm) - 42 or len(msg) != mlen or sig[0] != 0x29:
        return None
    d = M.comp_decode(sig[1:], N)
    if d is None or d[1] != len(sig) - 1:
        return None
    return h, [x % Q for x in d[0]], salt, msg


def compare(ctx, pk, sm, mlen, what):
    want = c_bundle(ctx, pk, sm, mlen)
    assert want == model_bundle(pk, sm, mlen), what
    if not has(ctx, KAT):
        return 'no ' + KAT
    r = hook(ctx, KAT, pk, sm, mlen)
    if want is None:
        check(not r.ok, '%s: decoded although the encoding is not valid' % what)
        return 'refused'
    if len(sm) - 43 - mlen >= LONG and not r.ok:
        return 'documented length limit'
    h, s2, salt, msg = value(r, ['uint256[]', 'uint256[]', 'bytes', 'bytes'], what)
    check(list(h) == want[0], what + ': public key coefficients differ from those of C')
    check(list(s2) == want[1], what + ': s2 differs from that of C')
    check(salt == want[2], what + ': salt differs')
    check(msg == want[3], what + ': message differs')
    return 'decoded'


# ---- bundles ------------------------------------------------------------------------------------
def s2_values(case, rng):
    k = case['v']
    if k == 'gauss':
        g = rng.np()
        return [max(-2047, min(2047, int(x))) for x in g.normal(0, 165, N).round()]
    if k == 'small':
        return [rng.below(3) - 1 for _ in range(N)]
    if k == 'zero':
        return [0] * N
    if k == 'edge':
        e = [0, 0, 0, 1, -1, 127, -127, 128, -128, 255, -255, 256]
        v = [rng.choice(e) for _ in range(N)]
        for _ in range(1 + rng.below(12)):
            v[rng.below(N)] = rng.choice([2047, -2047, 2046, 1920, -1920, 1919, 1024])
        return v
    g = rng.np()       # close to the longest body
    v = [int(x) for x in g.normal(0, 210, N).round()]
    return [max(-2047, min(2047, x)) for x in v]


def parts(case, rng):
    msg = unblob(case['msg'])
    h = poly(case['h'])
    v = s2_values(case, rng)
    return M.pk14_encode(h), rng.bytes(40), msg, v, M.bits_to_bytes(M.comp_bits(v))


def run_valid(ctx, case):
    rng = Rng('s05', case['seed'])
    pk, salt, msg, v, body = parts(case, rng)
    sm = M.bundle(salt, msg, b'\x29' + body)
    r = compare(ctx, pk, sm, len(msg), 'bundle of %d bytes of message and %d of signature' % (len(msg), len(body)))
    return ['!' + case['v'], r]


def run_bad(ctx, case):
    rng = Rng('s05b', case['seed'])
    pk, salt, msg, v, body = parts(case, rng)
    k, x = case['k'], case['x']
    mlen = len(msg)
    sig = b'\x29' + body
    sl = None
    what = k
    bits = M.comp_bits(v)
    if k == 'minus zero':
        w = list(v)
        i = x % N
        w[i] = 0
        pos = len(M.comp_bits(w[:i]))
        b = M.comp_bits(w)
        sig = b'\x29' + M.bits_to_bytes(b[:pos] + '1' + b[pos + 1:])
        what += ' at coefficient %d' % i
    elif k == 'too large':
        i = x % N
        m = 2048 + x % 400
        pre, post = M.comp_bits(v[:i]), M.comp_bits(v[i + 1:])
        sig = b'\x29' + M.bits_to_bytes(pre + M.comp_bits([m if x & 1 else -m]) + post)
        what += ': coefficient %d is %d' % (i, m)
    elif k == 'padding bit':
        pad = -len(bits) % 8
        if not pad:
            return ['no padding']
        sig = sig[:-1] + bytes([sig[-1] | (1 << (x % pad))])
    elif k == 'zero byte after':
        sig += bytes(1 + x % 5)
    elif k == 'bytes after':
        sig += rng.bytes(1 + x % 40)
    elif k == 'cut':
        sig = sig[:-(1 + x % min(len(sig), 30))]
    elif k == 'cut far':
        sig = sig[:x % len(sig)]
    elif k == 'length field':
        sl = [len(sig) - 1, len(sig) + 1, 0, 1, 65535, len(sig) ^ (1 << (x % 16)), x % 65536][x % 7]
        if sl == len(sig):
            sl += 1
    elif k == 'message length':
        mlen = [mlen + 1, max(0, mlen - 1) if mlen else 1, mlen + 40, 0 if mlen else 2, mlen ^ (1 << (x % 12)), 2 ** 255, 2 ** 256 - 1][x % 7]
    elif k == 'signature header':
        sig = bytes([(0x29 ^ (1 << (x % 8))) if x & 256 else [0x39, 0x2a, 0x28, 0x49, 0, 0xff][x % 6]]) + body
    elif k == 'key header':
        pk = bytes([9 ^ (1 << (x % 8))]) + pk[1:]
    elif k == 'key coefficient':
        i = x % N
        h = poly(case['h'])
        h[i] = [Q, Q + 1, 16383, 12290 + x % 4000][x % 4]
        pk = b'\x09' + M.fixed_encode(h, 14)
        what += ' %d' % i
    elif k == 'key length':
        pk = [pk[:-1], pk + b'\x00', pk + rng.bytes(1 + x % 130), pk[:x % 897], b''][x % 5]
    elif k == 'bundle after':
        sm = M.bundle(salt, msg, sig) + rng.bytes(1 + x % 64)
    elif k == 'bundle cut':
        sm = M.bundle(salt, msg, sig)
        sm = sm[:x % len(sm)]
    elif k == 'bits':
        b = bytearray(sig)
        for j in range(1 + x % 3):
            p = 8 + (x * 7919 + j * 331) % (8 * len(sig) - 8)
            b[p // 8] ^= 0x80 >> (p % 8)
        sig = bytes(b)
    elif k == 'random body':
        sig = b'\x29' + rng.bytes(x % 700)
    elif k == 'all ones':
        sig = b'\x29' + b'\xff' * (x % 700)
    if k not in ('bundle after', 'bundle cut'):
        sm = (len(sig) if sl is None else sl).to_bytes(2, 'big') + salt + msg + sig
    r = compare(ctx, pk, sm, mlen, what)
    return ['!' + k, r]


def run_sig(ctx, case):
    """the signature decoder alone, at any offset of a buffer that ends with the signature"""
    if not has(ctx, SIGD):
        return ['no ' + SIGD]
    rng = Rng('s05s', case['seed'])
    v = s2_values(case, rng)
    body = M.bits_to_bytes(M.comp_bits(v))
    k, x = case['k'], case['x']
    if k == 'cut':
        body = body[:-(1 + x % 20)]
    elif k == 'bits':
        b = bytearray(body)
        p = (x * 7919) % (8 * len(b))
        b[p // 8] ^= 0x80 >> (p % 8)
        body = bytes(b)
    elif k == 'zeros':
        body += bytes(1 + x % 40)
    off = case['off']
    pre = rng.bytes(off)
    d = M.comp_decode(body, N)
    r = hook(ctx, SIGD, pre + body, off)
    if d is None or (d[1] >= LONG and not r.ok):
        check(d is not None or not r.ok, '_decompress_sig: decodes an encoding that is not valid (%s)' % k)
        return ['!' + k, 'refused']
    if d[1] < len(body) and not r.ok:
        return ['bytes after refused']
    y = value(r, ['uint256[]'], SIGD)
    check(list(y) == [int(a) % Q for a in d[0]], '_decompress_sig: wrong coefficients (offset %d)' % off)
    return ['!' + k, 'decoded']


def run_key(ctx, case):
    if not has(ctx, KEYD):
        return ['no ' + KEYD]
    rng = Rng('s05k', case['seed'])
    h = poly(case['h'], 16384 if case['wide'] else Q)
    if case['at'] is not None:
        h[case['at']] = 12289 + case['seed'] % 4095
    off = case['off']
    b = rng.bytes(off) + M.fixed_encode(h, 14)
    if case['cut']:
        b = b[:-case['cut']]
    r = hook(ctx, KEYD, b, off)
    what = '_ZKNOX_NTT_Decompress'
    if max(h) >= Q or case['cut']:
        check(not r.ok, '%s: decodes %s' % (what, 'a buffer of %d bytes too few' % case['cut'] if case['cut'] else
                                            'a coefficient of %d' % max(h)))
        return ['!refused']
    check(list(value(r, ['uint256[]'], what)) == h, what + ': wrong coefficients')
    return ['!decoded']


def run_real(ctx, case):
    k = key(ctx, case['key'])
    msg = unblob(case['msg'])[:70000]
    r, sm, _ = lib(ctx).sign('nist', msg, k['sk'], ubytes('rb', case['seed'], 88))
    check(r == 0, 'C does not sign')
    x = compare(ctx, k['pk'], sm, len(msg), 'bundle of the C library')
    check(x != 'refused', 'bundle of the C library refused')
    for b in case['flip']:
        b %= 8 * len(sm)
        t = bytearray(sm)
        t[b // 8] ^= 0x80 >> (b % 8)
        compare(ctx, k['pk'], bytes(t), len(msg), 'bundle of the C library with bit %d flipped' % b)
    return ['!c', x]


B = {'seed': seeds(), 'msg': blob(1200, top=70000), 'h': polys_(), 'v': st.sampled_from(['gauss', 'gauss', 'gauss', 'small', 'zero', 'edge', 'long'])}
KINDS = ['minus zero', 'too large', 'padding bit', 'zero byte after', 'bytes after', 'cut', 'cut far', 'length field', 'message length',
         'signature header', 'key header', 'key coefficient', 'key length', 'bundle after', 'bundle cut', 'bits', 'bits', 'random body', 'all ones']
FACETS = [
    Facet('valid', st.fixed_dictionaries(B), run_valid, 800, 30000, rule='every bundle'),
    Facet('bad', st.fixed_dictionaries(dict(B, k=st.sampled_from(KINDS), x=st.integers(0, 65535), msg=blob(120))), run_bad, 3000, 120000,
          rule='every altered bundle',
          corners=[{'seed': i, 'msg': {'hex': ''}, 'h': {'k': 'rand', 's': i}, 'v': 'gauss', 'k': k, 'x': i} for k in ('minus zero', 'too large', 'key coefficient')
                   for i in range(512)]),
    Facet('sig', st.fixed_dictionaries({'seed': seeds(), 'v': B['v'], 'k': st.sampled_from(['none', 'cut', 'bits', 'bits', 'zeros']),
                                        'x': st.integers(0, 65535), 'off': st.integers(0, 100)}), run_sig, 1000, 40000, rule='decoder present'),
    Facet('key', st.fixed_dictionaries({'seed': seeds(), 'h': polys_(), 'wide': st.sampled_from([False, False, False, True]),
                                        'at': st.one_of(st.none(), st.none(), st.integers(0, N - 1)), 'off': st.sampled_from([0, 1, 1, 1, 33]),
                                        'cut': st.sampled_from([0, 0, 0, 1, 2, 30])}), run_key, 800, 30000, rule='decoder present'),
    Facet('real', st.fixed_dictionaries({'key': st.integers(0, 30), 'seed': seeds(), 'msg': blob(2000, top=70000),
                                         'flip': st.lists(st.integers(0, 2 ** 20), max_size=6)}), run_real, 150, 5000, rule='every signature'),
]
