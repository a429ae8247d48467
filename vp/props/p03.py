"""P03: Python signature compression is a bijection onto its canonical strings."""
import ctypes as C
from hypothesis import strategies as st
from ..core import Facet, check, sut
from .. import model as M
from .. import pyref
from ..pyprops import *
from ..cprops import build_std, lib
from ..gen import Rng, blob, unblob, seeds, ubytes


def build(b):
    return build_std(b)


def setup_worker(ctx):
    pyref.setup()


def vec(case):
    rng = Rng('v', case['s'])
    n, k = case['n'], case['kind']
    if k == 'gauss':
        return [sum(rng.randint(-82, 82) for _ in range(12)) // (1 + case['s'] % 4) for _ in range(n)]
    if k == 'small':
        return [rng.randint(-3, 3) for _ in range(n)]
    if k == 'edge':
        return [rng.choice([0, 1, -1, 127, -127, 128, -128, 129, 255, 256, -256, 2047, -2047, 2048, -2048, 1023, 1024, -1024]) for _ in range(n)]
    if k == 'wide':
        return [rng.randint(-6200, 6200) for _ in range(n)]
    if k == 'one':
        v = [0] * n
        v[rng.below(n)] = rng.randint(-20000, 20000)
        return v
    return [0] * n


def run_enc(ctx, case):
    E = pyref.mod('encoding')
    v = vec(case)
    n = len(v)
    bits = len(M.comp_bits(v))
    need = (bits + 7) // 8
    slen = max(0, need + case['d']) if case['rel'] else case['slen']
    with sut('compress'):
        x = E.compress(list(v), slen)
    exp = py_encode(v, slen)
    if exp is None:
        check(x is False, 'compress of a vector needing %d bits into %d bytes does not refuse' % (bits, slen))
        return ['!refused']
    check(x is not False, 'compress refuses a vector that fits (%d bits in %d bytes)' % (bits, slen))
    check(isinstance(x, bytes) and len(x) == slen, 'compress returns %d bytes, not %d' % (len(x), slen))
    check(x == exp, 'compress gives another string than the specification')
    with sut('decompress'):
        w = E.decompress(x, slen, n)
    check(w is not False and list(w) == v, 'decompress does not return the compressed vector')
    labels = ['!roundtrip']
    # the C library reads the same string
    if n in (2, 4, 8, 16, 32, 64, 128, 256, 512, 1024) and max(map(abs, v)) <= 2047 and n >= 2:
        L = lib(ctx)
        logn = LOGN[n]
        buf = C.create_string_buffer(slen + 16)
        arr = (C.c_int16 * n)(*v)
        z = L.z('comp_encode')
        z.restype = C.c_size_t
        r = z(buf, C.c_size_t(slen), arr, logn)
        check(r == need and buf.raw[:r] == x[:r] and not any(x[r:]), 'C and Python encode differently (C used %d bytes, %d expected)' % (r, need))
        out = (C.c_int16 * n)()
        z = L.z('comp_decode')
        z.restype = C.c_size_t
        check(z(out, logn, x, C.c_size_t(slen)) == need and list(out) == v, 'C does not decode the Python string')
        labels.append('vs-C')
    return labels


def strat_enc(ctx=None):
    return st.fixed_dictionaries({'n': st.one_of(st.sampled_from([1, 2, 4, 8, 16, 64, 512, 1024, 2048]), st.integers(1, 40)),
                                  'kind': st.sampled_from(['gauss', 'gauss', 'small', 'edge', 'wide', 'one', 'zero']), 's': seeds(20),
                                  'rel': st.booleans(), 'd': st.integers(-3, 8), 'slen': st.sampled_from([0, 1, 2, 11, 47, 315, 625, 1239, 1291, 3000])})


def run_dec(ctx, case):
    """any byte string"""
    E = pyref.mod('encoding')
    n = case['n']
    if case['src'] == 'raw':
        x = unblob(case['blob'])
        slen = max(0, len(x) + case['d'])
    else:
        v = vec(dict(case, kind=case['kind']))
        bits = M.comp_bits(v)
        rng = Rng('mut', case['s'], case['m'])
        for _ in range(case['m'] % 4):
            i = rng.below(len(bits))
            w = rng.below(5)
            if w == 0:
                bits = bits[:i] + ('1' if bits[i] == '0' else '0') + bits[i + 1:]
            elif w == 1:
                bits = bits[:i] + bits[i + 1:] + '0'
            elif w == 2:
                bits = bits[:i]
                if not bits:
                    bits = '0'
            elif w == 3:
                bits += bin(rng.below(1 << 12))[2:]
            else:
                bits = bits[:i] + '0' * rng.below(20) + bits[i:]
        x = M.bits_to_bytes(bits)
        pad = case['pad']
        slen = len(x) + pad
        x = x + b'\x00' * (pad if case['full'] else pad // 2)
        slen += min(0, case['d'])
        slen = max(0, slen)
    exp = py_decode(x, slen, n)
    with sut('decompress of %d bytes (limit %d, n=%d)' % (len(x), slen, n)):
        got = E.decompress(x, slen, n)
    check((got is False) == (exp is None), 'decompress %s a string which the format %s' % (
        'refuses' if got is False else 'accepts', 'refuses' if exp is None else 'accepts'))
    if exp is None:
        return ['!refused']
    check(list(got) == exp, 'decompress gives another vector')
    with sut('compress'):
        y = E.compress(got, slen)
    check(y == x + b'\x00' * (slen - len(x)), 'the accepted string is not the canonical encoding of its vector')
    return ['!accepted']


def strat_dec(ctx=None):
    return st.fixed_dictionaries({'src': st.sampled_from(['raw', 'mut', 'mut', 'mut']), 'n': st.one_of(st.integers(1, 6), st.sampled_from([16, 64, 512, 1024])),
                                  'blob': blob(1400), 'd': st.integers(-3, 3), 'kind': st.sampled_from(['gauss', 'small', 'edge', 'zero']), 's': seeds(20),
                                  'm': st.integers(0, 1000), 'pad': st.integers(0, 9), 'full': st.booleans()})


def corners_dec(ctx):
    out = []
    for n in (1, 2, 512):
        for hx in ('', '00', '80', '01', 'ff', '8000', '0080', '00' * 30, '8080', '80c0', '008001', 'ff' * 4, '40', '7f80', 'ff80', '0081', '00ff'):
            for d in (0, 1, -1):
                out.append({'src': 'raw', 'n': n, 'blob': {'hex': hx}, 'd': d, 'kind': 'zero', 's': 0, 'm': 0, 'pad': 0, 'full': True})
    return out


def run_dec16(ctx, case):
    E = pyref.mod('encoding')
    x = unblob(case['blob'])
    try:
        v = E.decode16(x, len(x) // 2)
    except ValueError:
        check(len(x) % 2 == 1, 'decode16 refuses an even length')
        return ['!odd']
    check(len(x) % 2 == 0, 'decode16 accepts an odd length')
    check(list(v) == [int.from_bytes(x[i:i + 2], 'big') for i in range(0, len(x), 2)], 'decode16 values')
    return ['!']


FACETS = [
    Facet('compress', strat_enc, run_enc, 8000, 200000, rule='vectors and target lengths; non-trivial = round trip or correct refusal'),
    Facet('decompress', strat_dec, run_dec, 40000, 600000, corners_dec, rule='arbitrary and mutated strings against the reference decoder'),
    Facet('decode16', lambda ctx: st.fixed_dictionaries({'blob': blob(1100)}), run_dec16, 400, 4000, rule='16-bit words'),
]
