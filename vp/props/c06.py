"""C06: encodings are exact inverses and reject non-canonical input."""
import ctypes as C
from hypothesis import strategies as st
from ..core import Facet, check
from .. import model as M
from ..cprops import *
from ..gen import Rng, seeds, ubytes


def build(b):
    return {'lib': b.clib('nist')}


Q = M.Q
CODECS = ['modq', 'modq16', 'trim8', 'trim16', 'comp', 'comp16']
GUARD = 16


def ctype(codec):
    return {'modq': C.c_uint16, 'modq16': C.c_uint16, 'trim8': C.c_int8, 'trim16': C.c_int16, 'comp': C.c_int16, 'comp16': C.c_int16}[codec]


def fn(L, codec, op):
    return L.z({'modq': 'modq_%s', 'modq16': 'modq_%s16', 'trim8': 'trim_i8_%s', 'trim16': 'trim_i16_%s', 'comp': 'comp_%s',
                'comp16': 'comp_%s16'}[codec] % op)


def c_encode(L, codec, vals, logn, bits, maxlen):
    """(ret, bytes) with guard bytes checked; maxlen None = size query."""
    T = ctype(codec)
    a = (T * len(vals))(*vals)
    args = [C.c_uint(bits)] if codec.startswith('trim') else []
    if maxlen is None:
        return fn(L, codec, 'encode')(None, C.c_size_t(0), a, C.c_uint(logn), *args), None
    buf = C.create_string_buffer(b'\xC7' * (maxlen + GUARD), maxlen + GUARD)
    r = fn(L, codec, 'encode')(buf, C.c_size_t(maxlen), a, C.c_uint(logn), *args)
    check(buf.raw[maxlen:] == b'\xC7' * GUARD, '%s encoder wrote past the given maximum length' % codec)
    check(list(a) == vals, '%s encoder modified its input' % codec)
    if 0 < r < maxlen:
        check(buf.raw[r:maxlen] == b'\xC7' * (maxlen - r), '%s encoder wrote past the returned length' % codec)
    return r, buf.raw[:r] if r <= maxlen else None


def c_decode(L, codec, data, logn, bits, extra=b'', maxlen=None):
    T = ctype(codec)
    n = 1 << logn
    a = (T * (n + 8))()
    C.memset(a, 0x5A, C.sizeof(a))
    full = data + extra
    args = [C.c_uint(bits)] if codec.startswith('trim') else []
    buf = C.create_string_buffer(full, max(1, len(full)))
    r = fn(L, codec, 'decode')(a, C.c_uint(logn), *args, buf, C.c_size_t(len(full) if maxlen is None else maxlen))
    check(bytes(a)[n * C.sizeof(T):] == b'\x5A' * (8 * C.sizeof(T)), '%s decoder wrote past the output' % codec)
    return r, list(a)[:n]


def ref_encode(codec, vals, bits):
    if codec in ('modq', 'modq16'):
        return None if any(v >= Q or v < 0 for v in vals) else M.fixed_encode(vals, 14 if codec == 'modq' else 16)
    if codec.startswith('trim'):
        mx = (1 << (bits - 1)) - 1
        return None if any(abs(v) > mx for v in vals) else M.fixed_encode(vals, bits)
    if codec == 'comp':
        return M.comp_encode(vals)
    return None if any(abs(v) >= Q for v in vals) else M.fixed_encode([v % Q for v in vals], 16)


def ref_decode(codec, data, n, bits):
    """(vals, consumed) or None, for the given available bytes."""
    if codec == 'comp':
        return M.comp_decode(data, n)
    w = {'modq': 14, 'modq16': 16, 'comp16': 16}.get(codec, bits)
    ln = (n * w + 7) // 8
    if len(data) < ln:
        return None
    v, pad = M.fixed_decode(data[:ln], n, w)
    if pad:
        return None
    if codec in ('modq', 'modq16', 'comp16'):
        if max(v) >= Q:
            return None
        if codec == 'comp16':
            v = [x - Q if x > Q // 2 else x for x in v]
        return v, ln
    v = [x - (1 << w) if x >> (w - 1) else x for x in v]
    if min(v) == -(1 << (w - 1)):
        return None
    return v, ln


def domain(codec, bits):
    if codec in ('modq', 'modq16'):
        return 0, Q - 1
    if codec.startswith('trim'):
        m = (1 << (bits - 1)) - 1
        return -m, m
    if codec == 'comp':
        return -2047, 2047
    return -(Q // 2), Q // 2


def tlimits(codec):
    return {'modq': (0, 65535), 'modq16': (0, 65535), 'trim8': (-128, 127)}.get(codec, (-32768, 32767))


def make_vals(rng, codec, bits, n, kind):
    lo, hi = domain(codec, bits)
    if kind == 'edge':
        pool = sorted({lo, lo + 1, hi, hi - 1, 0, max(lo, -1), min(1, hi), lo // 2, hi // 2, min(hi, 127), min(hi, 128), max(lo, -128)})
        pool = [p for p in pool if lo <= p <= hi]
        return [rng.choice(pool) for _ in range(n)]
    if kind == 'small':
        m = min(hi, 200)
        return [rng.randint(max(lo, -m), m) for _ in range(n)]
    if kind == 'max':
        return [hi if rng.below(2) else (lo if lo < 0 else hi) for _ in range(n)]
    if kind == 'zero':
        return [0] * n
    return [rng.randint(lo, hi) for _ in range(n)]


def run_enc(ctx, case):
    L = lib(ctx)
    codec, logn, bits = case['codec'], case['logn'], case['bits']
    n = 1 << logn
    rng = Rng('enc', case['s'])
    vals = make_vals(rng, codec, bits, n, case['kind'])
    labels = [codec]
    bad = False
    for pos, v in case['edits']:
        lo, hi = tlimits(codec)
        vals[pos % n] = min(hi, max(lo, v))
    exp = ref_encode(codec, vals, bits)
    what = '%s (degree %d, %d bits)' % (codec, n, bits)
    size, _ = c_encode(L, codec, vals, logn, bits, None)
    if exp is None:
        check(size == 0, what + ': size query accepts out-of-range values')
        r, b = c_encode(L, codec, vals, logn, bits, 4 * n + 8)
        check(r == 0, what + ': encoder accepts an out-of-range coefficient')
        return labels + ['!out-of-range']
    check(size == len(exp), what + ': size query returns %d, encoding has %d bytes' % (size, len(exp)))
    for mx in (len(exp), len(exp) + 1, len(exp) + 7):
        r, b = c_encode(L, codec, vals, logn, bits, mx)
        check(r == len(exp) and b == exp, what + ': wrong encoding (returned %d, expected %d bytes)' % (r, len(exp)))
    for mx in {0, 1, len(exp) - 1, case['s'] % len(exp)}:
        if mx < len(exp):
            r, b = c_encode(L, codec, vals, logn, bits, mx)
            check(r == 0, what + ': encoder claims success in a %d-byte buffer, %d needed' % (mx, len(exp)))
    canon = vals
    if codec == 'comp16':
        canon = [int(x) for x in M.centered(vals)]
    for extra in (b'', b'\x00', b'\xff\xff\xff'):
        r, back = c_decode(L, codec, exp, logn, bits, extra)
        check(r == len(exp), what + ': decoder consumed %d of %d bytes' % (r, len(exp)))
        check(back == canon, what + ': decoding the encoding gives a different polynomial')
    for cut in {1, 1 + case['s'] % len(exp), len(exp)}:
        r, back = c_decode(L, codec, exp, logn, bits, maxlen=len(exp) - cut)
        check(r == 0, what + ': decoder accepts input cut by %d bytes' % cut)
    return labels + ['!enc-' + case['kind']]


def common_fields():
    return {'codec': st.sampled_from(CODECS), 'logn': st.one_of(st.integers(0, 10), st.sampled_from([0, 1, 2, 9, 9, 10])),
            's': seeds(), 'kind': st.sampled_from(['edge', 'small', 'max', 'zero', 'uniform'])}


def fix(c):
    # widths: the documented range of the fixed-width encodings
    c['bits'] = c['bits8'] if c['codec'] == 'trim8' else c['bits16']
    del c['bits8'], c['bits16']
    if c['logn'] == 0 and c['codec'] != 'comp':
        pass
    return c


def strat_enc(ctx=None):
    d = common_fields()
    d.update(bits8=st.integers(2, 8), bits16=st.integers(2, 16),
             edits=st.lists(st.tuples(st.integers(0, 1023), st.one_of(
                 st.integers(-32768, 65535), st.sampled_from([2047, 2048, -2047, -2048, 12288, 12289, -12288, -12289, 127, 128, -127, -128, 31, 32, -31, -32, 0, 6144, 6145, -6144, -6145]))),
                 max_size=3).map(lambda l: [list(t) for t in l]))
    return st.fixed_dictionaries(d).map(fix)


def run_dec(ctx, case):
    """any byte string: accepted exactly when canonical, with the right values and length."""
    L = lib(ctx)
    codec, logn, bits = case['codec'], case['logn'], case['bits']
    n = 1 << logn
    rng = Rng('dec', case['s'])
    vals = make_vals(rng, codec, bits, n, case['kind'])
    data = bytearray(ref_encode(codec, vals, bits))
    m = case['mut']
    if m == 'random':
        data = bytearray(rng.bytes(len(data)))
    for off, val in case['edits']:
        if not data:
            break
        o = off % len(data)
        if m == 'xor':
            data[o] ^= val & 255
        elif m == 'set':
            data[o] = val & 255
        elif m == 'last':
            data[-1] ^= 1 << (val % 8)
        elif m == 'word' and codec in ('modq16', 'comp16'):
            data[o & ~1:(o & ~1) + 2] = (val % 65536).to_bytes(2, 'big')
        elif m == 'cut':
            del data[len(data) - (val % len(data)) - (0 if val % len(data) else 1):]
        elif m == 'ins':
            data.insert(o, val & 255)
    if m == 'trimmin' and codec.startswith('trim'):
        w = bits
        v, _ = M.fixed_decode(bytes(ref_encode(codec, vals, bits)), n, w)
        v[case['s'] % n] = 1 << (w - 1)
        data = bytearray(M.fixed_encode(v, w))
    if m == 'over' and codec in ('modq', 'modq16', 'comp16'):
        w = 14 if codec == 'modq' else 16
        v, _ = M.fixed_decode(bytes(ref_encode(codec, vals, bits)), n, w)
        i = case['s'] % n
        v[i] = min((1 << w) - 1, v[i] + Q * (1 + case['s'] % 5)) if case['s'] & 64 else rng.randint(Q, (1 << w) - 1)
        data = bytearray(M.fixed_encode(v, w))
    if m == 'negzero' and codec == 'comp':
        i = case['s'] % n
        vals[i] = 0
        p = len(M.comp_bits(vals[:i]))
        b = M.comp_bits(vals)
        data = bytearray(M.bits_to_bytes(b[:p] + '1' + b[p + 1:]))
    if m == 'longunary' and codec == 'comp':
        i = case['s'] % n
        b0, b1 = M.comp_bits(vals[:i]), M.comp_bits(vals[i + 1:])
        k = 14 + case['s'] % 6
        data = bytearray(M.bits_to_bytes(b0 + format(case['s'] % 256, '08b') + '0' * k + '1' + b1))
    if m == 'tail' and codec == 'comp':
        data = data + b'\x00' * (case['s'] % 4)
    data = bytes(data)
    exp = ref_decode(codec, data, n, bits)
    r, back = c_decode(L, codec, data, logn, bits, maxlen=len(data))
    what = '%s (degree %d, %d bits, %s)' % (codec, n, bits, m)
    if exp is None:
        check(r == 0, what + ': decoder accepts a non-canonical string of %d bytes' % len(data))
        return [codec, '!refused', 'mut-' + m]
    check(r == exp[1], what + ': decoder returned %d, expected %d' % (r, exp[1]))
    check(back == exp[0], what + ': decoder gives wrong values')
    rr, re = c_encode(L, codec, back, logn, bits, len(data))
    check(rr == r and re == data[:r], what + ': re-encoding differs from the consumed input')
    return [codec, '!accepted', 'mut-' + m]


def strat_dec(ctx=None):
    d = common_fields()
    d.update(bits8=st.integers(2, 8), bits16=st.integers(2, 16),
             mut=st.sampled_from(['random', 'xor', 'xor', 'set', 'last', 'word', 'cut', 'ins', 'trimmin', 'over', 'negzero', 'longunary', 'tail']),
             edits=st.lists(st.tuples(st.integers(0, 4000), st.one_of(st.integers(0, 65535), st.sampled_from([12288, 12289, 32767, 32768, 65535, 1, 128]))),
                            max_size=3).map(lambda l: [list(t) for t in l]))
    return st.fixed_dictionaries(d).map(fix)


def corners_enc(ctx):
    out = []
    for codec in CODECS:
        for logn in range(0, 11):
            for kind in ('edge', 'max', 'zero'):
                out.append({'codec': codec, 'logn': logn, 'bits': 6 if codec == 'trim8' else 12, 's': 77, 'kind': kind, 'edits': []})
    for bits in range(2, 9):
        out.append({'codec': 'trim8', 'logn': 9, 'bits': bits, 's': 5, 'kind': 'edge', 'edits': []})
        for logn in range(0, 4):
            out.append({'codec': 'trim8', 'logn': logn, 'bits': bits, 's': 5, 'kind': 'edge', 'edits': []})
    for bits in range(2, 17):
        out.append({'codec': 'trim16', 'logn': 9, 'bits': bits, 's': 5, 'kind': 'edge', 'edits': []})
    return out


def corners_dec(ctx):
    out = []
    for codec in ('modq16', 'comp16'):
        for w in list(range(2040, 2056)) + [6143, 6144, 6145, 10241, 10242, 12287, 12288, 12289, 12290, 32767, 32768, 32769, 53247, 53248, 65534, 65535]:
            out.append({'codec': codec, 'logn': 9, 'bits': 12, 's': 5, 'kind': 'small', 'mut': 'word', 'edits': [[514, w]]})
    return out


def run_keys(ctx, case):
    """non-canonical keys are refused by the operations that take them, canonical ones are used."""
    L = lib(ctx)
    k = key(ctx, case['key'])
    kind, x, y = case['kind'], case['x'], case['y']
    fmt = case['fmt']
    rb = ubytes('rb', 6, 88)
    if kind == 'none' or kind == 'sk-header' or kind == 'sk-min':
        sk = bytearray(k['sk'])
        if kind == 'sk-header':
            sk[0] = y & 255
        elif kind == 'sk-min':
            # -2^(w-1) is no canonical coefficient
            f, g, F = [list(v) for v in (k['f'], k['g'], k['F'])]
            part, w = [(f, 6), (g, 6), (F, 8)][y % 3]
            part[x % 512] = -(1 << (w - 1))
            sk = bytearray(b'\x59' + b''.join(M.fixed_encode([c % (1 << b) for c in v], b) for v, b in ((f, 6), (g, 6), (F, 8))))
        ok = kind != 'sk-min' and sk[0] == 0x59
        r, sm, _ = L.sign(fmt, b'keys', bytes(sk), rb)
        check((r == 0) == ok, '%s signing %s a secret key (%s, header 0x%02x)' % (fmt, 'refuses' if ok else 'accepts', kind, sk[0]))
        if not ok:
            return ['!' + kind]
        if fmt != 'ep':
            check(L.open(fmt, sm, pub(k, fmt))[0] == 0, 'the signature does not open')
        return ['none']
    if fmt == 'ep':
        fmt = 'zk'
    r, sm, _ = L.sign(fmt, b'keys', k['sk'], rb)
    check(r == 0, 'signing failed')
    pk = bytearray(pub(k, fmt))
    if kind == 'pk-header':
        pk[0] = y & 255
        ok = pk[0] == 9
    else:
        # the same key with a coefficient written above q
        w = 14 if fmt == 'nist' else 16
        v = M.fixed_decode(bytes(pk[1:]), 512, w)[0]
        i = x % 512
        for j in range(512):
            if v[(i + j) % 512] + M.Q < 1 << w:
                i = (i + j) % 512
                break
        m = ((1 << w) - 1 - v[i]) // M.Q
        v[i] += M.Q * (1 + y % m)
        pk = bytearray(b'\x09' + M.fixed_encode(v, w))
        ok = False
    check((L.open(fmt, sm, bytes(pk))[0] == 0) == ok, '%s opening %s a public key (%s)' % (fmt, 'refuses' if ok else 'accepts', kind))
    return ['!' + kind]


def strat_keys(ctx=None):
    return st.fixed_dictionaries({'key': st.integers(0, 10), 'fmt': st.sampled_from(['nist', 'zk', 'ep']), 'x': st.integers(0, 511), 'y': st.integers(0, 255),
                                  'kind': st.sampled_from(['none', 'sk-header', 'sk-min', 'sk-min', 'pk-header', 'pk-alias', 'pk-alias'])})


def run_tables(ctx, case):
    L = lib(ctx)
    t = lambda n: list((C.c_uint8 * 11).in_dll(L.d, 'falcon_inner_' + n))
    check(t('max_fg_bits') == [0, 8, 8, 8, 8, 8, 7, 7, 6, 6, 5], 'max_fg_bits table')
    check(t('max_FG_bits') == [0] + [8] * 10, 'max_FG_bits table')
    return ['!tables']


FACETS = [
    Facet('encode', strat_enc, run_enc, 12000, 240000, corners_enc, rule='polynomials at range edges, degrees 1..1024, all widths; non-trivial = round trip or out-of-range coefficient'),
    Facet('decode', strat_dec, run_dec, 14000, 280000, corners_dec, rule='byte strings near valid encodings and random; non-trivial = compared accept or refusal'),
    Facet('tables', None, run_tables, 0, 0, [{}], rule='width tables'),
    Facet('keys', strat_keys, run_keys, 900, 20000,
          [{'key': 1, 'fmt': f, 'x': 0, 'y': y, 'kind': k} for f in ('nist', 'zk', 'ep') for k in ('sk-header', 'pk-header') for y in range(256)] +
          [{'key': 1, 'fmt': f, 'x': x, 'y': y, 'kind': 'sk-min'} for f in ('nist', 'zk', 'ep') for x in (0, 1, 2, 3, 255, 508, 509, 510, 511) for y in range(3)],
          rule='non-canonical secret and public keys given to sign and open; all but "none" non-trivial'),
]
