"""G02: the Falcon precompile of the geth fork accepts exactly valid signatures and never crashes."""
import struct
from hypothesis import strategies as st
from ..core import Facet, Violation, check
from ..clib import PK
from ..cprops import lib, key, ref_open
from ..gen import Rng, blob, unblob, seeds, ubytes
from ..gobind import build_precompile, Driver, Died

ASSUMPTIONS = ['go-ethereum is not available here: contracts.go is compiled as it stands against stand-ins of the packages it imports; '
               'accounts/abi is a reimplementation with the same rules and errors for dynamic byte strings',
               'the program is built with AddressSanitizer: reads past the input that it does not see are missed']
ADDR, PRAGUE, VERKLE = 0x13, 5, 6
GAS = 10 ** 12


def build(b):
    return {'go': build_precompile(b), 'lib': b.clib('nist')}


def go(ctx):
    return ctx.get('go', lambda: Driver(ctx.art['go'], ctx.scratch))


def ask(ctx, data, gas=GAS, fork=PRAGUE, addr=ADDR, what=''):
    try:
        s, r, g = go(ctx)(b'R', bytes([fork, addr]) + struct.pack('<Q', gas), data)
    except Died as e:
        raise Violation('%s: %s' % (what, e))
    check(s != 2, lambda: '%s: panics: %s' % (what, r.decode(errors='replace')))
    check(s != 3, lambda: '%s: %s' % (what, r.decode(errors='replace')))
    return s, r, struct.unpack('<Q', g)[0]


def w(x):
    return (x % 2 ** 256).to_bytes(32, 'big')


def tail(b, pad=True):
    return w(len(b)) + b + (bytes(-len(b) % 32) if pad else b'')


def encode(args, order=(0, 1, 2), gap=b'', pad=True):
    off, parts, pos = [0, 0, 0], [], 96
    for i in order:
        parts.append(gap)
        pos += len(gap)
        off[i] = pos
        t = tail(args[i], pad)
        parts.append(t)
        pos += len(t)
    return b''.join(map(w, off)) + b''.join(parts)


def decode(d):
    """three byte strings or None, with go-ethereum's rules: offsets of any alignment, no rule for padding or what follows"""
    out = []
    for i in range(3):
        if len(d) < 32 * i + 32:
            return None
        o = int.from_bytes(d[32 * i:32 * i + 32], 'big')
        if o + 32 > len(d):
            return None
        n = int.from_bytes(d[o:o + 32], 'big')
        if o + 32 + n > len(d):
            return None
        out.append(d[o + 32:o + 32 + n])
    return out


def expected(d):
    a = decode(d)
    if a is None or len(a[2]) != PK:
        return a, False
    return a, ref_open('nist', 'shake', a[0], a[2]) == a[1]


def judge(ctx, d, what, fork=PRAGUE):
    a, want = expected(d)
    s, r, g = ask(ctx, d, what=what, fork=fork)
    check(s in (0, 1), '%s: status %d' % (what, s))
    check(0 < g < 2 ** 40, '%s: price %d' % (what, g))
    one = s == 0 and r == w(1)
    if want:
        check(one, '%s: a valid signature of a message of %d bytes is refused (%s)' % (what, len(a[1]), 'error: ' + r.decode(errors='replace') if s else r.hex()))
    else:
        check(not one, '%s: accepted' % what)
        check(s == 1 or r == w(0), '%s: returns %s' % (what, r.hex()[:80]))
    return want, s


def triple(ctx, k, msg):
    def mk():
        sk = key(ctx, k)['sk']
        r, sm, _ = lib(ctx).sign('nist', msg, sk, rb=ubytes('g02', k * 1000 + len(msg), 88))
        check(r == 0, 'the C library does not sign')
        return sm
    return [ctx.get(('t', k, msg[:80], len(msg)), mk), msg, key(ctx, k)['pk']]


def flip(b, x):
    if not b:
        return b'\x01'
    x %= 8 * len(b)
    return b[:x // 8] + bytes([b[x // 8] ^ (1 << (x % 8))]) + b[x // 8 + 1:]


def run_valid(ctx, case):
    msg = unblob(case['msg'])
    a = triple(ctx, case['key'], msg)
    fork = VERKLE if case['x'] % 8 == 0 else PRAGUE
    rng = Rng('g02v', case['x'])
    d = encode(a, *[((0, 1, 2),), ((2, 1, 0),), ((1, 0, 2), rng.bytes(32)), ((0, 2, 1), rng.bytes(case['x'] % 50)), ((0, 1, 2), b'', False)][case['form']])
    d += [b'', rng.bytes(case['x'] % 100), bytes(32)][case['x'] % 3]
    want, _ = judge(ctx, d, 'valid signature, message of %d bytes, form %d' % (len(msg), case['form']), fork)
    check(want, 'the reference refuses an honest signature')
    return ['!valid', 'form %d' % case['form'], 'long' if len(msg) > 600 else 'short']


def run_alter(ctx, case):
    msg = unblob(case['msg'])
    a = triple(ctx, case['key'], msg)
    rng = Rng('g02a', case['seed'])
    k, x = case['k'], case['x']
    i = case['arg']
    before = x % 2 == 0 and len(msg) > 0
    a0 = list(a)
    if before:
        judge(ctx, encode(a0), 'valid signature')
    if k == 'bit':
        a[i] = flip(a[i], x)
    elif k == 'cut':
        a[i] = a[i][:x % (len(a[i]) + 1)]
    elif k == 'extend':
        a[i] = a[i] + [bytes(1 + x % 64), rng.bytes(1 + x % 64)][x % 2]
    elif k == 'empty':
        a[i] = b''
    elif k == 'random':
        a[i] = rng.bytes([x % 3000, len(a[i])][x % 2])
    elif k == 'swap':
        a = [a[j] for j in [(0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)][x % 5]]
    elif k == 'same':
        a[i] = a[(i + 1) % 3]
    elif k == 'other':
        b = triple(ctx, (case['key'] + 1 + x % 3) % 5, msg if x % 2 else msg + b'.')
        a[i] = b[i]
    elif k == 'bundle':
        # consistent change of the message inside the bundle and the argument
        sm = a[0]
        m2 = flip(msg, x >> 1) if msg else b''
        a[0] = sm[:42] + m2 + sm[42 + len(msg):]
        a[1] = m2
    elif k == 'length field':
        v = [x, 0, 1, 65535, len(a[0]), len(a[0]) - 42, len(a[0]) - 41, len(msg)][x % 8]
        a[0] = struct.pack('>H', v % 65536) + a[0][2:]
    elif k == 'coefficient':
        # a key coefficient not below q, congruent to the right one
        v = []
        bits = ''.join(format(c, '08b') for c in a[2][1:])
        v = [int(bits[14 * j:14 * j + 14], 2) for j in range(512)]
        c = [j for j in range(512) if v[j] + 12289 < 16384]
        j = c[x % len(c)]
        v[j] += 12289
        a[2] = a[2][:1] + int(''.join(format(c, '014b') for c in v), 2).to_bytes(896, 'big')
    want, s = judge(ctx, encode(a), k + (' of argument %d' % i))
    if before:
        judge(ctx, encode(a0), 'valid signature after another call (%s)' % k)
    return ['valid' if want else '!' + k, 'error' if s else 'answer']


def near(rng, x, n):
    return [0, 1, 31, 32, 64, 95, 96, n, n - 32, n - 31, n - 33, n - 64, n + 1, 2 ** 31, 2 ** 32, 2 ** 63 - 33, 2 ** 63 - 32, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 32, 2 ** 64 - 33, 2 ** 64 - 1,
            2 ** 64, 2 ** 128, 2 ** 255, 2 ** 256 - 1, 2 ** 256 - 32, 2 ** 256 - 64, rng.below(n + 1), rng.below(n + 1), rng.below(1 << 64), 2 ** 64 + 96][x % 32]


def run_abi(ctx, case):
    """offsets and lengths are the caller's choice"""
    msg = unblob(case['msg'])
    a = triple(ctx, case['key'], msg)
    rng = Rng('g02m', case['seed'])
    d = bytearray(encode(a))
    offs = [int.from_bytes(d[32 * i:32 * i + 32], 'big') for i in range(3)]
    words = [0, 32, 64] + offs
    labels = []
    for which, x in case['edits']:
        p = words[which]
        old = int.from_bytes(d[p:p + 32], 'big')
        v = near(rng, x // 4, len(d)) if x % 4 < 2 else old + [1, -1, 32, -32, 2 ** 63, 2 ** 64, 2 ** 255, -2 ** 256][x // 4 % 8] if x % 4 == 2 else offs[x // 4 % 3]
        d[p:p + 32] = w(v)
        labels.append('!offset' if which < 3 else '!length')
    d = bytes(d)
    if case['cut'] is not None:
        c = case['cut']
        d = d[:c] if c < 200 else d[:len(d) - (c - 200)]
        labels.append('!cut')
    if case['pre']:
        d = [b'\x01\x02\x03\x04', bytes(32), w(32)][case['pre'] - 1] + d
        labels.append('!prefix')
    want, s = judge(ctx, d, 'malformed call data of %d bytes' % len(d))
    return labels + ['valid' if want else 'error' if s else 'zero']


def run_random(ctx, case):
    rng = Rng('g02r', case['seed'])
    n = case['n']
    d = bytearray(rng.bytes(n))
    if case['small']:
        for i in range(0, n - 31, 32):
            if rng.below(3):
                d[i:i + 32] = w(rng.below(n + 2))
    want, s = judge(ctx, bytes(d), 'random call data of %d bytes' % n)
    return ['!decodes' if decode(bytes(d)) is not None else '!random' if n >= 96 else 'short']


def run_gas(ctx, case):
    d = encode(triple(ctx, case['key'], unblob(case['msg']))) if case['ok'] else ubytes('gas', case['x'], case['x'] % 4000)
    s, r, g = ask(ctx, d, what='call')
    s2, r2, g2 = ask(ctx, d, gas=g, what='call with the exact price')
    check((s2, r2, g2) == (s, r, g), 'a call with exactly its price answers differently')
    if g:
        s3, _, _ = ask(ctx, d, gas=g - 1, what='call with less than its price')
        check(s3 == 5, 'a call with less gas than its price runs')
        s3, _, _ = ask(ctx, d, gas=case['x'] % g, what='call with less than its price')
        check(s3 == 5, 'a call with less gas than its price runs')
    for fork in range(5):
        s4, _, _ = ask(ctx, d, fork=fork, what='call under an earlier fork')
        check(s4 == 4, 'the precompile answers under the rules of fork %d, before Prague' % fork)
    return ['!price']


def run_parallel(ctx, case):
    ds, want = [], []
    for k, ok, m in case['calls']:
        a = triple(ctx, k, unblob(m))
        if not ok:
            a[1] = flip(a[1], k)
        ds.append(encode(a))
        want.append(ok)
    d = go(ctx)
    try:
        d.send(b'P', bytes([PRAGUE, ADDR]), bytes([len(ds)]), *ds)
        res = []
        for _ in ds:
            s = d.read(1)[0]
            res.append((s, d.blob(), d.blob()))
    except Died as e:
        raise Violation('calls at the same time: %s' % e)
    for (s, r, _), ok in zip(res, want):
        check(s in (0, 1), lambda: 'calls at the same time: %s' % r.decode(errors='replace'))
        check((s == 0 and r == w(1)) == bool(ok), 'calls at the same time: a %s signature gives %s' % ('valid' if ok else 'wrong', r.hex()))
    return ['!parallel' if len(ds) > 1 else 'single']


def msgs(n=1500):
    return st.one_of(blob(n), st.fixed_dictionaries({'n': st.sampled_from([0, 1, 31, 32, 33, 300, 640, 641, 1024, 1025, 5000, 70000]), 's': seeds(8)}))


KEY = st.integers(0, 4)
X = st.integers(0, 2 ** 24)
FACETS = [
    Facet('valid', st.fixed_dictionaries({'key': KEY, 'msg': msgs(), 'form': st.integers(0, 4), 'x': X}), run_valid, 300, 10000, rule='every signature',
          corners=[{'key': 1, 'msg': {'n': n, 's': 3}, 'form': i % 5, 'x': i} for i, n in enumerate([0, 1, 32, 641, 642, 1024, 1025, 5000, 65494, 65536])]),
    Facet('alter', st.fixed_dictionaries({'key': KEY, 'msg': msgs(800), 'arg': st.integers(0, 2), 'seed': seeds(), 'x': X, 'k': st.sampled_from(
        ['bit', 'bit', 'cut', 'extend', 'empty', 'random', 'swap', 'same', 'other', 'bundle', 'length field', 'coefficient'])}), run_alter, 1200, 40000, rule='not valid by the reference',
        corners=[{'key': 1, 'msg': {'n': 20, 's': 3}, 'arg': i % 3, 'seed': i, 'x': i, 'k': k} for k in ('empty', 'length field', 'swap', 'same', 'extend') for i in range(8)]),
    Facet('abi', st.fixed_dictionaries({'key': KEY, 'msg': blob(300), 'seed': seeds(), 'edits': st.lists(st.tuples(st.integers(0, 5), st.integers(0, 255)), max_size=3).map(lambda l: [list(x) for x in l]),
                                        'cut': st.one_of(st.none(), st.integers(0, 400)), 'pre': st.sampled_from([0, 0, 0, 1, 2, 3])}), run_abi, 2500, 100000,
          rule='an offset, a length or the size altered',
          corners=[{'key': 1, 'msg': {'n': 20, 's': 3}, 'seed': 1, 'edits': [[j, 4 * i]], 'cut': None, 'pre': 0} for j in range(6) for i in range(32)] +
                  [{'key': 1, 'msg': {'n': 20, 's': 3}, 'seed': 1, 'edits': [], 'cut': c, 'pre': 0} for c in (0, 1, 31, 32, 64, 95, 96, 97, 127, 128, 201, 213, 231, 232, 233)]),
    Facet('random', st.fixed_dictionaries({'seed': seeds(), 'n': st.integers(0, 3000), 'small': st.booleans().map(int)}), run_random, 400, 20000, rule='at least 96 bytes'),
    Facet('gas', st.fixed_dictionaries({'key': KEY, 'msg': blob(300), 'ok': st.booleans().map(int), 'x': X}), run_gas, 100, 3000, rule='every call'),
    Facet('parallel', st.fixed_dictionaries({'calls': st.lists(st.tuples(KEY, st.integers(0, 1), st.fixed_dictionaries({'n': st.integers(1, 200), 's': seeds(8)})), min_size=1, max_size=24).map(
        lambda l: [list(x) for x in l])}), run_parallel, 60, 3000, rule='two calls or more'),
]
