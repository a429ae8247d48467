"""P05: Python hash streams equal the standard functions for every input/output split."""
import hashlib
from hypothesis import strategies as st
from ..core import Facet, check, sut
from .. import model as M
from .. import pyref
from ..pyprops import *
from ..gen import Rng, blob, unblob, seeds, chunks


def build(b):
    return {}


def setup_worker(ctx):
    pyref.setup()


def rotl(x, s):
    return ((x << s) | (x >> (64 - s))) & (2 ** 64 - 1) if s else x


def f1600(a):
    """independent Keccak-f[1600] from the specification (a[x+5y])."""
    rc = 1
    for _ in range(24):
        c = [a[x] ^ a[x + 5] ^ a[x + 10] ^ a[x + 15] ^ a[x + 20] for x in range(5)]
        a = [a[i] ^ c[(i - 1) % 5] ^ rotl(c[(i + 1) % 5], 1) for i in range(25)]
        b = [0] * 25
        x, y = 1, 0
        b[0] = a[0]
        for t in range(24):
            b[y + 5 * ((2 * x + 3 * y) % 5)] = rotl(a[x + 5 * y], (t + 1) * (t + 2) // 2 % 64)
            x, y = y, (2 * x + 3 * y) % 5
        a = [b[i] ^ (~b[i // 5 * 5 + (i + 1) % 5] & b[i // 5 * 5 + (i + 2) % 5] & (2 ** 64 - 1)) for i in range(25)]
        for j in range(7):
            if rc & 1:
                a[0] ^= 1 << (2 ** j - 1)
            rc = (rc << 1) ^ (0x171 if rc & 0x80 else 0)
    return a


def sponge(data, rate, ds, n):
    """reference sponge for any rate (bytes, multiple of 8 or not)."""
    s = bytearray(200)

    def perm():
        a = f1600([int.from_bytes(s[8 * i:8 * i + 8], 'little') for i in range(25)])
        s[:] = b''.join(x.to_bytes(8, 'little') for x in a)
    p = bytearray(data) + bytes([ds])
    p += b'\x00' * (-len(p) % rate)
    p[-1] ^= 0x80
    for o in range(0, len(p), rate):
        for i in range(rate):
            s[i] ^= p[o + i]
        perm()
    out = b''
    while len(out) < n:
        out += bytes(s[:rate])
        perm()
    return out[:n]


def expected(alg, data, n):
    if alg == 'shake':
        return hashlib.shake_256(data).digest(n)
    if alg == 'keccak':
        return M.keccak_ctr(data, n)
    if alg == 'blake2s':
        return M.blake2s_ctr(data, n)
    if alg == 'keccaxof':
        return keccaxof_stream(data, n)
    raise KeyError(alg)


def run_stream(ctx, case):
    """a history: update calls, flip, read calls on one of the four generators."""
    alg = case['alg']
    data = unblob(case['msg'])[:{'keccak': 4096, 'blake2s': 1024}.get(alg, 140000)]
    parts = chunks(data, case['cuts'])
    X = xof_class(alg)
    with sut('%s.new/update/flip' % alg):
        x = X.new()
        other = X.new()
        for i, p in enumerate(parts):
            x.update(bytearray(p) if case['ba'] and alg in ('keccak', 'blake2s', 'shake') else p)
            if i == 1:
                other.update(b'noise')
        x.flip()
        other.flip()
    reads = case['reads']
    tot = sum(reads)
    exp = expected(alg, data, tot + 64)
    pos = 0
    for r in reads:
        with sut('%s.read(%d)' % (alg, r)):
            g = x.read(r)
            if r % 3 == 0:
                other.read(r)
        check(len(g) == r, '%s.read(%d) returns %d bytes' % (alg, r, len(g)))
        check(bytes(g) == exp[pos:pos + r], '%s: stream differs at offset %d (input %d bytes in %d parts, read of %d)' % (alg, pos, len(data), len(parts), r))
        pos += r
    # refusals
    if alg in ('keccak', 'blake2s'):
        for f, nm in ((lambda: x.update(b'z'), 'update after flip'), (lambda: x.flip(), 'flip twice')):
            try:
                f()
            except ValueError:
                pass
            else:
                check(False, '%s: %s is not refused' % (alg, nm))
        with sut('read after refusal'):
            check(bytes(x.read(3)) == exp[pos:pos + 3], alg + ': a refused call changed the stream')
        y = X.new()
        y.update(data)
        try:
            y.read(4)
        except ValueError:
            pass
        else:
            check(False, alg + ': read before flip is not refused')
        with sut('flip'):
            y.flip()
            check(bytes(y.extract(5)) == exp[:5], alg + ': a refused read changed the stream')
    elif alg == 'keccaxof' and tot:
        try:
            x.update(b'z')
        except ValueError:
            pass
        else:
            check(False, 'keccaxof: update after read is not refused')
        with sut('read after refusal'):
            check(bytes(x.read(3)) == exp[pos:pos + 3], 'keccaxof: a refused call changed the stream')
    return ['!' + alg]


def strat_stream(ctx=None):
    return st.fixed_dictionaries({'alg': st.sampled_from(XOFS), 'msg': blob(5000, top=140000, rate=80), 'cuts': st.lists(st.integers(0, 6000), max_size=6),
                                  'reads': st.lists(st.one_of(st.sampled_from([0, 1, 2, 31, 32, 33, 63, 64, 65, 135, 136, 137, 272, 8, 40, 48, 56]), st.integers(0, 300)), max_size=9),
                                  'ba': st.booleans()})


def corners_stream(ctx):
    out = []
    for alg in XOFS:
        for n in (0, 1, 134, 135, 136, 137, 271, 272, 1023, 1024, 4095, 4096):
            out.append({'alg': alg, 'msg': {'n': n, 's': 5}, 'cuts': [n // 2, n], 'reads': [136, 1, 2, 200], 'ba': False})
        out.append({'alg': alg, 'msg': {'n': 70, 's': 5}, 'cuts': [], 'reads': [9000], 'ba': False})
        if alg not in ('keccak', 'blake2s'):
            out.append({'alg': alg, 'msg': {'n': 65600, 's': 6}, 'cuts': [], 'reads': [40], 'ba': False})
            out.append({'alg': alg, 'msg': {'n': 132000, 's': 7}, 'cuts': [65600], 'reads': [40], 'ba': True})
        out.append({'alg': alg, 'msg': {'n': 70, 's': 5}, 'cuts': [], 'reads': [2] * 700, 'ba': True})
    return out


def run_limit(ctx, case):
    """the counter generators refuse what does not fit their buffer, and remain usable."""
    alg = case['alg']
    lim = {'keccak': 4096, 'blake2s': 1024}[alg]
    X = xof_class(alg)
    a = (lim - case['a']) % (lim + 1)
    d1 = Rng('lim', a).bytes(a)
    extra = case['b']
    with sut(alg + '.update'):
        x = X.new()
        x.update(d1)
    try:
        x.update(b'\x5a' * extra)
        took = True
    except ValueError:
        took = False
    check(took == (a + extra <= lim), '%s: %d more bytes after %d are %s' % (alg, extra, a, 'accepted' if took else 'refused'))
    with sut(alg):
        x.flip()
        check(bytes(x.read(40)) == expected(alg, d1 + (b'\x5a' * extra if took else b''), 40), '%s: wrong stream after a %s update' % (alg, 'full' if took else 'refused'))
    return ['!took' if took else '!refused']


def strat_limit(ctx=None):
    return st.fixed_dictionaries({'alg': st.sampled_from(['keccak', 'blake2s']), 'a': st.integers(0, 5000), 'b': st.one_of(st.integers(0, 5), st.integers(0, 5000))})


def run_sponge(ctx, case):
    """the Keccak sponge class for other rates and domain bytes; SHA-3 and Keccak-256."""
    K = pyref.mod('keccak')
    data = unblob(case['msg'])
    rate, ds = case['rate'], case['ds']
    n = case['n']
    parts = chunks(data, case['cuts'])
    first = parts[0] if case['init'] else b''
    with sut('KeccakHash(rate=%d, dsbyte=%d)' % (rate, ds)):
        k = K.KeccakHash(first, rate=rate, dsbyte=ds) if first else K.KeccakHash(rate=rate, dsbyte=ds)
        for i, p in enumerate(parts[1 if case['init'] else 0:]):
            (k.update if i % 2 else k.absorb)(p)
        k.pad()
        a = n // 3
        got = k.squeeze(a) + k.squeeze(n - a)
    check(len(got) == n, 'squeeze returns %d bytes, not %d' % (len(got), n))
    if rate == 136 and ds == 0x1f:
        exp = hashlib.shake_256(data).digest(n)
    elif rate == 168 and ds == 0x1f:
        exp = hashlib.shake_128(data).digest(n)
    elif rate == 136 and ds == 6 and n <= 32:
        exp = hashlib.sha3_256(data).digest()[:n]
    elif rate == 72 and ds == 6 and n <= 64:
        exp = hashlib.sha3_512(data).digest()[:n]
    elif rate == 136 and ds == 1 and n <= 32:
        exp = M.keccak256(data)[:n]
    else:
        exp = sponge(data, rate, ds, n)
    check(got == exp, 'sponge with rate %d, domain byte %d: wrong output for %d bytes in %d parts' % (rate, ds, len(data), len(parts)))
    # SHAKE class with a first chunk in the constructor
    S = pyref.mod('shake').SHAKE
    with sut('SHAKE.new(data)'):
        s = S.new(first) if first else S.new()
        for p in parts[1 if case['init'] else 0:]:
            s.update(p)
        s.flip()
        g = s.read(n)
    check(g == hashlib.shake_256(data).digest(n), 'SHAKE.new(data): wrong stream')
    return ['!std' if rate in (136, 168, 72) and ds in (0x1f, 6, 1) else '!other']


def strat_sponge(ctx=None):
    return st.fixed_dictionaries({'msg': blob(700), 'rate': st.sampled_from([136, 136, 168, 72, 104, 144, 8, 199, 40, 1]), 'ds': st.sampled_from([0x1f, 0x06, 0x01, 0x04, 0x80]),
                                  'n': st.sampled_from([0, 1, 20, 32, 64, 135, 136, 137, 300]), 'cuts': st.lists(st.integers(0, 800), max_size=4), 'init': st.booleans()})


def corners_sponge(ctx):
    return [{'msg': {'n': n, 's': 4}, 'rate': r, 'ds': d, 'n': 32, 'cuts': c, 'init': i} for r in (136, 72) for d in (1, 6, 0x1f) for n in (0, r - 1, r, r + 1, 2 * r)
            for c, i in (([], False), ([r], True))]


def run_perm(ctx, case):
    import numpy as np
    K = pyref.mod('keccak')
    r = Rng('perm', case['s'])
    v = [r.choice([0, 2 ** 64 - 1, 1 << r.below(64), r.below(2 ** 64), r.below(2 ** 64)]) for _ in range(25)]
    with sut('Keccak.F1600'):
        k = K.Keccak()
        k.state = np.array(v, dtype=np.uint64)
        k.F1600()
        got = [int(x) for x in k.state]
    check(got == f1600(v), 'Keccak-f[1600] is wrong on a state')
    return ['!']


def run_long(ctx, case):
    """outputs of many blocks, in reads of uneven size."""
    alg, n = case['alg'], case['n']
    n = min(n, {'shake': 6000, 'blake2s': 60000}.get(alg, n))
    data = unblob(case['data'])
    exp = expected(alg, data, n)
    with sut('%s.new/update/flip' % alg):
        x = xof_class(alg).new()
        x.update(data)
        x.flip()
    rng = Rng('p05long', case['s'])
    pos = 0
    while pos < n:
        k = min(n - pos, case['step'] + rng.below(70))
        with sut('%s.read(%d)' % (alg, k)):
            g = bytes(x.read(k))
        check(g == exp[pos:pos + k], '%s: stream differs in bytes %d to %d' % (alg, pos, pos + k))
        pos += k
    return ['!%s 2^%d' % (alg, n.bit_length() - 1)]


def block(alg, state, i):
    h = M.keccak256 if alg == 'keccak' else lambda b: hashlib.blake2s(b).digest()
    return h(state + i.to_bytes(8, 'big'))


def run_counter(ctx, case):
    """the block counter has 64 bits (the counter is set directly; left out when that has no known effect)."""
    alg = case['alg']
    data = unblob(case['data'])
    state = M.keccak256(data) if alg == 'keccak' else hashlib.blake2s(data).digest()

    def at(i, k):
        x = xof_class(alg).new()
        x.update(data)
        x.flip()
        if getattr(x, 'counter', None) != 0:
            return None
        x.counter = i
        return bytes(x.read(k))
    try:
        ok = at(5, 40) == (block(alg, state, 5) + block(alg, state, 6))[:40]
    except Exception:
        ok = False
    if not ok:
        return ['no counter']
    v = min(max((1 << case['bit']) + case['d'], 0), 2 ** 64 - 4)
    with sut('%s.read at block %d' % (alg, v)):
        g = at(v, 96)
    check(g == b''.join(block(alg, state, v + i) for i in range(3)), '%s: block %d or a following one is not the hash of state and counter' % (alg, v))
    return ['!%s bit %d' % (alg, case['bit'])]


FACETS = [
    Facet('long', lambda ctx: st.fixed_dictionaries({'alg': st.sampled_from(XOFS), 'data': blob(200), 'n': st.sampled_from([9000, 40000, 140000]),
                                                     's': seeds(), 'step': st.sampled_from([1, 30, 32, 500, 5000])}), run_long, 60, 1500,
          [{'alg': 'keccak', 'data': {'n': 40, 's': 3}, 'n': 2 ** 21 + 300, 's': 1, 'step': 70000},
           {'alg': 'keccaxof', 'data': {'n': 40, 's': 3}, 'n': 2 ** 21 + 300, 's': 1, 'step': 7000}], rule='long outputs; all non-trivial'),
    Facet('counter', lambda ctx: st.fixed_dictionaries({'alg': st.sampled_from(['keccak', 'blake2s']), 'data': blob(100), 'bit': st.integers(3, 63),
                                                        'd': st.integers(-3, 2)}), run_counter, 300, 5000,
          [{'alg': a, 'data': {'n': 40, 's': 3}, 'bit': b, 'd': -1} for a in ('keccak', 'blake2s') for b in (8, 16, 24, 31, 32, 48, 63)],
          rule='blocks at a counter set directly; non-trivial when it could be set'),
    Facet('stream', strat_stream, run_stream, 2500, 50000, corners_stream, rule='update/flip/read histories on the four generators; all non-trivial'),
    Facet('limit', strat_limit, run_limit, 1500, 20000, [{'alg': a, 'a': x, 'b': b} for a in ('keccak', 'blake2s') for x in (0, 1, 2) for b in (0, 1, 2, 3)],
          rule='buffer limits of the counter generators'),
    Facet('sponge', strat_sponge, run_sponge, 1000, 20000, corners_sponge, rule='sponge class over rates, domain bytes and splits'),
    Facet('permutation', lambda ctx: st.fixed_dictionaries({'s': seeds()}), run_perm, 800, 20000, rule='Keccak-f[1600] on arbitrary states'),
]
