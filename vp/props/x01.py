"""X01: hash-to-point is one function in C, Python and Solidity."""
import ctypes as C
import hashlib
import io
from hypothesis import strategies as st
from ..core import Facet, check, sut
from .. import model as M
from .. import pyref
from ..clib import Lib
from ..cprops import lib
from ..gen import Rng, blob, unblob, chunks, seeds, ubytes
from ..pyprops import DEGREES, XOFS, xof_class, h2p, keccaxof_stream
from ..solprops import build_sol, has, hook, value
from ..solprops import ints as ints_

CAP = 4096      # documented capacity of the Keccak generator
ASSUMPTIONS = ['The constant-time variant over-samples a fixed number of words; streams in which more words than that are rejected '
               '(probability below 2^-256) are outside the property.']


def build(b):
    a = {'lib': b.clib('nist', 'eth'), 'fake': b.fakexof()}
    a.update(build_sol(b, 'HashToPoint'))
    return a


def setup_worker(ctx):
    pyref.setup()


# ---- calls --------------------------------------------------------------------------------------
def c_hash(ctx, kind, parts, logn, var='nist'):
    """kind: vartime, ct, keccak"""
    d = lib(ctx, var).d
    n = 1 << logn
    x = C.create_string_buffer(b'\x77' * (2 * n + 16), 2 * n + 16)
    if kind == 'keccak':
        kc = C.create_string_buffer(b'\xAB' * d.vp_sizeof_keccak_prng(), d.vp_sizeof_keccak_prng())
        check(d.vp_kp_init(kc) == 0, 'Keccak generator: init failed')
        for p in parts:
            check(d.vp_kp_inject(kc, p, C.c_size_t(len(p))) == 0, 'Keccak generator: absorb refused')
        check(d.vp_kp_flip(kc) == 0, 'Keccak generator: flip refused')
        d.falcon_inner_keccak_hash_to_point_vartime(kc, x, C.c_uint(logn))
    else:
        sc = C.create_string_buffer(b'\xAB' * d.vp_sizeof_shake(), d.vp_sizeof_shake())
        d.vp_shake_init(sc)
        for p in parts:
            d.vp_shake_inject(sc, p, C.c_size_t(len(p)))
        d.vp_shake_flip(sc)
        c_point(d, kind, sc, x, logn)
    check(x.raw[2 * n:] == b'\x77' * 16, 'C %s hash-to-point wrote past its %d coefficients' % (kind, n))
    return vals(x.raw, n)


def vals(raw, n):
    return [int.from_bytes(raw[2 * i:2 * i + 2], 'little') for i in range(n)]


def c_point(d, kind, sc, x, logn):
    if kind == 'vartime':
        d.falcon_inner_hash_to_point_vartime(sc, x, C.c_uint(logn))
    elif kind == 'keccak':
        d.falcon_inner_keccak_hash_to_point_vartime(sc, x, C.c_uint(logn))
    else:
        t = C.create_string_buffer(b'\x55' * (2 << logn), (2 << logn) + 8)
        d.falcon_inner_hash_to_point_ct(sc, x, C.c_uint(logn), t)


def same(got, want, what):
    if list(got) != list(want):
        n = len(want)
        check(len(got) == n, '%s returns %d coefficients' % (what, len(got)))
        i = next(i for i in range(n) if got[i] != want[i])
        check(False, '%s: coefficient %d is %d, not %d' % (what, i, got[i], want[i]))


def stream(kind, data, k):
    return {'shake': lambda: hashlib.shake_256(data).digest(k), 'keccak': lambda: M.keccak_ctr(data, k),
            'blake2s': lambda: M.blake2s_ctr(data, k), 'keccaxof': lambda: keccaxof_stream(data, k)}[kind]()


def words(b):
    return [(b[i] << 8) | b[i + 1] for i in range(0, len(b) - 1, 2)]


def labels(kind, data, n):
    """what happens at the edges of the rejection rule among the words read"""
    w = words(stream(kind, data, 2 * n + n // 2 + 128))
    used, i = 0, 0
    while i < len(w) and used < n:
        used += w[i] < 61445
        i += 1
    w = w[:i]
    out = ['!' + kind]
    if i > n:
        out.append('rejection')
    if 61445 in w:
        out.append('word 61445')
    if 61444 in w:
        out.append('word 61444')
    if any(x % M.Q == 0 for x in w):
        out.append('zero coefficient')
    return out


# ---- each implementation on sampled inputs -------------------------------------------------------
def cut(case, data):
    return chunks(data, case['cuts'])


def run_c(ctx, case):
    salt, msg = unblob(case['salt']), unblob(case['msg'])
    data = salt + msg
    if case['kind'] == 'keccak':
        data = data[:CAP]
    kind = 'keccak' if case['kind'] == 'keccak' else 'shake'
    n = 1 << case['logn']
    want = M.h2p(kind, b'', data, n)
    got = c_hash(ctx, case['kind'], cut(case, data), case['logn'])
    same(got, want, 'C %s hash-to-point (logn %d)' % (case['kind'], case['logn']))
    return labels(kind, data, n) + ['logn %d' % case['logn'], case['kind']]


class Xof:
    """stands for a hash in the Python code: a stream given by the check"""

    def __init__(self, s):
        self.s = s
        self.p = 0
        self.data = b''

    def new(self):
        self.p, self.data = 0, b''
        return self

    def update(self, b):
        self.data += bytes(b)

    def flip(self):
        pass

    def read(self, k):
        x = self.s[self.p:self.p + k]
        self.p += k
        return x + bytes(k - len(x))


def run_py(ctx, case):
    salt, msg = unblob(case['salt']), unblob(case['msg'])
    kind, n = case['kind'], case['n']
    if kind == 'keccak':
        salt, msg = salt[:CAP], msg[:max(0, CAP - len(salt[:CAP]))]
    if kind == 'blake2s':
        msg = msg[:1024 - 32]
    want = h2p(kind, salt, msg, n)
    with sut('hash_to_point (%s)' % kind):
        got = ints_(pyref.mod('falcon').hash_to_point(n, msg, salt, xof=xof_class(kind)))
    same(got, want, 'Python hash_to_point (%s, n = %d)' % (kind, n))
    d = hashlib.blake2s(salt).digest() + msg if kind == 'blake2s' else salt + msg
    return labels(kind, d, n) + ['n %d' % n]


SOL = {'shake': 'hashToPointNIST(bytes,bytes)', 'keccak': 'hashToPointEVM(bytes,bytes)', 'keccaxof': 'hashToPointTETRATION(bytes,bytes)'}


def sol_hash(ctx, kind, salt, msg):
    f = SOL[kind]
    return ints_(value(hook(ctx, f, salt, msg), ['uint256[]'], f))


def run_sol(ctx, case):
    salt, msg = unblob(case['salt']), unblob(case['msg'])
    kind = case['kind']
    if not has(ctx, SOL[kind]):
        return ['no ' + SOL[kind]]
    data = msg + salt if kind == 'keccaxof' else salt + msg     # the demonstration variant hashes the message first
    want = M.h2p_stream(lambda k: stream(kind, data, k), 512)
    same(sol_hash(ctx, kind, salt, msg), want, 'Solidity ' + SOL[kind])
    return labels(kind, data, 512) + (['salt of 40 bytes'] if len(salt) == 40 else [])


# ---- one input through all -----------------------------------------------------------------------
def hunt(kind, salt, seed, word, tries):
    """message whose stream holds this word among the first 512"""
    m = b''
    for i in range(tries):
        m = ubytes('hunt', '%d/%d' % (seed, i), 32)
        w = stream(kind, salt + m, 1024)
        p = w.find(word.to_bytes(2, 'big'))
        while p >= 0:
            if p % 2 == 0:
                return m, True
            p = w.find(word.to_bytes(2, 'big'), p + 1)
    return m, False


def run_all(ctx, case):
    kind = case['kind']
    salt = ubytes('salt', case['s'], 40)
    out = []
    if case['word'] is None:
        msg = unblob(case['msg'])
        if kind == 'keccak':
            msg = msg[:CAP - 40]
    else:
        msg, ok = hunt(kind, salt, case['s'], case['word'], 400 if kind == 'shake' else 60)
        if ok:
            out.append('word %d met' % case['word'])
    want = M.h2p(kind, salt, msg, 512)
    data = salt + msg
    parts = [salt, msg]
    for v in ('nist', 'eth'):
        for k in (['keccak'] if kind == 'keccak' else ['vartime', 'ct']):
            same(c_hash(ctx, k, parts, 9, v), want, 'C %s hash-to-point' % k)
    with sut('hash_to_point (%s)' % kind):
        got = ints_(pyref.mod('falcon').hash_to_point(512, msg, salt, xof=xof_class(kind)))
    same(got, want, 'Python hash_to_point (%s)' % kind)
    if has(ctx, SOL[kind]):
        same(sol_hash(ctx, kind, salt, msg), want, 'Solidity ' + SOL[kind])
    else:
        out.append('no ' + SOL[kind])
    return out + labels(kind, data, 512)


# ---- chosen streams -------------------------------------------------------------------------------
OVER = {1: 65, 2: 67, 3: 71, 4: 77, 5: 86, 6: 100, 7: 122, 8: 154, 9: 205, 10: 287}
EDGE = [0, 1, 12288, 12289, 12290, 24577, 24578, 24579, 36866, 36867, 49155, 49156, 49157, 61443, 61444]
BAD = [61445, 61446, 61447, 65534, 65535, 62000]


def make_stream(case, logn):
    """n acceptable words and at most OVER rejected ones, placed as the case says; then acceptable filler"""
    n = 1 << logn
    r = Rng('stream', case['s'])
    good = [r.choice(EDGE) if case['edge'] and r.below(2) else r.below(61445) for _ in range(n)]
    nb = [0, 1, 2, OVER[logn], OVER[logn] - 1, r.below(OVER[logn] + 1), r.below(OVER[logn] + 1)][case['nb'] % 7]
    bad = [r.choice(BAD) if r.below(2) else 61445 + r.below(4091) for _ in range(nb)]
    k = case['lay']
    if k == 'first':
        w = bad + good
    elif k == 'last':
        w = good[:-1] + bad + good[-1:]
    elif k == 'alt':
        w, b = [], list(bad)
        for g in good:
            w += ([b.pop()] if b else []) + [g]
        w = b + w
    elif k == 'run':
        p = r.below(n + 1)
        w = good[:p] + bad + good[p:]
    else:
        w = good + bad
        idx = list(range(len(w) - 1))
        for i in range(len(idx) - 1, 0, -1):
            j = r.below(i + 1)
            idx[i], idx[j] = idx[j], idx[i]
        # order of acceptable words is whatever it turns out to be; the last word is acceptable
        last = w.pop(n - 1)
        w = [w[i] for i in idx] + [last]
    want = [x % M.Q for x in w if x < 61445][:n]
    w += [r.below(61445) for _ in range(n + OVER[logn] + 8 - len(w))]
    return b''.join(x.to_bytes(2, 'big') for x in w), want, nb


def run_cstream(ctx, case):
    logn = case['logn']
    L = ctx.get('fake', lambda: Lib(ctx.art['fake']))
    d = L.d
    s, want, nb = make_stream(case, logn)
    n = 1 << logn
    kind = case['kind']
    size = d.vp_sizeof_keccak_prng() if kind == 'keccak' else d.vp_sizeof_shake()
    c = C.create_string_buffer(b'\x00' * size, size)
    if kind == 'keccak':
        d.vp_kp_init(c)
        d.vp_kp_flip(c)
    else:
        d.vp_shake_init(c)
        d.vp_shake_flip(c)
    x = C.create_string_buffer(b'\x77' * (2 * n + 16), 2 * n + 16)
    buf = C.create_string_buffer(s, len(s))
    d.vp_fake_set(buf, C.c_size_t(len(s)))
    c_point(d, kind, c, x, logn)
    if C.c_ulong.in_dll(d, 'vp_fake_calls').value == 0:
        return ['squeeze function not replaceable']
    check(x.raw[2 * n:] == b'\x77' * 16, 'C %s hash-to-point wrote past its %d coefficients' % (kind, n))
    same(vals(x.raw, n), want, 'C %s hash-to-point on a chosen stream (logn %d, %d words rejected)' % (kind, logn, nb))
    return ['!' + kind, 'logn %d' % logn, 'no rejection' if not nb else 'all rejections allowed' if nb == OVER[logn] else 'rejections', case['lay']]


def run_pystream(ctx, case):
    logn = case['logn']
    s, want, nb = make_stream(case, logn)
    x = Xof(s)
    with sut('hash_to_point on a chosen stream'):
        got = ints_(pyref.mod('falcon').hash_to_point(1 << logn, b'message', b'salt', xof=x))
    same(got, want, 'Python hash_to_point on a chosen stream (n = %d, %d words rejected)' % (1 << logn, nb))
    check(x.data == b'saltmessage', 'Python hash_to_point absorbs %r, not salt then message' % x.data)
    return ['!chosen', 'n %d' % (1 << logn)]


def run_split(ctx, case):
    f = 'splitToHex(bytes32)'
    if not has(ctx, f):
        return ['no ' + f]
    b = bytes.fromhex(case['x'])
    x = ints_(value(hook(ctx, f, b), ['uint16[16]'], f))
    check(x == words(b), 'splitToHex(%s) is not the 16 words in order' % case['x'])
    return ['!split']


SALT = st.one_of(st.fixed_dictionaries({'n': st.just(40), 's': seeds(20)}), blob(200))
CUTS = st.lists(seeds(16), max_size=4)
STREAM = {'s': seeds(24), 'edge': st.booleans(), 'nb': st.integers(0, 6), 'lay': st.sampled_from(['first', 'last', 'alt', 'run', 'mix', 'mix'])}
FACETS = [
    Facet('c', st.fixed_dictionaries({'kind': st.sampled_from(['vartime', 'ct', 'keccak']), 'logn': st.integers(1, 10), 'salt': SALT,
                                      'msg': blob(4500, top=2200000), 'cuts': CUTS}), run_c, 4000, 150000, rule='every input',
          corners=[{'kind': k, 'logn': 9, 'salt': {'n': 40, 's': 5}, 'msg': {'n': n, 's': 2}, 'cuts': [n // 3]} for n in range(280) for k in ('vartime', 'ct', 'keccak')]),
    Facet('c-stream', st.fixed_dictionaries(dict(STREAM, kind=st.sampled_from(['vartime', 'ct', 'ct', 'keccak']), logn=st.integers(1, 10))),
          run_cstream, 4000, 150000, rule='every stream that replaced the hash',
          corners=[{'s': i, 'edge': True, 'nb': i % 7, 'lay': l, 'kind': k, 'logn': g} for i in range(7) for g in range(1, 11)
                   for l in ('first', 'last', 'alt', 'run', 'mix') for k in ('vartime', 'ct')]),
    Facet('python', st.fixed_dictionaries({'kind': st.sampled_from(XOFS), 'n': st.sampled_from(DEGREES + [512, 512]), 'salt': SALT,
                                           'msg': blob(4500, top=70000, rate=60)}), run_py, 1200, 40000, rule='every input',
          corners=[{'kind': k, 'n': 64, 'salt': {'n': 40, 's': 5}, 'msg': {'n': n, 's': 2}} for n in range(280) for k in ('shake', 'keccak')]),
    Facet('py-stream', st.fixed_dictionaries(dict(STREAM, logn=st.integers(1, 10))), run_pystream, 1500, 40000, rule='every stream'),
    Facet('solidity', st.fixed_dictionaries({'kind': st.sampled_from(['shake', 'keccak', 'keccak', 'keccaxof']), 'salt': SALT, 'msg': blob(2000, top=70000)}),
          run_sol, 1500, 60000, rule='every input'),
    Facet('all', st.fixed_dictionaries({'kind': st.sampled_from(['shake', 'keccak']), 's': seeds(24), 'msg': blob(4000, top=70000, rate=60),
                                        'word': st.sampled_from([None, 61445, 61444, 61446, 65535, 49156])}), run_all, 800, 30000, rule='every input'),
    Facet('split', st.fixed_dictionaries({'x': st.binary(min_size=32, max_size=32).map(lambda b: b.hex())}), run_split, 300, 5000, rule='every word'),
]
