"""Helpers shared by the Python properties."""
import json
import os
import hashlib
from . import model as M
from . import pyref
from .core import VERIF, check, sut
from .gen import Rng, seeds, ubytes

DEGREES = [2, 4, 8, 16, 32, 64, 128, 256, 512, 1024]
LOGN = {n: i + 1 for i, n in enumerate(DEGREES)}
SIGLEN = {2: 44, 4: 47, 8: 52, 16: 63, 32: 82, 64: 122, 128: 200, 256: 356, 512: 666, 1024: 1280}
_corpus = {}


def polys(n, i):
    """[f, g, F, G] number i of the committed key corpus."""
    if not _corpus:
        _corpus.update({int(k): v for k, v in json.load(open(os.path.join(VERIF, 'vp', 'data', 'keys.json'))).items()})
    l = _corpus[n]
    return [list(x) for x in l[i % len(l)]]


def h_of(n, i):
    f, g, _, _ = polys(n, i)
    return [int(x) for x in M.divq(g, f)]


XOFS = ['shake', 'keccak', 'keccaxof', 'blake2s']


def xof_class(name):
    return {'shake': lambda: pyref.mod('shake').SHAKE, 'keccak': lambda: pyref.mod('keccak_prng').KeccakPRNG,
            'keccaxof': lambda: pyref.mod('keccaxof').KeccaXOF, 'blake2s': lambda: pyref.mod('blake2s_prng').Blake2sPRNG}[name]()


def maxmsg(name):
    return {'shake': 70000, 'keccak': 4096 - 40, 'keccaxof': 70000, 'blake2s': 1024 - 32}[name]


def keccaxof_stream(data, k):
    out = M.keccak256(data)
    last = out
    while len(out) < k:
        last = M.keccak256(last)
        out += last
    return out[:k]


def h2p(name, salt, msg, n):
    """reference hash-to-point for each hash variant of the Python code."""
    if name == 'blake2s':
        salt = hashlib.blake2s(salt).digest()
    if name == 'keccaxof':
        return M.h2p_stream(lambda k: keccaxof_stream(salt + msg, k), n)
    return M.h2p(name, salt, msg, n)


def py_decode(b, slen, n):
    """reference decompression: values or None; b may be shorter than slen (zero padding implied)."""
    if len(b) > slen:
        return None
    bits = bin(int.from_bytes(b'\x01' + b, 'big'))[3:]
    p, vals = 0, []
    for _ in range(n):
        if p + 8 > len(bits):
            return None
        s, m = bits[p] == '1', int(bits[p + 1:p + 8], 2)
        j = bits.find('1', p + 8)
        if j < 0:
            return None
        m += (j - p - 8) << 7
        p = j + 1
        if s and m == 0:
            return None
        vals.append(-m if s else m)
    return None if '1' in bits[p:] else vals


def py_encode(v, slen):
    """reference compression of an integer vector (any magnitude) to exactly slen bytes, or None."""
    b = M.comp_bits(v)
    if len(b) > 8 * slen:
        return None
    return M.bits_to_bytes(b.ljust(8 * slen, '0')) if slen else b''


def py_accept(n, h, msg, sig, xof):
    """reference verification of a Python signature."""
    if len(sig) < 1 or sig[0] not in (0x20 + LOGN[n], 0x30 + LOGN[n]) or len(sig) > SIGLEN[n]:
        return False
    v = py_decode(sig[41:], SIGLEN[n] - 41, n)
    if v is None:
        return False
    c = h2p(xof, sig[1:41], msg, n)
    if max(map(abs, v)) > 20000:
        return False
    s1 = M.centered([a - b for a, b in zip(c, M.mulq(v, h))])
    return M.norm2(s1, v) <= M.BOUND[n]


class Stream:
    """random source: SHAKE-128 of a seed, recording the sizes drawn."""

    def __init__(self, *seed):
        self.r = Rng(*seed)
        self.sizes = []

    def __call__(self, k):
        self.sizes.append(k)
        return self.r.bytes(k)


def sk_obj(ctx, n, i, cls='SecretKey', modname='falcon'):
    return ctx.get(('pysk', n, i, cls), lambda: getattr(pyref.mod(modname), cls)(n, polys(n, i)))


def pk_obj(ctx, n, i):
    return ctx.get(('pypk', n, i), lambda: pyref.mod('falcon').PublicKey(n, h_of(n, i)))


def quiet_setup():
    pyref.setup()


def bad_preimages(sk, n, k, c, kinds, rng):
    """lattice points of the coset of c which a signer must not use: 'long' (squared norm just above the bound)
    and 'noninv' (within the bound, s1 zero in exactly one NTT slot).  None when not found."""
    f, g = polys(n, k)[:2]
    f, g = [int(x) for x in f], [int(x) for x in g]
    h = h_of(n, k)
    base = [[int(x) for x in v] for v in sk.__class__.sample_preimage(sk, c, seed=rng.bytes(40))]
    assert all((a + int(b) - z) % M.Q == 0 for a, b, z in zip(base[0], M.mulq(base[1], h), c))

    def add(s, m, e):
        # + e x^m (g, -f)
        o0, o1 = list(s[0]), list(s[1])
        for i in range(n):
            j = i + m
            w = e if j < n else -e
            o0[j % n] += w * g[i]
            o1[j % n] -= w * f[i]
        return [o0, o1]
    out = []
    for kind in kinds:
        best = None
        if kind == 'long':
            for _ in range(40 if n > 64 else 200):
                s = base
                for _ in range(2000):
                    s = add(s, rng.below(n), rng.choice([1, -1]))
                    nn = M.norm2(*s)
                    if nn > M.BOUND[n]:
                        if best is None or nn < best[0]:
                            best = (nn, s)
                        break
                if n > 128:
                    break
        else:
            slot = rng.below(n) if rng.below(4) else n - 1
            # NTT values of x^m f at the slot
            ft = [int(M.ntt(add([[0] * n, [0] * n], m, 1)[1])[slot]) for m in range(n)] if n <= 64 else None
            if ft is None:
                x1 = int(M.ntt([0, 1] + [0] * (n - 2))[slot])
                v = int(M.ntt([-x for x in f])[slot])
                ft = []
                for m in range(n):
                    ft.append(v)
                    v = v * x1 % M.Q
            t = (-int(M.ntt(base[1])[slot])) % M.Q
            # two signed monomials, found by a table; three by one more loop
            one = {}
            for m in range(n):
                for e in (1, -1, 2, -2):
                    one.setdefault(ft[m] * e % M.Q, (m, e))
            for _ in range(4000):
                a = [(rng.below(n), rng.choice([1, -1, 2, -2])) for _ in range(rng.below(3))]
                r = (t - sum(ft[m] * e for m, e in a)) % M.Q
                if r in one:
                    s = base
                    for m, e in a + [one[r]]:
                        s = add(s, m, e)
                    if M.norm2(*s) <= M.BOUND[n] and (M.ntt(s[1]) == 0).any():
                        best = (0, s)
                        break
        if best is not None:
            out.append((kind, best[1]))
    return out


class steered:
    """the first results of the key's preimage sampler are replaced by the given ones"""

    def __init__(self, sk, first):
        self.sk, self.first, self.used = sk, list(first), 0

    def __enter__(self):
        sk, me = self.sk, self
        self.names = [x for x in ('sample_preimage', 'sample_preimage_with_prng') if hasattr(type(sk), x)]
        for nm in self.names:
            def w(*a, _o=getattr(type(sk), nm), **kw):
                if me.used < len(me.first):
                    me.used += 1
                    return [list(v) for v in me.first[me.used - 1]]
                return _o(sk, *a, **kw)
            setattr(sk, nm, w)
        return self

    def __exit__(self, *a):
        for nm in self.names:
            delattr(self.sk, nm)


def wide_point(n, k, rng, halves, over):
    """a coset with a preimage (s0, s1) within the norm bound, s1 invertible, whose compression needs
    `over` bits more than the room given: (c, [s0, s1]) or None."""
    h = h_of(n, k)
    room = 8 * (halves * SIGLEN[n] - 41)
    m = halves * n
    for _ in range(20):
        q = [0] * m
        low = max(1, 9 - halves * 2) if n > 64 else 20
        v = [rng.randint(0, low) for _ in range(m)]
        need = room + over - 9 * m
        # one more bit costs 128^2 (1 + 2 i): the cheapest first, in random places
        order = sorted(range(m), key=lambda i: rng.below(1 << 30))
        i = lvl = 0
        while need > 0:
            q[order[i]] += 1
            need -= 1
            i += 1
            if i == m:
                i = 0
        v = [(128 * a + b) * rng.choice([1, -1]) for a, b in zip(q, v)]
        s1 = v[-n:]
        s0 = v[:n] if halves == 2 else [rng.randint(-30, 30) for _ in range(n)]
        if M.norm2(s0, s1) > M.BOUND[n] or (M.ntt(s1) == 0).any() or len(M.comp_bits(v)) != room + over:
            continue
        return [(a + int(b)) % M.Q for a, b in zip(s0, M.mulq(s1, h))], [s0, s1]


def run_system(ctx, case):
    """signatures with the default source of randomness: valid, and two of the same message share no salt."""
    from .props.p07 import MODES, digest, ref_recover
    n, mode, k, xn = case['n'], case['mode'], case['key'], case['xof']
    mn, skc, pkc = MODES[mode] if mode != 'plain' else ('falcon', 'SecretKey', 'PublicKey')
    mod = pyref.mod(mn)
    if case['gen'] and n <= 64:
        with pyref.system_random(Stream('sysk', case['seed'])), sut('%s(%d)' % (skc, n)):
            sk = getattr(mod, skc)(n)
        eq = M.negmul(sk.f, sk.G) - M.negmul(sk.g, sk.F)
        check(eq[0] == M.Q and not any(eq[1:]), '%s(%d): f*G - g*F != q' % (skc, n))
        h = [int(x) for x in M.divq(sk.g, sk.f)]
    else:
        h, sk = h_of(n, k), sk_obj(ctx, n, k, skc, mn)
    d = h if mode == 'plain' else digest(mode, h)
    pub = getattr(mod, pkc)(n, list(h) if mode == 'plain' else d)
    msg = ubytes('m', case['seed'], case['seed'] % 70)
    kw = {} if case['dflt'] else {'xof': xof_class(xn)}
    if case['dflt']:
        xn = 'keccak'
    what = '%s, degree %d, %s, default randomness' % (mode, n, xn)
    sigs = []
    with pyref.system_random(Stream('sys', case['seed'])) as u:
        for i in range(case['rep']):
            with sut(what + ': sign'):
                sigs.append(bytes(sk.sign(msg, **kw)))
    for i, s in enumerate(sigs):
        want = SIGLEN[n] if mode == 'plain' else 2 * SIGLEN[n] + 3 * n
        check(len(s) == want, '%s: signature of %d bytes, not %d' % (what, len(s), want))
        if mode == 'plain':
            check(py_accept(n, h, msg, s, xn), what + ': the signature is not valid under the reference equation')
        else:
            check(ref_recover(mode, n, msg, s, xn) == d, what + ': the signature does not determine the key')
        with sut(what + ': verify'):
            check(pub.verify(msg, s, **kw) is True, what + ': own signature refused')
    salts = [s[1:41] for s in sigs]
    check(len(set(salts)) == len(salts), what + ': two signatures have the same salt')
    check(all(len(set(x)) > 8 for x in salts), what + ': a salt is not random')
    return ['!%s' % mode, 'n%d' % n] + (['!seen'] if u.used else ['not intercepted'])


def strat_system(modes):
    from hypothesis import strategies as st
    return lambda ctx=None: st.fixed_dictionaries({'n': st.sampled_from(DEGREES_SYS), 'mode': st.sampled_from(modes), 'key': st.integers(0, 3), 'seed': seeds(),
                                                   'xof': st.sampled_from(['shake', 'keccak']), 'dflt': st.booleans(), 'gen': st.booleans(), 'rep': st.integers(2, 3)})


DEGREES_SYS = [4, 8, 16, 64, 256, 512]


def corners_system(modes):
    return [{'n': n, 'mode': m, 'key': 0, 'seed': 1, 'xof': 'shake', 'dflt': d, 'gen': False, 'rep': 2} for n in (16, 512) for m in modes for d in (False, True)]


SYSTEM_RULE = 'sign without a source of randomness; all non-trivial'


def fixed_xof(c):
    """a hash class whose output is the given point, whatever is absorbed"""
    data = b''.join(int(x).to_bytes(2, 'big') for x in c)

    class Fixed:
        def __init__(self):
            self.pos = 0

        @classmethod
        def new(cls):
            return cls()

        def update(self, _):
            pass

        def flip(self):
            pass

        def read(self, k):
            r = data[self.pos:self.pos + k]
            self.pos += k
            return r.ljust(k, b'\0')
    return Fixed


def pool_msg(j):
    """messages of equal length and one of another length"""
    return ubytes('pool', j, 40 if j < 3 else 17)


def fresh_sign(ctx, n, mode, k, j, salt, seed, xn):
    """the signature a fresh key object makes"""
    from .props.p07 import MODES
    mn, skc = MODES[mode][:2] if mode != 'plain' else ('falcon', 'SecretKey')

    def mk():
        sk = getattr(pyref.mod(mn), skc)(n, polys(n, k))
        with sut('sign, degree %d, fresh object' % n):
            return sk.sign(pool_msg(j), randombytes=Pool(salt, seed), xof=xof_class(xn))
    return ctx.get(('fs', n, mode, k, j, salt, seed, xn), mk)


class Pool:
    """a salt from one stream, seeds from another: signatures of different messages share salts and seeds"""

    def __init__(self, salt, seed):
        self.a, self.b = Stream('pool-salt', salt), Stream('pool-seed', seed)

    def __call__(self, k):
        return self.a(k) if k == 40 else self.b(k)


def run_history(ctx, case):
    """one secret key object and one public key object live through a sequence of signatures and verifications;
    every answer is the one a fresh object (signing) or the reference (verification) gives."""
    from .props.p07 import MODES, digest, ref_recover
    n, mode, k = case['n'], case['mode'], case['key']
    mn, skc, pkc = MODES[mode] if mode != 'plain' else ('falcon', 'SecretKey', 'PublicKey')
    mod = pyref.mod(mn)
    h = h_of(n, k)
    d = h if mode == 'plain' else digest(mode, h)
    sk = getattr(mod, skc)(n, polys(n, k))
    pub = getattr(mod, pkc)(n, list(h) if mode == 'plain' else d)
    labels = set()
    done = []
    for step in case['steps']:
        j, salt, seed, xn = step['j'], step['salt'], step['seed'], step['xof']
        what = '%s, degree %d, step %d after %s' % (mode, n, len(done), done[-2:])
        if step['op'] == 'sign':
            exp = fresh_sign(ctx, n, mode, k, j, salt, seed, xn)
            m = bytearray(pool_msg(j))
            with sut(what + ': sign'):
                s = sk.sign(bytes(m), randombytes=Pool(salt, seed), xof=xof_class(xn))
            check(s == exp, what + ': sign gives another signature than a fresh key object')
            labels.add('!sign')
        else:
            # a signature of the pool, of any message, salt, hash or of another key, with message j
            s = fresh_sign(ctx, n, mode, step['k2'] % 2 + k, step['j2'], salt, seed, step['xof2'])
            if step['bit']:
                i = step['bit'] % (8 * len(s))
                s = s[:i // 8] + bytes([s[i // 8] ^ (128 >> i % 8)]) + s[i // 8 + 1:]
            m, X = pool_msg(j), xof_class(xn)
            if mode == 'plain':
                exp = py_accept(n, h, m, s, xn)
            else:
                exp = ref_recover(mode, n, m, s, xn) == d
            with sut(what + ': verify'):
                got = pub.verify(m, s, xof=X)
            check(bool(got) == exp, '%s: verify gives %s, the reference %s' % (what, got, exp))
            if mode != 'plain':
                r = ref_recover(mode, n, m, s, xn)
                with sut(what + ': recover'):
                    g = pub.recover(m, s, xof=X)
                check((None if g is False else g) == r, what + ': recover gives %s, the reference %s' % (g, r))
            labels.add('!accept' if exp else '!reject')
        done.append((step['op'], j, salt, xn))
    if mode == 'plain':
        check(list(pub.pk) == h, 'the public key object changed')
    else:
        check(pub.pk == d, 'the public key object changed')
    return sorted(labels)


def strat_history(modes, ops=('sign', 'verify', 'verify')):
    from hypothesis import strategies as st
    xofs = ['shake', 'keccak', 'shake', 'blake2s']

    def mk(ctx=None):
        step = st.fixed_dictionaries({'op': st.sampled_from(list(ops)), 'j': st.sampled_from([0, 1, 0, 1, 2, 3]), 'j2': st.sampled_from([0, 1, 0, 1, 2, 3]),
                                      'salt': st.sampled_from([0, 0, 0, 1]), 'seed': st.sampled_from([0, 0, 1]), 'xof': st.sampled_from(xofs), 'xof2': st.sampled_from(xofs),
                                      'k2': st.sampled_from([0, 0, 0, 0, 1]), 'bit': st.one_of(st.just(0), st.just(0), st.just(0), st.integers(0, 20000))})
        # a verify step mostly matches its signature
        step = st.one_of(step, step.map(lambda s: dict(s, j2=s['j'], xof2=s['xof'], k2=0, bit=0)))
        return st.fixed_dictionaries({'n': st.sampled_from([16, 32, 32, 64, 64, 128] if 'ep' in modes else [4, 16, 64, 64, 256, 512]), 'mode': st.sampled_from(modes), 'key': st.integers(0, 2),
                                      'steps': st.lists(step, min_size=2, max_size=10)})
    return mk


def corners_history(modes):
    z = {'salt': 0, 'seed': 0, 'xof': 'shake', 'xof2': 'shake', 'k2': 0, 'bit': 0}
    seqs = [[dict(z, op='verify', j=0, j2=0), dict(z, op='verify', j=1, j2=0), dict(z, op='verify', j=1, j2=1), dict(z, op='verify', j=0, j2=0)],
            [dict(z, op='verify', j=0, j2=0), dict(z, op='verify', j=0, j2=0, xof='keccak'), dict(z, op='verify', j=0, j2=0, xof='keccak', xof2='keccak'), dict(z, op='verify', j=0, j2=0)],
            [dict(z, op='verify', j=0, j2=0), dict(z, op='verify', j=0, j2=0, bit=8 * 41 + 40), dict(z, op='verify', j=0, j2=0, k2=1), dict(z, op='verify', j=0, j2=0, bit=100)],
            [dict(z, op='sign', j=0, j2=0), dict(z, op='sign', j=1, j2=0), dict(z, op='sign', j=0, j2=0, seed=1), dict(z, op='sign', j=0, j2=0, xof='keccak'), dict(z, op='sign', j=0, j2=0, salt=1), dict(z, op='sign', j=0, j2=0)]]
    return [{'n': n, 'mode': m, 'key': 0, 'steps': s} for n in ((64, 512) if 'plain' in modes else (64,)) for m in modes for s in seqs] + \
        [{'n': 512, 'mode': m, 'key': 0, 'steps': seqs[0]} for m in modes]


HISTORY_RULE = 'sequences of signatures and verifications on one key object, with shared salts, seeds and message lengths; all non-trivial'
