"""P01: Python sign then verify succeeds for every degree, message and hash variant."""
from hypothesis import strategies as st
from ..core import Facet, check, sut
from .. import model as M
from .. import pyref
from ..pyprops import *
from ..gen import Rng, blob, unblob, seeds, ubytes


def build(b):
    return {}


def setup_worker(ctx):
    pyref.setup()


def run_sign(ctx, case):
    n, xn = case['n'], case['xof']
    msg = unblob(case['msg'])
    F = pyref.mod('falcon')
    X = xof_class(xn)
    with sut('SecretKey(%d)' % n):
        sk = sk_obj(ctx, n, case['key'])
    h = h_of(n, case['key'])
    check([int(x) for x in sk.h] == h, 'degree %d: SecretKey.h is not g/f' % n)
    pk = pk_obj(ctx, n, case['key'])
    if len(msg) > maxmsg(xn):
        # the counter generators have a documented buffer: refuse, never sign something else
        try:
            sig = sk.sign(msg, randombytes=Stream('s', case['seed']), xof=X)
        except ValueError:
            return ['!too-long-refused']
        check(py_accept(n, h, msg, sig, xn), 'a message of %d bytes (%s) is neither refused nor signed correctly' % (len(msg), xn))
        return ['!long-signed']
    rnd = Stream('s', case['seed'])
    with sut('sign n=%d xof=%s len=%d' % (n, xn, len(msg))):
        sig = sk.sign(msg, randombytes=rnd, xof=X)
    what = 'degree %d, %s, %d-byte message' % (n, xn, len(msg))
    check(isinstance(sig, (bytes, bytearray)) and len(sig) == SIGLEN[n], '%s: signature has length %d, not %d' % (what, len(sig), SIGLEN[n]))
    check(sig[0] == 0x20 + LOGN[n], what + ': header 0x%02x' % sig[0])
    r2 = Stream('s', case['seed'])
    check(sig[1:41] == r2(40), what + ': the salt is not the first 40 random bytes')
    check(py_accept(n, h, msg, sig, xn), what + ': signature is not valid under the reference equation')
    with sut(what + ': verify'):
        ok = pk.verify(msg, sig, xof=X)
        if case['rec']:
            ok = ok and pk.verify(msg, sig, ntt=pyref.mod('polyntt.ntt_recursive').NTTRecursive, xof=X)
    check(ok is True, what + ': own signature refused')
    with sut(what + ': sign again'):
        check(sk.sign(msg, randombytes=Stream('s', case['seed']), xof=X) == sig, what + ': same randomness, different signature')
    labels = ['!n%d' % n, xn]
    # an equal key object built again, and bytearray / default-argument variants
    if case['alt'] == 0 and n <= 256:
        with sut(what + ': second object'):
            sk2 = F.SecretKey(n, polys(n, case['key']))
            check(sk2.sign(bytes(msg), randombytes=Stream('s', case['seed']), xof=X) == sig, what + ': another object of the same key signs differently')
    # must not verify otherwise
    others = []
    if msg:
        i = case['pos'] % len(msg)
        others.append(('altered message', msg[:i] + bytes([msg[i] ^ (1 << case['bit'])]) + msg[i + 1:], sig, xn, h, pk))
        others.append(('truncated message', msg[:-1], sig, xn, h, pk))
    if len(msg) + 1 <= maxmsg(xn):
        others.append(('extended message', msg + b'\x00', sig, xn, h, pk))
    x2 = XOFS[(XOFS.index(xn) + 1 + case['alt'] % 3) % 4]
    if len(msg) <= maxmsg(x2):
        others.append(('hash variant ' + x2, msg, sig, x2, h, pk))
    k2 = case['key'] + 1
    others.append(('another key', msg, sig, xn, h_of(n, k2), pk_obj(ctx, n, k2)))
    j = 1 + case['pos'] % 40
    others.append(('altered salt', msg, sig[:j] + bytes([sig[j] ^ (1 << case['bit'])]) + sig[j + 1:], xn, h, pk))
    for nm, m, s, x, hh, p in others:
        exp = py_accept(n, hh, m, s, x)
        check(not (exp and n >= 64), 'reference accepts ' + nm)   # negligible at these degrees
        with sut(what + ': verify, ' + nm):
            got = p.verify(m, s, xof=xof_class(x))
        check(bool(got) == exp, '%s: verification with %s gives %s' % (what, nm, got))
    return labels


def strat_sign(ctx=None):
    return st.fixed_dictionaries({
        'n': st.sampled_from([2, 2, 4, 4, 8, 8, 16, 16, 32, 32, 64, 64, 128, 256, 512, 1024]), 'xof': st.sampled_from(XOFS),
        'key': st.integers(0, 15), 'seed': seeds(), 'msg': blob(5000, top=69999, rate=80), 'alt': st.integers(0, 5), 'rec': st.booleans(),
        'pos': st.integers(0, 9999), 'bit': st.integers(0, 7)})


def corners_sign(ctx):
    out = []
    for n in DEGREES:
        for x in XOFS:
            for l in ((0, min(9000, maxmsg(x))) if n in (512, 16, 1024) else (0,)):
                out.append({'n': n, 'xof': x, 'key': 0, 'seed': 5, 'msg': {'n': l, 's': 3}, 'alt': l % 3, 'rec': False, 'pos': max(l - 1, 0), 'bit': 0})
    # every length over two blocks
    out += [{'n': 4, 'xof': x, 'key': l % 3, 'seed': l, 'msg': {'n': l, 's': 2}, 'alt': 1, 'rec': False, 'pos': l, 'bit': l % 8} for l in range(280) for x in ('shake', 'keccak')]
    return out


def run_default(ctx, case):
    """default arguments: system randomness and the Keccak variant."""
    n = case['n']
    msg = unblob(case['msg'])[:4056]
    sk = sk_obj(ctx, n, case['key'])
    pk = pk_obj(ctx, n, case['key'])
    h = h_of(n, case['key'])
    with sut('sign with system randomness, n=%d' % n):
        a, b = sk.sign(msg), sk.sign(msg)
    for s in (a, b):
        check(len(s) == SIGLEN[n] and py_accept(n, h, msg, s, 'keccak'), 'degree %d: default signing gives an invalid signature' % n)
        with sut('verify'):
            check(pk.verify(msg, s) is True, 'degree %d: own signature refused' % n)
    check(a[1:41] != b[1:41], 'two signatures share a salt')
    # system randomness with another hash
    X = xof_class(case['xof'])
    if len(msg) <= maxmsg(case['xof']):
        with sut('sign with system randomness, n=%d, %s' % (n, case['xof'])):
            s = sk.sign(msg, xof=X)
            check(py_accept(n, h, msg, s, case['xof']) and pk.verify(msg, s, xof=X) is True, 'degree %d: own signature (%s) refused' % (n, case['xof']))
    # generated key
    if n <= 8:
        F = pyref.mod('falcon')
        with sut('SecretKey(%d) generated' % n):
            k = F.SecretKey(n, randombytes=Stream('kg', case['seed']))
            s = k.sign(msg, xof=X) if len(msg) <= maxmsg(case['xof']) else k.sign(b'', xof=X)
            m = msg if len(msg) <= maxmsg(case['xof']) else b''
            p = F.PublicKey(n, k.h)
            check(p.verify(m, s, xof=X) is True, 'degree %d: generated key cannot sign' % n)
    return ['!n%d' % n]


def strat_default(ctx=None):
    return st.fixed_dictionaries({'n': st.sampled_from([2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2, 4, 8, 16]), 'xof': st.sampled_from(XOFS),
                                  'key': st.integers(0, 15), 'msg': blob(4000), 'seed': seeds()})


def run_steer(ctx, case):
    """the sampler first returns lattice points longer than the bound: they must not be used."""
    n, xn, k = case['n'], case['xof'], case['key']
    sk = sk_obj(ctx, n, k)
    msg = ubytes('m', case['seed'], case['seed'] % 50)
    c = h2p(xn, Stream('st', case['seed'])(40), msg, n)
    try:
        bad = bad_preimages(sk, n, k, c, ['long'] * (1 + case['seed'] % 2), Rng('bad', case['seed']))
    except (AttributeError, TypeError):
        return ['unavailable']
    with steered(sk, [b for _, b in bad]) as w:
        with sut('sign, degree %d, with rejected candidates' % n):
            sig = sk.sign(msg, randombytes=Stream('st', case['seed']), xof=xof_class(xn))
    check(py_accept(n, h_of(n, k), msg, sig, xn), 'degree %d: a candidate of squared norm %d above the bound was used' % (n, M.norm2(*bad[0][1]) - M.BOUND[n] if bad else 0))
    check(pk_obj(ctx, n, k).verify(msg, sig, xof=xof_class(xn)) is True, 'own signature refused')
    return ['!n%d' % n] if w.used and bad else ['not used']


def run_wide(ctx, case):
    """a first candidate whose compression is a few bits too long, or just fits."""
    n, k = case['n'], case['key']
    w = wide_point(n, k, Rng('wide', case['seed']), 1, case['over'])
    if w is None:
        return []
    c, s = w
    assert (py_encode(s[1], SIGLEN[n] - 41) is None) == (case['over'] > 0)
    sk, X = sk_obj(ctx, n, k), fixed_xof(c)
    msg = ubytes('m', case['seed'], case['seed'] % 50)
    with steered(sk, [s] * case['rep']) as t:
        with sut('sign, degree %d, candidate %+d bits' % (n, case['over'])):
            sig = sk.sign(msg, randombytes=Stream('st', case['seed']), xof=X)
    what = 'degree %d, first candidate %+d bits against the room' % (n, case['over'])
    check(len(sig) == SIGLEN[n], what + ': signature of %d bytes' % len(sig))
    v = py_decode(sig[41:], SIGLEN[n] - 41, n)
    check(v is not None and M.accept(c, v, h_of(n, k), n)[0], what + ': the signature is not valid')
    with sut('verify'):
        check(pk_obj(ctx, n, k).verify(msg, sig, xof=X) is True, what + ': own signature refused')
    return ['!over' if case['over'] > 0 else '!fits'] if t.used else ['not used']


FACETS = [
    Facet('system', strat_system(['plain']), run_system, 60, 1800, corners_system(['plain']), rule=SYSTEM_RULE),
    Facet('history', strat_history(['plain'], ('sign', 'sign', 'verify')), run_history, 150, 4000, corners_history(['plain']), rule=HISTORY_RULE),
    Facet('wide', lambda ctx: st.fixed_dictionaries({'n': st.sampled_from(DEGREES[4:]), 'key': st.integers(0, 3), 'seed': seeds(), 'over': st.integers(-9, 17), 'rep': st.integers(1, 2)}),
          run_wide, 250, 6000, [{'n': n, 'key': 0, 'seed': 1, 'over': o, 'rep': 1} for n in DEGREES[4:] for o in (0, 1, 8)],
          rule='the first candidate needs a few bits more than the room, or just fits; non-trivial when the signer asked for it'),
    Facet('rejection', lambda ctx: st.fixed_dictionaries({'n': st.sampled_from(DEGREES), 'xof': st.sampled_from(['shake', 'keccak']), 'key': st.integers(0, 3), 'seed': seeds()}),
          run_steer, 250, 6000, rule='candidates just above the norm bound come first; non-trivial when the signer asked for them'),
    Facet('sign', strat_sign, run_sign, 700, 20000, corners_sign, rule='sign/verify round trip with negative controls; all non-trivial'),
    Facet('default', strat_default, run_default, 150, 4000, [{'n': n, 'xof': 'shake', 'key': 1, 'msg': {'n': 33, 's': 2}, 'seed': 1} for n in DEGREES],
          rule='system randomness and default hash; all non-trivial'),
]
