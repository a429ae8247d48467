"""P07: Python key-recovery modes recover exactly the signer's key."""
from hypothesis import strategies as st
from ..core import Facet, check, sut
from .. import model as M
from .. import pyref
from ..pyprops import *
from ..gen import Rng, blob, unblob, seeds, ubytes


def build(b):
    return {}


def setup_worker(ctx):
    pyref.setup()


MODES = {'rec': ('falcon_recovery', 'RecoveryModeSecretKey', 'RecoveryModePublicKey'), 'ep': ('falcon_epervier', 'EpervierSecretKey', 'EpervierPublicKey')}


def digest(mode, h):
    v = h if mode == 'rec' else M.ntt(h)
    return int.from_bytes(M.keccak256(b''.join(int(x).to_bytes(32, 'big') for x in v))[-20:], 'big')


def ref_recover(mode, n, msg, sig, xn):
    """key digest or None."""
    if len(sig) != 2 * SIGLEN[n] + 3 * n or sig[0] != 0x30 + LOGN[n]:
        return None
    v = py_decode(sig[41:-3 * n], 2 * SIGLEN[n] - 41, 2 * n)
    if v is None or max(map(abs, v)) > 20000:
        return None
    s0, s1 = v[:n], v[n:]
    hint = [int.from_bytes(sig[len(sig) - 3 * n + 3 * i:len(sig) - 3 * n + 3 * i + 3], 'big') for i in range(n)]
    if any(x >= M.Q for x in hint) or any(a * int(b) % M.Q != 1 for a, b in zip(hint, M.ntt(s1))):
        return None
    if M.norm2(v) > M.BOUND[n]:
        return None
    c = h2p(xn, sig[1:41], msg, n)
    h = M.divq([a - b for a, b in zip(c, s0)], s1)
    return digest(mode, [int(x) for x in h])


def recover(mod, pkc, n, msg, sig, xn, what):
    P = getattr(mod, pkc)(n, 0)
    with sut(what):
        r = P.recover(msg, sig, xof=xof_class(xn))
    if r is False or r is None:
        return None
    check(isinstance(r, int) and 0 <= r < 2 ** 160, what + ' returns %r' % (r,))
    return r


def signed(ctx, mode, n, k, msg, xn, seed):
    mn, skc, pkc = MODES[mode]
    sk = sk_obj(ctx, n, k, skc, mn)
    X = xof_class(xn)
    with sut('%s sign n=%d %s' % (mode, n, xn)):
        return sk, sk.sign(msg, randombytes=Stream('rs', seed), xof=X)


def run_sign(ctx, case):
    n, xn, mode, k = case['n'], case['xof'], case['mode'], case['key']
    mn, skc, pkc = MODES[mode]
    mod = pyref.mod(mn)
    msg = unblob(case['msg'])[:maxmsg(xn)]
    sk, sig = signed(ctx, mode, n, k, msg, xn, case['seed'])
    h = h_of(n, k)
    d = digest(mode, h)
    what = '%s, degree %d, %s' % (mode, n, xn)
    check(sk.pk == d, what + ': key digest of the secret key object is wrong')
    check(len(sig) == 2 * SIGLEN[n] + 3 * n and sig[0] == 0x30 + LOGN[n], what + ': signature length %d or header' % len(sig))
    check(ref_recover(mode, n, msg, sig, xn) == d, what + ': the signature does not determine the key of the signer')
    check(recover(mod, pkc, n, msg, sig, xn, what + ': recover') == d, what + ': recover gives another key')
    P = getattr(mod, pkc)(n, d)
    with sut(what + ': verify'):
        check(P.verify(msg, sig, xof=xof_class(xn)) is True, what + ': own signature refused')
        check(not getattr(mod, pkc)(n, d ^ 1).verify(msg, sig, xof=xof_class(xn)), what + ': verifies for another digest')
    check(signed(ctx, mode, n, k, msg, xn, case['seed'])[1] == sig, what + ': same randomness, different signature')
    labels = ['!n%d' % n, mode, xn]
    # other message / hash: a different key
    others = [(msg + b'\x00', xn)] if len(msg) < maxmsg(xn) else []
    if msg:
        i = case['pos'] % len(msg)
        others.append((msg[:i] + bytes([msg[i] ^ 1]) + msg[i + 1:], xn))
    x2 = XOFS[(XOFS.index(xn) + 1 + case['pos'] % 3) % 4]
    if len(msg) <= maxmsg(x2):
        others.append((msg, x2))
    for m, x in others:
        r = recover(mod, pkc, n, m, sig, x, what + ': recover with another message or hash')
        check(r == ref_recover(mode, n, m, sig, x), what + ': recovery from another message gives a wrong result')
        check(r != d, what + ': another message or hash recovers the signer')
    return labels


def strat_sign(ctx=None):
    return st.fixed_dictionaries({'mode': st.sampled_from(['rec', 'ep']), 'n': st.sampled_from([2, 4, 8, 16, 32, 64, 128, 256, 512, 512, 2, 4, 8, 16]),
                                  'xof': st.sampled_from(XOFS), 'key': st.integers(0, 7), 'seed': seeds(), 'msg': blob(5000, top=69999, rate=80), 'pos': st.integers(0, 9999)})


def corners_sign(ctx):
    return [{'mode': m, 'n': n, 'xof': x, 'key': 0, 'seed': 3, 'msg': {'n': 0, 's': 0}, 'pos': 0} for m in ('rec', 'ep') for n in DEGREES for x in (XOFS if n < 512 else ['shake', 'keccak'])] + \
        [{'mode': ('rec', 'ep')[(l + (x == 'keccak')) % 2], 'n': 4, 'xof': x, 'key': l % 3, 'seed': l, 'msg': {'n': l, 's': 2}, 'pos': l} for l in range(280) for x in ('shake', 'keccak')]


def run_alter(ctx, case):
    n, xn, mode, k = case['n'], case['xof'], case['mode'], case['key']
    mn, skc, pkc = MODES[mode]
    mod = pyref.mod(mn)
    msg = ubytes('m', case['j'], 30)
    sig = ctx.get(('as', mode, n, k, xn, case['j']), lambda: signed(ctx, mode, n, k, msg, xn, case['j'])[1])
    d = digest(mode, h_of(n, k))
    op, a, b = case['op'], case['a'], case['b']
    hs = len(sig) - 3 * n
    v = py_decode(sig[41:hs], hs - 41, 2 * n)
    hint = [int.from_bytes(sig[hs + 3 * i:hs + 3 * i + 3], 'big') for i in range(n)]

    def mk(v, hint):
        e = py_encode(v, hs - 41)
        if e is None:
            e = M.bits_to_bytes(M.comp_bits(v))[:hs - 41]
        return sig[:41] + e + b''.join(int(x).to_bytes(3, 'big') for x in hint)
    if op == 'flip':
        i = a % (8 * len(sig))
        s = sig[:i // 8] + bytes([sig[i // 8] ^ (128 >> i % 8)]) + sig[i // 8 + 1:]
    elif op == 'header':
        s = bytes([b & 255]) + sig[1:]
    elif op == 'hintq':
        x = list(hint)
        i = a % n
        x[i] += M.Q * (1 + b % 1000)
        s = mk(v, x)
    elif op == 'hintadd':
        x = list(hint)
        i = a % n
        x[i] = (x[i] + 1 + b) % M.Q
        s = mk(v, x)
    elif op == 'coef':
        x = list(v)
        i = a % (2 * n)
        x[i] += [1, -1, 128, M.Q, -M.Q][b % 5]
        s = mk(x, hint)
    elif op == 'coefhint':
        # another vector with its matching inverse
        x = list(v)
        i = a % (2 * n)
        x[i] += [1, -1, 128, M.Q, -M.Q, -128, 5000][b % 7]
        nt = M.ntt(x[n:])
        if (nt == 0).any():
            return []
        s = mk(x, [pow(int(z), -1, M.Q) for z in nt])
    elif op == 'noninv':
        nt = M.ntt(v[n:])
        s = mk(v, [0 if i == a % n else x for i, x in enumerate(hint)])
    elif op == 'pad':
        used, tot = len(M.comp_bits(v)), 8 * (hs - 41)
        if used == tot:
            return []
        bit = 41 * 8 + used + a % (tot - used)
        s = sig[:bit // 8] + bytes([sig[bit // 8] ^ (128 >> bit % 8)]) + sig[bit // 8 + 1:]
    elif op == 'trunc':
        s = sig[:a % (len(sig) + 1)]
    elif op == 'extend':
        s = sig + bytes([b & 255]) * (1 + a % 9)
    elif op == 'cut':
        # remove a byte of the padding between vector and inverse
        i = 41 + a % (hs - 41)
        s = sig[:i] + sig[i + 1:]
    elif op == 'cutpad':
        s = sig[:hs - 1] + sig[hs:]
    elif op == 'zero':
        # s1 = 0 and friends
        s = mk([0] * (2 * n) if b & 1 else v[:n] + [0] * n, [0] * n)
    elif op == 'raw':
        s = unblob(case['blob'])
    else:
        s = sig
    exp = ref_recover(mode, n, msg, s, xn)
    what = '%s, degree %d: recover from a %s-altered signature' % (mode, n, op)
    r = recover(mod, pkc, n, msg, s, xn, what)
    check(r == exp, '%s gives %s, the reference gives %s' % (what, r, exp))
    if s != sig:
        check(r != d, what + ': recovers the signer\'s key')
    P = getattr(mod, pkc)(n, d)
    with sut(what.replace('recover', 'verify')):
        check(bool(P.verify(msg, s, xof=xof_class(xn))) == (exp == d), what.replace('recover', 'verify') + ': wrong result')
    return ['!' + op, 'recovers' if r is not None else 'fails']


OPS = ['flip', 'header', 'hintq', 'hintadd', 'coef', 'coefhint', 'coefhint', 'noninv', 'pad', 'trunc', 'extend', 'cut', 'cutpad', 'zero', 'raw', 'none']


def strat_alter(ctx=None):
    return st.fixed_dictionaries({'mode': st.sampled_from(['rec', 'ep']), 'n': st.sampled_from([2, 4, 8, 16, 32, 64, 128, 512, 4, 8, 16]), 'xof': st.sampled_from(['shake', 'keccak']),
                                  'key': st.integers(0, 1), 'j': st.integers(0, 1), 'op': st.sampled_from(OPS), 'a': st.one_of(st.integers(0, 20), st.integers(0, 30000)), 'b': st.integers(0, 999), 'blob': blob(1500)})


def corners_alter(ctx):
    z = {'xof': 'keccak', 'key': 0, 'j': 0, 'a': 0, 'b': 0, 'blob': {'n': 0, 's': 0}}
    out = []
    for m in ('rec', 'ep'):
        for n in (4, 512):
            out += [dict(z, mode=m, n=n, op=op, a=a, b=b) for op in ('hintq', 'pad', 'cutpad', 'zero', 'coefhint', 'extend') for a in (0, n - 1, 2 * n - 1) for b in (0, 1)]
            out += [dict(z, mode=m, n=n, op='trunc', a=a) for a in (0, 1, 40, 41, 42)]
            out += [dict(z, mode=m, n=n, op='header', b=b) for b in range(0, 256, 5)]
    return out


def run_bound(ctx, case):
    """norm bound: inclusive, both halves, every coefficient."""
    from .p02 import exact_norm
    n, mode, xn = case['n'], case['mode'], case['xof']
    mn, skc, pkc = MODES[mode]
    r = Rng('rb', case['s'])
    tgt = M.BOUND[n] + case['delta']
    for _ in range(50):
        v = exact_norm(r, 2 * n, tgt)
        if v is None or max(map(abs, v)) > 5500:
            continue
        if case['last'] >= 0:
            i = max(range(2 * n), key=lambda i: abs(v[i]))
            j = (2 * n - 1, n - 1, 0, n)[case['last']]
            v[i], v[j] = v[j], v[i]
        e = py_encode(v, 2 * SIGLEN[n] - 41)
        nt = M.ntt(v[n:])
        if e is None or (nt == 0).any():
            continue
        break
    else:
        return []
    sig = bytes([0x30 + LOGN[n]]) + ubytes('s', case['s'], 40) + e + b''.join(pow(int(x), -1, M.Q).to_bytes(3, 'big') for x in nt)
    msg = ubytes('m', case['s'], 20)
    exp = ref_recover(mode, n, msg, sig, xn)
    check((exp is not None) == (case['delta'] <= 0), 'reference disagrees with the construction')
    got = recover(pyref.mod(mn), pkc, n, msg, sig, xn, 'recover')
    check(got == exp, '%s, degree %d: vector of squared norm bound%+d %s' % (mode, n, case['delta'], 'recovers' if got is not None else 'is refused'))
    return ['!in' if case['delta'] <= 0 else '!out']


def strat_bound(ctx=None):
    return st.fixed_dictionaries({'n': st.sampled_from(DEGREES), 'mode': st.sampled_from(['rec', 'ep']), 'xof': st.sampled_from(['shake', 'keccak']), 's': seeds(20),
                                  'delta': st.one_of(st.sampled_from([-1, 0, 1]), st.integers(-40, 40)), 'last': st.integers(-1, 3)})


def run_steer(ctx, case):
    """the sampler first returns lattice points that are too long or not invertible: they must not be used."""
    n, xn, mode, k = case['n'], case['xof'], case['mode'], case['key']
    mn, skc, pkc = MODES[mode]
    sk = sk_obj(ctx, n, k, skc, mn)
    msg = ubytes('m', case['seed'], case['seed'] % 50)
    c = h2p(xn, Stream('st', case['seed'])(40), msg, n)
    try:
        bad = bad_preimages(sk, n, k, c, case['kinds'], Rng('bad', case['seed']))
    except (AttributeError, TypeError):
        return ['unavailable']
    kinds = [x for x, _ in bad]
    what = '%s, degree %d, rejected candidates %s' % (mode, n, kinds)
    with steered(sk, [b for _, b in bad]) as w:
        with sut(what + ': sign'):
            sig = sk.sign(msg, randombytes=Stream('st', case['seed']), xof=xof_class(xn))
    d = digest(mode, h_of(n, k))
    check(ref_recover(mode, n, msg, sig, xn) == d, what + ': the signature does not determine the key')
    check(recover(pyref.mod(mn), pkc, n, msg, sig, xn, what) == d, what + ': recover gives another key')
    return ['!' + x for x in sorted(set(kinds))] if w.used else ['not used']


def run_wide(ctx, case):
    """first candidates within the bound and invertible whose compression is a few bits too long, or just fits."""
    n, mode, k = case['n'], case['mode'], case['key']
    mn, skc, pkc = MODES[mode]
    w = wide_point(n, k, Rng('wide', case['seed']), 2, case['over'])
    if w is None:
        return []
    c, s = w
    assert (py_encode(s[0] + s[1], 2 * SIGLEN[n] - 41) is None) == (case['over'] > 0)
    sk, X = sk_obj(ctx, n, k, skc, mn), fixed_xof(c)
    msg = ubytes('m', case['seed'], case['seed'] % 50)
    what = '%s, degree %d, first candidate %+d bits against the room' % (mode, n, case['over'])
    with steered(sk, [s] * case['rep']) as t:
        with sut(what + ': sign'):
            sig = sk.sign(msg, randombytes=Stream('st', case['seed']), xof=X)
    d = digest(mode, h_of(n, k))
    check(len(sig) == 2 * SIGLEN[n] + 3 * n, what + ': signature of %d bytes' % len(sig))
    with sut(what + ': recover'):
        check(getattr(pyref.mod(mn), pkc)(n, 0).recover(msg, sig, xof=X) == d, what + ': recover does not give the signer')
        check(getattr(pyref.mod(mn), pkc)(n, d).verify(msg, sig, xof=X) is True, what + ': own signature refused')
    return ['!over' if case['over'] > 0 else '!fits'] if t.used else ['not used']


FACETS = [
    Facet('system', strat_system(['rec', 'ep']), run_system, 50, 1500, corners_system(['rec', 'ep']), rule=SYSTEM_RULE),
    Facet('history', strat_history(['rec', 'ep'], ('sign', 'verify', 'verify')), run_history, 60, 3000, corners_history(['rec', 'ep']), rule=HISTORY_RULE),
    Facet('wide', lambda ctx: st.fixed_dictionaries({'n': st.sampled_from([512, 512, 1024]), 'mode': st.sampled_from(['rec', 'ep']), 'key': st.integers(0, 3), 'seed': seeds(), 'over': st.integers(-9, 17), 'rep': st.integers(1, 2)}),
          run_wide, 40, 4000, [{'n': n, 'mode': m, 'key': 0, 'seed': 1, 'over': o, 'rep': 1} for n in (512, 1024) for m in ('rec', 'ep') for o in (0, 1, 8)],
          rule='the first candidate needs a few bits more than the room, or just fits; non-trivial when the signer asked for it'),
    Facet('rejection', lambda ctx: st.fixed_dictionaries({'n': st.sampled_from([8, 16, 32, 64, 128, 256, 512]), 'mode': st.sampled_from(['rec', 'ep']), 'xof': st.sampled_from(['shake', 'keccak']),
                                                          'key': st.integers(0, 3), 'seed': seeds(), 'kinds': st.lists(st.sampled_from(['long', 'noninv', 'noninv']), min_size=1, max_size=2)}),
          run_steer, 250, 6000, [{'n': n, 'mode': m, 'xof': 'keccak', 'key': 0, 'seed': s, 'kinds': ['noninv']} for n in (32, 64, 512) for m in ('rec', 'ep') for s in range(8)],
          rule='candidates too long or with one NTT zero come first; non-trivial when the signer asked for them'),
    Facet('sign', strat_sign, run_sign, 240, 8000, corners_sign, rule='sign/recover round trips; all non-trivial'),
    Facet('altered', strat_alter, run_alter, 3600, 80000, corners_alter, rule='altered signatures against the reference recovery'),
    Facet('bound', strat_bound, run_bound, 900, 30000, rule='vectors of a chosen norm; non-trivial when constructed'),
]
