"""C02: C verification equals the specification predicate."""
from hypothesis import strategies as st
from ..core import Facet, check
from .. import model as M
from ..cprops import *
from ..gen import blob, unblob, ubytes, seeds, Rng

ASSUMPTIONS = ['the reference predicate in vp/model.py states the Falcon acceptance rule (inclusive bound 34034726)']


def build(b):
    return build_std(b)


def compare(ctx, v, fmt, sm, pk, what, labels):
    exp = ref_open(fmt, HASH[v], sm, pk)
    r, out, raw, ml = lib(ctx, v).open(fmt, sm, pk)
    if exp is None or keccak_limit_exceeded(v, len(sm) - 2 - int.from_bytes(sm[:2], 'big')):
        check(r != 0 or (exp is not None and out == exp), '%s: accepted by C (%s/%s), rejected by the specification' % (what, v, fmt))
        labels.append('reject')
    else:
        check(r == 0, '%s: rejected by C (%s/%s), accepted by the specification' % (what, v, fmt))
        check(out == exp and ml == len(exp), '%s: wrong message returned' % what)
        labels.append('accept')
    return exp is not None


def make_h(c, s1, s2):
    h = M.divq([(int(a) - b) % M.Q for a, b in zip(c, s1)], [x % M.Q for x in s2])
    return None if h is None else [int(x) for x in h]


def enc(fmt, s2, h):
    if fmt == 'nist':
        b = M.comp_encode(s2)
        return (None, None) if b is None else (b'\x29' + b, M.pk14_encode(h))
    return b'\x29' + M.fixed_encode([x % M.Q for x in s2], 16), M.pk16_encode(M.ntt(h))


def run_norm(ctx, case):
    """vectors of a chosen squared norm, with h solved so that the equation holds exactly."""
    v, fmt = case['lib'], case['fmt']
    rng = Rng('norm', case['s'])
    salt, msg = rng.bytes(40), unblob(case['msg'])
    c = M.h2p(HASH[v], salt, msg)
    mx2 = 2047 if fmt == 'nist' else 6144
    total = M.BOUND[512] + case['delta'] + case['wrap'] * 2 ** case['wbits']
    frac = case['frac'] / 16
    for attempt in range(6):
        n2 = max(total // 4096, min(int(total * frac), int(0.7 * 512 * mx2 * mx2)))
        n2 = max(n2, total - int(0.7 * 512 * 6144 * 6144))
        s2 = vec_with_norm(rng, 512, mx2, n2, shape=case['shape2'])
        s1 = vec_with_norm(rng, 512, 6144, total - n2, shape=case['shape1'])
        if s1 is None or s2 is None:
            frac = 0.5
            continue
        h = make_h(c, s1, s2)
        if h is not None:
            break
    else:
        return ['unbuildable']
    assert M.norm2(s1, s2) == total
    sig, pk = enc(fmt, s2, h)
    sm = M.bundle(salt, msg, sig)
    labels = ['!wrap' if case['wrap'] else '!boundary' if abs(case['delta']) <= 3 else 'off-boundary']
    compare(ctx, v, fmt, sm, pk, 'squared norm bound%+d + %d*2^%d' % (case['delta'], case['wrap'], case['wbits']), labels)
    return labels


def strat_norm(ctx=None):
    return st.fixed_dictionaries({
        'lib': st.sampled_from(['nist', 'eth']), 'fmt': st.sampled_from(['nist', 'zk']), 's': seeds(), 'msg': blob(300),
        'delta': st.one_of(st.integers(-3, 3), st.sampled_from([0, 1, -1]), st.integers(-34000000, 60000000)),
        'wrap': st.sampled_from([0, 0, 0, 1, 1, 2, 3]),
        'wbits': st.sampled_from([31, 32, 32]),
        'frac': st.integers(0, 16), 'shape1': st.sampled_from(['flat', 'uniform', 'few', 'half', 'one']),
        'shape2': st.sampled_from(['flat', 'uniform', 'few', 'half', 'one'])})


MUT = ['header', 'siglen', 'word', 'negzero', 'padbit', 'extend', 'truncate', 'pkword', 'pkhdr', 'salt', 'msg', 'swapfmt', 'coef',
       'unaryzero', 'none']


def run_mut(ctx, case):
    """structured mutations of genuine bundles, judged by the reference parser."""
    v, fmt = case['lib'], case['fmt']
    L = lib(ctx, v)
    k = key(ctx, case['key'])
    msg = unblob(case['msg'])
    r, sm, _ = L.sign(fmt, msg, k['sk'], ubytes('rb', case['rb'], 88))
    if r != 0:
        return ['sign-refused']
    sl, salt, msg, sig = M.split_bundle(sm)
    pk = bytearray(pub(k, fmt))
    sig = bytearray(sig)
    x, y = case['x'], case['y']
    mut = case['mut']
    pre = None
    w = 14 if fmt == 'nist' else 16
    if mut == 'header':
        sig[0] = x & 255
    elif mut == 'siglen':
        pre = (len(sig) + (y % 41) - 20) % 65536
    elif mut == 'word' and fmt == 'zk':
        i = 1 + 2 * (x % 512)
        sig[i:i + 2] = (y % 65536).to_bytes(2, 'big')
    elif mut == 'negzero' and fmt == 'nist':
        vals = M.comp_decode(bytes(sig[1:]), 512)[0]
        vals[x % 512] = 0
        b = M.comp_bits(vals)
        b2 = M.comp_bits(vals[:x % 512])
        p = len(b2)
        sig = bytearray(b'\x29' + M.bits_to_bytes(b[:p] + '1' + b[p + 1:]))
    elif mut == 'padbit':
        sig[-1] ^= 1 << (y % 8)
    elif mut == 'extend':
        sig += bytes([y & 255]) * (1 + x % 3)
    elif mut == 'truncate':
        sig = sig[:max(0, len(sig) - 1 - x % 40)]
    elif mut == 'pkword':
        vals = M.fixed_decode(bytes(pk[1:]), 512, w)[0]
        vals[x % 512] = [12289, 12290, (1 << w) - 1, vals[x % 512] + 12289, vals[x % 512] ^ 1, 12288, 16383][y % 7] % (1 << w)
        pk = bytearray(b'\x09' + M.fixed_encode(vals, w))
    elif mut == 'pkhdr':
        pk[0] = x & 255
    elif mut == 'salt':
        salt = bytes([salt[0] ^ (1 << (x % 8))]) + salt[1:]
    elif mut == 'msg':
        msg = msg + bytes([x & 255])
    elif mut == 'swapfmt':
        s2 = M.comp_decode(bytes(sig[1:]), 512)[0] if fmt == 'nist' else ref_sig_zk(bytes(sig[1:]))
        sig = bytearray(b'\x29' + (M.fixed_encode([z % M.Q for z in s2], 16) if fmt == 'nist' else M.comp_encode(s2)))
    elif mut == 'coef':
        s2 = M.comp_decode(bytes(sig[1:]), 512)[0] if fmt == 'nist' else ref_sig_zk(bytes(sig[1:]))
        s2 = list(s2)
        # one wrong coefficient can only be accepted if the result is short: judged by the reference
        s2[x % 512] = (y % 4095) - 2047
        sig = bytearray(b'\x29' + (M.comp_encode(s2) if fmt == 'nist' else M.fixed_encode([z % M.Q for z in s2], 16)))
    elif mut == 'unaryzero' and fmt == 'nist':
        # replace the tail by zeros: the unary part never ends
        n = 1 + x % 600
        sig[-n:] = b'\x00' * min(n, len(sig) - 1)
    t = (len(sig) if pre is None else pre).to_bytes(2, 'big') + salt + msg + bytes(sig)
    labels = ['mut-' + mut]
    acc = compare(ctx, v, fmt, t, bytes(pk), 'mutation ' + mut, labels)
    if mut != 'none':
        labels.append('!mutated')
    return labels


def strat_mut(ctx=None):
    return st.fixed_dictionaries({
        'lib': st.sampled_from(['nist', 'eth']), 'fmt': st.sampled_from(['nist', 'zk']), 'key': st.integers(0, 20),
        'rb': st.integers(0, 40), 'msg': blob(200), 'mut': st.sampled_from(MUT), 'x': st.integers(0, 4000),
        'y': st.one_of(st.integers(0, 70000), st.integers(12280, 12300), st.integers(32760, 32780), st.integers(65530, 65535))})


def run_hdr(ctx, case):
    """every header byte of key and signature."""
    v, fmt, w, x = case['lib'], case['fmt'], case['w'], case['x']
    k = key(ctx, 1)
    r, sm, _ = lib(ctx, v).sign(fmt, b'header', k['sk'], ubytes('rb', 5, 88))
    check(r == 0, 'signing failed')
    sl, salt, msg, sig = M.split_bundle(sm)
    pk = pub(k, fmt)
    labels = ['!' + w]
    if w == 'pk':
        pk = bytes([x]) + pk[1:]
    else:
        sig = bytes([x]) + sig[1:]
    compare(ctx, v, fmt, M.bundle(salt, msg, sig), pk, '%s header 0x%02x' % (w, x), labels)
    return labels


def run_adv(ctx, case):
    """s2 not produced by the signer: zero s1 (s2=c/h), sparse s2, random words, constant vectors."""
    v, fmt = case['lib'], case['fmt']
    rng = Rng('adv', case['s'])
    salt, msg = rng.bytes(40), unblob(case['msg'])
    c = M.h2p(HASH[v], salt, msg)
    g = rng.np()
    kind = case['kind']
    if case['hkey']:
        h = key(ctx, case['s'] % 20)['h']
    else:
        h = [int(x) for x in g.integers(0, M.Q, 512)]
    body = None
    if kind == 's1zero':
        s2 = M.divq(c, h)
        if s2 is None:
            return ['noninvertible']
        s2 = [int(x) for x in M.centered(s2)]
    elif kind == 's1tail':
        # (c - s2 h) zero except for the last coefficients
        t = list(c)
        for i in range(1 + case['x'] % 4):
            t[511 - i] = (t[511 - i] - 1 - int(g.integers(0, 2000))) % M.Q
        s2 = M.divq(t, h)
        if s2 is None:
            return ['noninvertible']
        s2 = [int(x) for x in M.centered(s2)]
    elif kind == 'smallh':
        # h chosen tiny so that random small s2 and c decide
        s2 = [int(x) for x in g.integers(-60, 61, 512)]
        h = make_h(c, [int(x) for x in np_clip(g.normal(0, 175 + case['x'] % 20, 512))], s2)
        if h is None:
            return ['noninvertible']
    elif kind == 'zero':
        s2 = [0] * 512
        if case['x'] & 1:
            s2[case['x'] % 512] = 1
    elif kind == 'big':
        s2 = [int(x) for x in g.integers(-2047, 2048, 512)]
    else:
        body = rng.bytes(1024 if fmt == 'zk' else 100 + case['x'] % 700)
        if fmt == 'zk':
            a = bytearray(body)
            for i in range(0, 1024, 2):
                a[i] &= 0x3f if case['x'] & 1 else 0xff
            body = bytes(a)
        s2 = None
    if s2 is not None:
        if fmt == 'nist':
            if max(abs(x) for x in s2) > 2047:
                # not representable: feed the 16-bit format instead
                fmt = 'zk'
        sig, pk = enc(fmt, s2, h)
    else:
        sig = b'\x29' + body
        pk = M.pk14_encode(h) if fmt == 'nist' else M.pk16_encode(M.ntt(h))
    labels = ['!adv-' + kind]
    compare(ctx, v, fmt, M.bundle(salt, msg, sig), pk, 'adversarial ' + kind, labels)
    return labels


def np_clip(a):
    import numpy as np
    return np.clip(np.rint(a), -6144, 6144).astype(int)


def strat_adv(ctx=None):
    return st.fixed_dictionaries({
        'lib': st.sampled_from(['nist', 'eth']), 'fmt': st.sampled_from(['nist', 'zk']), 's': seeds(), 'msg': blob(200),
        'hkey': st.booleans(), 'x': st.integers(0, 4000),
        'kind': st.sampled_from(['s1zero', 's1tail', 'smallh', 'smallh', 'zero', 'big', 'raw'])})


def run_word(ctx, case):
    """a 16-bit word of every possible value in an otherwise acceptable vector: canonical range and centring are decided
    by the coefficient alone (s1 stays as chosen)."""
    v = case['lib']
    rng = Rng('word', case['s'])
    salt, msg = rng.bytes(40), b'w'
    c = M.h2p(HASH[v], salt, msg)
    g = rng.np()
    s2 = [int(x) for x in g.integers(-100, 101, 512)]
    i, w = case['i'], case['w']
    s2[i] = w if w < M.Q else w % M.Q
    s1 = [int(x) for x in g.integers(-100, 101, 512)]
    h = make_h(c, s1, s2)
    if h is None:
        return ['noninvertible']
    words = [x % M.Q for x in s2]
    words[i] = w
    labels = ['!noncanonical' if w >= M.Q else '!large' if 2000 < w < 10289 else 'small']
    compare(ctx, v, 'zk', M.bundle(salt, msg, b'\x29' + M.fixed_encode(words, 16)), M.pk16_encode(M.ntt(h)),
            'word %d at %d' % (w, i), labels)
    return labels


def run_overlap(ctx, case):
    """the signature length says that the signature begins k bytes before the end of the salt (k = 0: it does not)"""
    v, fmt, k = case['lib'], case['fmt'], case['k']
    rng = Rng('overlap', case['s'])
    g = rng.np()
    head = rng.bytes(40 - k)
    c = M.h2p(HASH[v], head, b'')
    s1, s2 = ([int(x) for x in g.integers(-150, 151, 512)] for _ in range(2))
    h = make_h(c, s1, s2)
    if h is None:
        return ['noninvertible']
    sig, pk = enc(fmt, s2, h)
    sm = len(sig).to_bytes(2, 'big') + head + sig
    got = compare(ctx, v, fmt, sm, pk, 'signature that starts %d bytes before the end of the salt' % k, [])
    assert got == (k == 0)
    return ['!%d' % k]


def strat_word(ctx=None):
    return st.fixed_dictionaries({
        'lib': st.sampled_from(['nist', 'eth']), 's': seeds(), 'i': st.one_of(st.sampled_from([0, 1, 510, 511]), st.integers(0, 511)),
        'w': st.one_of(st.integers(0, 65535), st.integers(2040, 2055), st.integers(5820, 5840), st.integers(6455, 6475),
                       st.integers(12280, 12300), st.integers(32760, 32775), st.integers(53240, 53260),
                       st.integers(65520, 65535), st.integers(0, 12288))})


def corners_norm(ctx):
    out = []
    for v in ('nist', 'eth'):
        for f in ('nist', 'zk'):
            for d in (-1, 0, 1):
                for w in (0, 1):
                    for fr in (4, 8):
                        out.append({'lib': v, 'fmt': f, 's': 5 + fr, 'msg': {'hex': '61'}, 'delta': d, 'wrap': w, 'wbits': 32,
                                    'frac': fr, 'shape1': 'flat', 'shape2': 'flat'})
    return out


FACETS = [
    Facet('norm', strat_norm, run_norm, 8000, 160000, corners_norm,
          rule='(s1,s2) of prescribed squared norm with h solved; non-trivial = within 3 of the bound or beyond 2^31/2^32'),
    Facet('mutation', strat_mut, run_mut, 6000, 120000,
          rule='structured mutations of genuine bundles/keys; non-trivial = mutated'),
    Facet('adversarial', strat_adv, run_adv, 5000, 100000, rule='vectors not produced by the signer; all non-trivial'),
    Facet('word16', strat_word, run_word, 6000, 120000,
          corners=lambda ctx: [{'lib': 'nist', 's': 3, 'i': 7, 'w': w} for w in
                               (0, 2046, 2047, 2048, 5833, 6144, 6145, 10241, 10242, 10243, 12288, 12289, 32767, 32768, 65535)],
          rule='one coefficient word of any value 0..65535; non-trivial = non-canonical or large'),
    Facet('overlap', st.fixed_dictionaries({'lib': st.sampled_from(['nist', 'eth']), 'fmt': st.sampled_from(['nist', 'zk']), 's': seeds(), 'k': st.integers(0, 40)}), run_overlap, 200, 5000,
          [{'lib': v, 'fmt': f, 's': 1, 'k': k} for v in ('nist', 'eth') for f in ('nist', 'zk') for k in range(41)], rule='signature and salt overlap by 0..40 bytes; all non-trivial'),
    Facet('headers', None, run_hdr, 0, 0, [{'lib': v, 'fmt': f, 'w': w, 'x': x} for v in ('nist', 'eth') for f in ('nist', 'zk') for w in ('pk', 'sig') for x in range(256)],
          rule='all 256 header bytes of key and signature; all non-trivial'),
]
