"""C08: EPERVIER in C."""
import ctypes as C
from hypothesis import strategies as st
from ..core import Facet, check
from .. import model as M
from ..cprops import *
from ..gen import blob, unblob, ubytes, seeds, Rng
import numpy as np
from .c02 import np_clip


def build(b):
    return {'lib': b.clib('nist')}


def epk(ctx, kn):
    """public key as the EPERVIER flow makes it: key pair, then zknox_pk_epervier"""
    c = ctx.get('epk', dict)
    if kn not in c:
        k = key(ctx, kn)
        r, p = lib(ctx).pk_epervier(k['pk16'])
        check(r == 0, 'zknox_pk_epervier refuses a generated key')
        c[kn] = p
    return c[kn]


def run_rt(ctx, case):
    L = lib(ctx)
    k = key(ctx, case['key'])
    pk = epk(ctx, case['key'])
    m = unblob(case['msg'])
    rb = ubytes('rb', case['rb'], 88)
    r, sm, raw = L.sign('ep', m, k['sk'], rb, overlap=case['ov'])
    check(r == 0, 'EPERVIER signing failed')
    check(len(sm) == len(m) + 2094, 'EPERVIER bundle length %d for a %d byte message' % (len(sm), len(m)))
    check(all(x == 0xEE for x in raw[len(sm):]), 'EPERVIER signing wrote past the bundle')
    sl, salt, m2, sig = M.split_bundle(sm)
    check(sl == 2052 and salt == rb[:40] and m2 == m and sig[0] == 0x29 and sig[1025] == 0x29, 'bundle layout')
    s1, s2 = ref_sig_zk(sig[1:1025]), ref_sig_zk(sig[1026:2050])
    check(s1 is not None and s2 is not None, 'non-canonical coefficients')
    check(M.norm2(s1, s2) <= M.BOUND[512], 'signature vector too long')
    c = M.h2p('shake', salt, m)
    check(((np.array(s1) + M.mulq(s2, k['h']) - np.array(c)) % M.Q == 0).all(), 's1 + s2*h is not the hash of salt and message')
    s2n = M.ntt(s2)
    check((s2n != 0).all(), 's2 is not invertible')
    p = 1
    for x in s2n:
        p = p * int(x) % M.Q
    check(int.from_bytes(sig[2050:], 'big') == pow(p, -1, M.Q), 'hint is not the inverse of the product of the NTT coefficients')
    r, out, mraw, ml = L.open('ep', sm, pk, overlap=case['ov'])
    check(r == 0 and out == m and ml == len(m), 'EPERVIER opening failed or returned another message')
    # another key, message, salt
    check(L.open('ep', sm, epk(ctx, case['key'] + 1))[0] != 0, 'opens under another key')
    t = bytearray(sm)
    t[2 + case['x'] % (40 + len(m))] ^= 1 << (case['x'] % 8)
    check(L.open('ep', bytes(t), pk)[0] != 0, 'opens with an altered salt or message')
    labels = ['!']
    # the signer had to retry
    r, nist, _ = L.sign('nist', m, k['sk'], rb)
    if r == 0:
        d = M.comp_decode(M.split_bundle(nist)[3][1:], 512)[0]
        if d != s2:
            check((M.ntt(d) == 0).any(), 'first sampled s2 was invertible but not used')
            labels.append('!retried')
    return labels


def strat_rt(ctx=None):
    return st.fixed_dictionaries({'key': st.integers(0, 40), 'rb': seeds(), 'msg': blob(3000, top=1100000), 'ov': st.booleans(), 'x': st.integers(0, 5000)})


def run_pred(ctx, case):
    """constructed (s1,s2): exact norms, chosen NTT zeros, wrong hints, lengths: open agrees with the reference."""
    L = lib(ctx)
    rng = Rng('eppred', case['s'])
    g = rng.np()
    salt, msg = rng.bytes(40), unblob(case['msg'])
    kind = case['kind']
    if kind == 'overlap':       # the signature reaches back into the salt
        salt, msg = salt[:39 - case['x'] % 40], b''
    c = M.h2p('shake', salt, msg)
    lab = ['!' + kind]
    if kind == 'norm':
        total = M.BOUND[512] + case['delta'] + case['wrap'] * 2 ** 32
        n2 = max(total // 4096, total - int(0.7 * 512 * 6144 * 6144), min(int(total * case['frac'] / 16), int(0.7 * 512 * 6144 * 6144)))
        s2 = s1 = None
        for _ in range(6):
            s1, s2 = vec_with_norm(rng, 512, 6144, total - n2, shape=case['shape']), vec_with_norm(rng, 512, 6144, n2)
            if s1 and s2 and (M.ntt(s2) != 0).all():
                break
        else:
            return ['unbuildable']
    else:
        s1 = [int(x) for x in np_clip(g.normal(0, 150, 512))]
        s2 = [int(x) for x in np_clip(g.normal(0, 150, 512))]
    if kind == 'zeros':
        # s2 with NTT zeros must be short as well: sparse multiples of x^256 - r type factors do not exist; use small
        # combinations a*x^i - b*x^j vanishing in one slot
        root = pow(7, 2 * (case['x'] % 512) + 1, M.Q)
        root = pow(root, 2, M.Q)          # an odd power of a primitive 1024-th root
        i = 1 + case['x'] % 400
        t = pow(root, i, M.Q)
        # find small a,b with a*t = b by the half-gcd
        a0, a1, b0, b1 = M.Q, t, 0, 1
        while a1 * a1 > M.Q:
            q = a0 // a1
            a0, a1, b0, b1 = a1, a0 - q * a1, b1, b0 - q * b1
        s2 = [0] * 512
        s2[i] += b1
        s2[0] -= a1
        s1 = [int(x) for x in np_clip(g.normal(0, 100, 512))]
    s2n = M.ntt(s2)
    zero = (s2n == 0).any()
    num = M.ntt([(a - b) for a, b in zip(c, s1)])
    if zero:
        h = [int(a) * (pow(int(b), -1, M.Q) if b else 0) % M.Q for a, b in zip(num, s2n)]
        hint = case['x'] % 65536
        lab.append('!noninvertible')
    else:
        h = [int(a) * pow(int(b), -1, M.Q) % M.Q for a, b in zip(num, s2n)]
        p = 1
        for x in s2n:
            p = p * int(x) % M.Q
        hint = pow(p, -1, M.Q)
    w1, w2 = [x % M.Q for x in s1], [x % M.Q for x in s2]
    hb = hint
    tail = b''
    hd1 = hd2 = 0x29
    sl = None
    if kind == 'hint':
        hb = (hint + 1 + case['x']) % 65536 if case['x'] % 3 else (hint + 12289) % 65536
    elif kind == 'noncanon':
        j = case['x'] % 512
        which = w1 if case['x'] & 512 else w2
        which[j] += [12289, 24578, 36867, 49156][case['x'] % 4]
        which[j] = min(which[j], 65535)
    elif kind == 'length':
        tail = b'\x00' * (case['x'] % 3)
        sl = [2052, 2051, 2053, 1, 0, 1025, 2050, 2052 + len(tail), 65535][case['x'] % 9]
    elif kind == 'header':
        hd1, hd2 = [(0x29, case['x'] % 256), (case['x'] % 256, 0x29)][case['x'] % 2]
    elif kind == 'keydiff':
        h[case['x'] % 512] = (h[case['x'] % 512] + 1 + case['x'] % 12288) % M.Q
    elif kind == 'swap':
        w1, w2 = w2, w1
    sig = bytes([hd1]) + M.fixed_encode(w1, 16) + bytes([hd2]) + M.fixed_encode(w2, 16) + hb.to_bytes(2, 'big') + tail
    sm = (len(sig) if sl is None else sl).to_bytes(2, 'big') + salt + msg + sig
    pk = M.pk16_encode(h)
    exp = ref_open_ep(sm, pk)
    r, out, raw, ml = L.open('ep', sm, pk)
    if exp is None:
        check(r != 0, 'EPERVIER opening accepts what the specification refuses (%s)' % kind)
        lab.append('reject')
    else:
        check(r == 0 and out == exp, 'EPERVIER opening refuses what the specification accepts (%s)' % kind)
        lab.append('accept')
    # the recovery primitives
    T = C.c_int16 * 512
    U = C.c_uint16 * 512
    tmp = (C.c_uint64 * 512)()
    hh, hh2 = U(), U()
    a1, a2 = T(*[int(x) for x in s1]), T(*[int(x) for x in s2])
    ok = 1 if (not zero and M.norm2(s1, s2) <= M.BOUND[512]) else 0
    check(L.z('verify_recover_epervier')(hh, U(*c), a1, a2, 9, tmp) == ok, 'verify_recover_epervier returned a wrong verdict (%s)' % kind)
    check(L.z('verify_recover')(hh2, U(*c), a1, a2, 9, tmp) == ok, 'verify_recover returned a wrong verdict (%s)' % kind)
    if not zero:
        true = [int(x) * pow(int(y), -1, M.Q) % M.Q for x, y in zip(num, s2n)]
        check(list(hh) == true, 'verify_recover_epervier recovers a wrong key')
        check(list(hh2) == [int(x) for x in M.intt(true)], 'verify_recover recovers a wrong key')
        check(L.z('hint_epervier')(a2, 9) == hint, 'hint_epervier is wrong')
    return lab


def run_slot(ctx, case):
    """a short s2 vanishing in exactly one NTT slot, for every slot."""
    L = lib(ctx)
    rng = Rng('slot', case['s'], case['k'])
    root = pow(7, 2 * (2 * case['k'] + 1), M.Q)
    i = 1 + 2 * rng.below(200)
    t = pow(root, i, M.Q)
    a0, a1, b0, b1 = M.Q, t, 0, 1
    while a1 * a1 > M.Q:
        q = a0 // a1
        a0, a1, b0, b1 = a1, a0 - q * a1, b1, b0 - q * b1
    s2 = [0] * 512
    s2[i] += b1
    s2[0] -= a1
    sn = M.ntt(s2)
    z = int((sn == 0).sum())
    assert z == 1
    g = rng.np()
    s1 = [int(x) for x in np_clip(g.normal(0, 60, 512))]
    T = C.c_int16 * 512
    tmp = (C.c_uint64 * 512)()
    a1, a2 = T(*s1), T(*s2)
    check(L.z('is_invertible')(a2, 9, tmp) == 0, 'is_invertible accepts s2 with a zero in NTT slot of root number %d' % case['k'])
    salt, msg = rng.bytes(40), b'slot'
    c = M.h2p('shake', salt, msg)
    U = C.c_uint16 * 512
    check(L.z('verify_recover_epervier')(U(), U(*c), a1, a2, 9, tmp) == 0, 'verify_recover_epervier accepts a non-invertible s2')
    check(L.z('verify_recover')(U(), U(*c), a1, a2, 9, tmp) == 0, 'verify_recover accepts a non-invertible s2')
    # the public key solves the equation in the other slots
    num = M.ntt([(x - y) for x, y in zip(c, s1)])
    h = [int(x) * (pow(int(y), -1, M.Q) if y else 0) % M.Q for x, y in zip(num, sn)]
    pk = M.pk16_encode(h)
    for hint in (0, 1, rng.below(M.Q)):
        sig = b'\x29' + M.fixed_encode([x % M.Q for x in s1], 16) + b'\x29' + M.fixed_encode([x % M.Q for x in s2], 16) + hint.to_bytes(2, 'big')
        sm = len(sig).to_bytes(2, 'big') + salt + msg + sig
        check(L.open('ep', sm, pk)[0] != 0, 'EPERVIER opening accepts a non-invertible s2')
    return ['!slot']


def strat_pred(ctx=None):
    return st.fixed_dictionaries({
        's': seeds(), 'msg': blob(200), 'x': st.integers(0, 70000),
        'kind': st.sampled_from(['norm', 'norm', 'norm', 'plain', 'zeros', 'hint', 'noncanon', 'length', 'header', 'keydiff', 'swap', 'overlap']),
        'delta': st.one_of(st.integers(-2, 2), st.integers(-30000000, 30000000)), 'wrap': st.sampled_from([0, 0, 0, 1, 2]),
        'frac': st.integers(1, 15), 'shape': st.sampled_from(['flat', 'few', 'half', 'uniform'])})


def corners_pred(ctx):
    return [{'s': 3, 'msg': {'hex': '68'}, 'x': x, 'kind': 'header', 'delta': 0, 'wrap': 0, 'frac': 8, 'shape': 'flat'} for x in range(512)] + \
        [{'s': 3, 'msg': {'hex': '00'}, 'x': x, 'kind': 'length', 'delta': 0, 'wrap': 0, 'frac': 8, 'shape': 'flat'} for x in range(27)] + \
        [{'s': 4, 'msg': {'hex': ''}, 'x': x, 'kind': k, 'delta': d, 'wrap': 0, 'frac': 8, 'shape': 'flat'}
         for x in (1, 5) for d in (-1, 0, 1) for k in ('norm', 'zeros', 'hint', 'swap')] + \
        [{'s': 3, 'msg': {'hex': ''}, 'x': x, 'kind': 'overlap', 'delta': 0, 'wrap': 0, 'frac': 8, 'shape': 'flat'} for x in range(40)]


def run_pk(ctx, case):
    """zknox_pk_epervier keeps valid keys usable and refuses malformed ones"""
    L = lib(ctx)
    k = key(ctx, case['key'])
    pk = bytearray(k['pk16'])
    i = 1 + 2 * (case['x'] % 512)
    if case['kind'] == 'word':
        pk[i:i + 2] = case['y'].to_bytes(2, 'big')
    elif case['kind'] == 'header':
        pk[0] = case['y'] & 255
    ok = pk[0] == 9 and max(M.pk16_decode(b'\x09' + bytes(pk[1:]))) < M.Q
    r, p = L.pk_epervier(bytes(pk))
    check((r == 0) == ok, 'zknox_pk_epervier returned %d on a %svalid key' % (r, '' if ok else 'in'))
    if ok:
        check(p[0] == 9 and max(M.pk16_decode(p)) < M.Q, 'zknox_pk_epervier output malformed')
    return ['!' + case['kind']]


FACETS = [
    Facet('roundtrip', strat_rt, run_rt, 1600, 40000, [{'key': n % 4, 'rb': n, 'msg': {'n': n, 's': 2}, 'ov': n % 3 == 0, 'x': n} for n in range(280)], rule='sign/open with all equations checked; all non-trivial'),
    Facet('predicate', strat_pred, run_pred, 6000, 120000, corners_pred, rule='constructed vectors, hints and lengths; all non-trivial'),
    Facet('pubkey', lambda ctx: st.fixed_dictionaries({'key': st.integers(0, 10), 'x': st.integers(0, 511), 'y': st.one_of(st.integers(0, 65535), st.sampled_from([9, 12288, 12289])),
                                                       'kind': st.sampled_from(['word', 'header', 'none'])}), run_pk, 800, 8000, rule='valid and malformed public keys'),
    Facet('slots', lambda ctx: st.fixed_dictionaries({'s': seeds(), 'k': st.integers(0, 511)}), run_slot, 300, 6000,
          [{'s': 0, 'k': k} for k in range(512)], rule='short s2 with a zero in exactly one NTT slot, every slot; all non-trivial'),
]
