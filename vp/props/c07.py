"""C07: NIST and EVM formats describe the same key and the same signature."""
from hypothesis import strategies as st
from ..core import Facet, check
from .. import model as M
from ..cprops import *
from ..clib import SK, PK, PK16
from ..gen import blob, unblob, ubytes, seeds


def build(b):
    return build_std(b)


def run(ctx, case):
    v = case['lib']
    L = lib(ctx, v)
    seed = unblob(case['seed'])
    if case['drawn']:
        seed = (seed + b'\x01' * 48)[:48]
        r1, pk, sk = L.keypair('nist', seed)
        r2, pk16, sk2 = L.keypair('zk', seed)
    else:
        seed = seed + b'\x02' * max(0, 32 - len(seed))
        r1, pk, sk = L.keypair_seed('nist', seed)
        r2, pk16, sk2 = L.keypair_seed('zk', seed)
    check(r1 == 0 and r2 == 0, 'key generation failed')
    pk, sk, pk16, sk2 = pk[:PK], sk[:SK], pk16[:PK16], sk2[:SK]
    check(sk == sk2, 'NIST and EVM generators give different secret keys for one seed')
    h = M.pk14_decode(pk)
    check(M.pk16_encode(M.ntt(h)) == pk16, 'EVM public key is not the NTT of the NIST public key')
    m = unblob(case['msg'])
    rb = ubytes('rb', case['rb'], 88)
    if keccak_limit_exceeded(v, len(m) + 40):
        m = m[:4000]
    r1, a, _ = L.sign('nist', m, sk, rb)
    r2, b, _ = L.sign('zk', m, sk, rb)
    check(r1 == 0 and r2 == 0, 'signing failed')
    _, salt, m1, sig = M.split_bundle(a)
    _, salt2, m2, sig2 = M.split_bundle(b)
    check(salt == salt2 and m1 == m2 == m, 'salt or message differ between formats')
    d = M.comp_decode(sig[1:], 512)
    s16 = ref_sig_zk(sig2[1:])
    check(d is not None and s16 is not None and d[0] == s16, 'the two signers give different s2 for the same randomness')
    # conversion in both directions keeps the verdict
    t14 = M.bundle(salt, m, b'\x29' + M.comp_encode(s16))
    t16 = M.bundle(salt, m, b'\x29' + M.fixed_encode([x % M.Q for x in d[0]], 16))
    check(L.open('nist', t14, pk)[1] == m, 'EVM signature converted to the NIST format does not open')
    check(L.open('zk', t16, pk16)[1] == m, 'NIST signature converted to the EVM format does not open')
    # verdicts agree on altered vectors as well
    lab = []
    for i, dv in case['edits']:
        s = list(d[0])
        s[i] = max(-2047, min(2047, s[i] + dv))
        x = L.open('nist', M.bundle(salt, m, b'\x29' + M.comp_encode(s)), pk)[0]
        y = L.open('zk', M.bundle(salt, m, b'\x29' + M.fixed_encode([z % M.Q for z in s], 16)), pk16)[0]
        check((x == 0) == (y == 0), 'the two formats disagree on the same vector')
        lab.append('edited')
    if v == 'nist':
        # EPERVIER uses the same salt, s1 and s2
        r3, c, _ = L.sign('ep', m, sk, rb)
        check(r3 == 0, 'EPERVIER signing failed')
        _, salt3, m3, sig3 = M.split_bundle(c)
        if (M.ntt(d[0]) != 0).all():
            check(salt3 == salt and m3 == m and ref_sig_zk(sig3[1026:2050]) == d[0], 'EPERVIER signer gives another s2 for the same randomness')
    return ['!' + v] + lab


def strat(ctx=None):
    return st.fixed_dictionaries({'lib': st.sampled_from(['nist', 'eth']), 'seed': blob(100), 'drawn': st.booleans(), 'msg': blob(4000, top=1100000),
                                  'rb': seeds(), 'edits': st.lists(st.tuples(st.integers(0, 511), st.integers(-3000, 3000)).map(list), max_size=3)})


FACETS = [Facet('formats', strat, run, 2400, 60000, rule='seed, message, random bytes; every case compares keys, signatures and conversions')]
