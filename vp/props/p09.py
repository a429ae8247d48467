"""P09: packing of polynomials for EVM calldata is lossless and the same in Python and Solidity."""
import contextlib
import io
import os
import runpy
import sys
from hypothesis import strategies as st
from eth_abi import decode, encode
from ..core import Facet, check, sut
from .. import model as M
from .. import pyref
from ..pyprops import h_of, polys as key_polys, h2p, sk_obj
from ..solprops import *
from ..gen import Rng, blob, unblob, ubytes

XOF = {'ETH': 'keccak', 'NIST': 'shake'}


def build(b):
    return build_sol(b, 'falcon', 'ethfalcon', 'falcon_utils', 'common', 'NTT')


def setup_worker(ctx):
    pyref.setup()


def vals(case):
    return poly(case['p'], 65536 if case['wide'] else Q)


def lab(case, a):
    return ['!' + case['p']['k'], '16-bit' if case['wide'] else 'mod q']


def run_py(ctx, case):
    n = case['n']
    a = poly(case['p'], 65536 if case['wide'] else Q, max(n, 1))[:n]
    b = list(a)
    with sut('falcon_compact of %d values' % n):
        w = pyref.mod('common').falcon_compact(b)
    check(b == a, 'falcon_compact changes its argument')
    check(ints(w) == pack(a), 'falcon_compact: coefficient i is not in bits 16*(i mod 16) of word i div 16')
    check(all(0 <= x < 2 ** 256 for x in w), 'falcon_compact: word above 256 bits')
    if n == N and has(ctx, '_ZKNOX_NTT_Expand(uint256[])'):
        x = value(hook(ctx, '_ZKNOX_NTT_Expand(uint256[])', ints(w)), ['uint256[]'], '_ZKNOX_NTT_Expand')
        check(list(x) == a, 'values packed in Python unpack differently in Solidity')
    bad = case['bad']
    if n and bad:
        i = bad[0] % n
        b = list(a)
        b[i] = bad[1]
        try:
            w = pyref.mod('common').falcon_compact(b)
        except Exception:
            w = None
        check(w is None or unpack(ints(w)) == b, 'falcon_compact: a value that does not fit in 16 bits is packed anyway')
    return lab(case, a) if n else ['empty']


PAIRS = [('_ZKNOX_NTT_Compact(uint256[])', '_ZKNOX_NTT_Expand(uint256[])'),
         ('ZKNOX_NTT.ZKNOX_NTT_Compact(uint256[])', 'ZKNOX_NTT.ZKNOX_NTT_Expand(uint256[])')]


def run_sol(ctx, case):
    a = vals(case)
    w = pack(a)
    out = lab(case, a)
    for c, e in PAIRS:
        if has(ctx, c):
            x = value(hook(ctx, c, a), ['uint256[]'], c)
            check(list(x) == w, c + ': coefficient i is not in bits 16*(i mod 16) of word i div 16')
        else:
            out.append('no ' + c)
        if has(ctx, e):
            x = value(hook(ctx, e, w), ['uint256[]'], e)
            check(list(x) == a, e + ': unpacking packed values does not give them back')
        else:
            out.append('no ' + e)
    if has(ctx, 'Swap(uint256[])'):
        x = value(hook(ctx, 'Swap(uint256[])', a), ['uint256[]'], 'Swap')
        check(list(x) == a[::-1], 'Swap is not the mirror of its argument')
    return out


def run_words(ctx, case):
    """helpers on 32 arbitrary words"""
    r = Rng('words', case['s'])
    k = case['k']
    w = [{'rand': lambda: int.from_bytes(r.bytes(32), 'big'), 'ones': lambda: 2 ** 256 - 1, 'idx': lambda: i + 1,
          'top': lambda: 1 << (255 - i)}[k]() for i in range(32)]
    salt = ubytes('salt', case['s'], 40)
    out = ['!' + k]
    f = 'ZKNOX_memcpy32(uint256[32])'
    if has(ctx, f):
        x = value(hook(ctx, f, w), ['uint256[]'], f)
        check(list(x) == w, 'ZKNOX_memcpy32 changes the words')
    f = '_packUint256Array(uint256[32])'
    if has(ctx, f):
        x = value(hook(ctx, f, w), ['bytes'], f)
        check(x == b''.join(v.to_bytes(32, 'big') for v in w), '_packUint256Array is not the concatenation of the words')
    f = '_packSignature(bytes,uint256[32])'
    if has(ctx, f):
        x = value(hook(ctx, f, salt, w), ['bytes'], f)
        check(x == salt + b''.join(v.to_bytes(32, 'big') for v in w), '_packSignature is not salt followed by the words')
    e = '_ZKNOX_NTT_Expand(uint256[])'
    if has(ctx, e):
        x = value(hook(ctx, e, w), ['uint256[]'], e)
        check(list(x) == unpack(w), e + ': wrong coefficients for arbitrary words')
        c = '_ZKNOX_NTT_Compact(uint256[])'
        if has(ctx, c):
            y = value(hook(ctx, c, list(x)), ['uint256[]'], c)
            check(list(y) == w, 'packing the unpacked words does not give them back')
    return out


def run_call(ctx, case):
    """sig_sol.py: its output decodes to the key, salt and s2 of a signature that verifies on chain"""
    mode, k = case['mode'], case['key']
    msg = unblob(case['msg'])[:3000]
    seed = bytes.fromhex(case['seed'])
    ng = pyref.mod('ntrugen')
    keep, argv = ng.ntru_gen, sys.argv
    seen = []

    def stand_in(n, randombytes=None, **kw):
        check(n == 512, 'sig_sol generates a key of degree %s' % n)
        seen.append(randombytes(48) if randombytes else None)
        return key_polys(512, k)
    what = 'sig_sol.py %s' % mode

    def once(seed):
        """what the script prints for a seed, and the first bytes its key generator is given"""
        out = io.StringIO()
        try:
            ng.ntru_gen = stand_in
            sys.argv = ['sig_sol.py', '0x' + msg.hex(), mode, seed.hex()]
            with sut(what), contextlib.redirect_stdout(out):
                runpy.run_path(os.path.join(pyref.ROOT, 'sig_sol.py'), run_name='__main__')
        finally:
            ng.ntru_gen = keep
            sys.argv = argv
        try:
            return decode(['uint256[32]', 'bytes', 'uint256[32]'], bytes.fromhex(out.getvalue().strip())) + (seen[-1],)
        except Exception as e:
            check(False, '%s: output does not decode (%s)' % (what, e))
    pk, salt, s2, rb = once(seed)
    if case['again'] != 'no':
        i = len(seed) - 1 if case['again'] == 'last' else 0
        s = seed if case['again'] == 'same' else seed + b'\1' if case['again'] == 'longer' else seed[:i] + bytes([seed[i] ^ 1]) + seed[i + 1:]
        pk_, salt_, s2_, rb_ = once(s)
        if s == seed:
            check((pk_, salt_, s2_, rb_) == (pk, salt, s2, rb), what + ': the same seed gives another output')
        else:
            check(salt_ != salt, what + ': two seeds of %d and %d bytes give the same salt' % (len(seed), len(s)))
            check(rb is None or rb_ != rb, what + ': two seeds of %d and %d bytes give the same key randomness' % (len(seed), len(s)))
    pk, s2 = list(pk), list(s2)
    h = h_of(512, k)
    check(pk == pack(ints(M.ntt(h))), what + ': the packed key is not the transform of the public key')
    check(len(salt) == 40, what + ': the salt has %d bytes' % len(salt))
    v = unpack(s2)
    check(all(x < Q for x in v), what + ': s2 has a coefficient of q or more')
    check(M.accept(h2p(XOF[mode], salt, msg, 512), v, h), what + ': the signature encoded does not verify')
    c = contract(ctx, 'ZKNOX_ethfalcon' if mode == 'ETH' else 'ZKNOX_falcon')
    r = value(call(ctx, c, 'verify(bytes,bytes,uint256[],uint256[])', msg, salt, s2, pk), ['bool'], what + ': on-chain verification')
    check(r is True, what + ': the contract rejects the signature encoded for it')
    return ['!' + mode]


P = polys_()
FACETS = [
    Facet('python', st.fixed_dictionaries({'p': P, 'wide': st.booleans(), 'n': st.sampled_from([512, 512, 512, 0, 16, 32, 64, 128, 256, 1024]),
                                           'bad': st.one_of(st.none(), st.tuples(st.integers(0, 1023), st.sampled_from([65536, 65537, 1 << 17, 1 << 256])))}),
          run_py, 1500, 40000, rule='non-empty list'),
    Facet('solidity', st.fixed_dictionaries({'p': P, 'wide': st.booleans()}), run_sol, 2000, 60000, rule='every polynomial',
          corners=[{'p': {'k': 'mono', 's': i}, 'wide': True} for i in range(512)]),
    Facet('words', st.fixed_dictionaries({'k': st.sampled_from(['rand', 'rand', 'ones', 'idx', 'top']), 's': st.integers(0, 2 ** 20)}),
          run_words, 1500, 40000, rule='every word list'),
    Facet('calls', st.fixed_dictionaries({'mode': st.sampled_from(['ETH', 'NIST']), 'key': st.integers(0, 5), 'msg': blob(300),
                                          'seed': st.binary(min_size=1, max_size=100).map(lambda b: b.hex()),
                                          'again': st.sampled_from(['no', 'no', 'same', 'last', 'first', 'longer'])}), run_call, 140, 4000,
          rule='every call', corners=[{'mode': m, 'key': 1, 'msg': {'n': 30, 's': 1}, 'seed': '5a' * n, 'again': a} for m in ('ETH', 'NIST') for n in (32, 48, 64, 140) for a in ('last', 'longer')]),
]
