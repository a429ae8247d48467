"""C01: sign then open returns exactly the signed message."""
from hypothesis import strategies as st
from ..core import Facet, check, Violation
from .. import model as M
from ..cprops import *
from ..clib import SK, CRYPTO_BYTES, ZK_BYTES
from ..gen import blob, unblob, ubytes, seeds

ASSUMPTIONS = ['randombytes is replaced by a stand-in returning the bytes of the case']


def build(b):
    return build_std(b)


OVER = {'nist': CRYPTO_BYTES, 'zk': ZK_BYTES}   # bytes beyond the message the layout can take
MAXSIG = {'nist': CRYPTO_BYTES - 2 - 40, 'zk': 1025}


def run(ctx, case):
    v, fmt = case['lib'], case['fmt']
    L = lib(ctx, v)
    k = key(ctx, case['key'])
    m = unblob(case['msg'])
    rb = ubytes('rb', case['rb'], 88)
    labels = ['%s/%s' % (v, fmt)]
    sk = bytes(bytearray(k['sk']))
    mc = bytes(bytearray(m))
    r, sm, raw = L.sign(fmt, m, sk, rb, overlap=case['ov_sign'])
    check(sk == k['sk'] and mc == m, 'signing modified the secret key or the message')
    toolong = keccak_limit_exceeded(v, 40 + len(m))
    if r != 0:
        check(toolong, 'signing a %d byte message failed (%s, %s) with %d' % (len(m), v, fmt, r))
        labels.append('!refused-too-long')
        return labels
    check(len(sm) <= len(m) + OVER[fmt], 'signed message exceeds the advertised overhead')
    check(all(x == 0xEE for x in raw[max(len(sm), len(m) if case['ov_sign'] else 0):]),
          'signing wrote past the reported length')
    sl, salt, msg, sig = M.split_bundle(sm)
    check(salt == rb[:40], 'salt is not the 40 bytes drawn from the random source')
    check(L.rb_sizes() == [40, 48], 'signing draws a 40-byte salt then a 48-byte seed, got %s' % L.rb_sizes())
    check(msg == m, 'message part of the bundle differs (length %d, expected %d)' % (len(msg), len(m)))
    check(sig and sig[0] == 0x29 and len(sig) == sl, 'signature header/length')
    check(len(sig) <= MAXSIG[fmt], 'signature body too long: %d' % len(sig))
    r, out, mraw, ml = L.open(fmt, sm, pub(k, fmt), overlap=case['ov_open'])
    check(r == 0, 'opening a freshly signed %d byte message failed (%s, %s)' % (len(m), v, fmt))
    check(ml == len(m) and out == m, 'opened message differs: length %d, expected %d' % (ml, len(m)))
    if not case['ov_open']:
        check(all(x == 0xDD for x in mraw[len(m):]), 'opening wrote past the message')
    if not toolong:
        check(ref_open(fmt, HASH[v], sm, pub(k, fmt)) == m, 'reference verifier rejects the signature made (%s, %s)' % (v, fmt))
    else:
        # accepted although longer than the generator's buffer: it must then really cover the whole message
        t = bytearray(sm)
        t[42 + len(m) - 1] ^= 1
        check(L.open(fmt, bytes(t), pub(k, fmt))[0] != 0, 'signature does not cover the end of a %d byte message' % len(m))
    if len(m) == 0:
        labels.append('!empty')
    if len(m) + 40 >= 136:
        labels.append('!multi-block')
    if len(m) + 40 > 1024:
        labels.append('!long')
    if case['ov_sign'] or case['ov_open']:
        labels.append('!overlap')
    return labels


def strat(ctx=None):
    return st.fixed_dictionaries({
        'lib': st.sampled_from(['nist', 'eth']), 'fmt': st.sampled_from(['nist', 'zk']),
        'key': st.integers(0, 60), 'rb': seeds(), 'ov_sign': st.booleans(), 'ov_open': st.booleans(),
        'msg': st.one_of(blob(6000, top=2200000), blob(300), blob(70000, st.sampled_from(
            [4054, 4055, 4056, 4057, 4096, 4097, 8192, 16384, 32768, 65495, 65496, 65535, 65536, 66000])))})


def corners(ctx):
    return [{'lib': v, 'fmt': f, 'key': 1, 'rb': 1, 'ov_sign': o, 'ov_open': o, 'msg': {'n': n, 's': 7}}
            for v in ('nist', 'eth') for f in ('nist', 'zk') for n in (0, 1, 33, 95, 96, 97, 4055, 4056, 4057, 4100, 65536, 1048575, 1048577, 2500000)
            for o in (False, True)] + \
        [{'lib': v, 'fmt': ('nist', 'zk')[n // 2 % 2], 'key': n % 5, 'rb': n, 'ov_sign': n % 3 == 0, 'ov_open': n % 5 == 0, 'msg': {'n': n, 's': 2}}
         for n in range(420) for v in ('nist', 'eth')]      # every length over three blocks


FACETS = [Facet('roundtrip', strat, run, 5000, 100000, corners,
                rule='key, library variant, format, message (empty, block boundaries, up to 2.5 MB), random bytes and buffer '
                     'overlap drawn; non-trivial = empty, multi-block or long message, overlap, or refused for length')]
