"""G01: Go binding: any message signs and verifies, altered ones fail, bad input errors."""
import struct
from hypothesis import strategies as st
from ..core import Facet, Violation, check
from .. import model as M
from ..clib import PK, SK
from ..cprops import lib, key, ref_open
from ..gen import Rng, blob, unblob, seeds, ubytes
from ..gobind import build_driver, Driver, Died

ASSUMPTIONS = ['the C library and the Go program are built with AddressSanitizer: memory errors that it does not see are missed',
               'a random alteration of a signature is a valid signature only with negligible probability; the reference verifier decides']


def build(b):
    return {'go': build_driver(b), 'lib': b.clib('nist')}


def go(ctx):
    return ctx.get('go', lambda: Driver(ctx.art['go'], ctx.scratch))


def ask(ctx, op, *args, what=''):
    try:
        r = go(ctx)(op, *args)
    except Died as e:
        raise Violation('%s: %s' % (what, e))
    check(r[0] != 2, lambda: '%s: panics: %s' % (what, r[1].decode(errors='replace')))
    check(r[0] != 3, lambda: '%s: %s' % (what, r[1].decode(errors='replace')))
    return r


def pair(ctx, i):
    """a key pair of the binding (i = 0) or of the C library"""
    if i == 0:
        def mk():
            st, pk, sk = ask(ctx, b'K', what='GenerateKeypair')
            check(st == 0, 'GenerateKeypair fails: %r' % pk)
            check(len(pk) == PK and len(sk) == SK, 'GenerateKeypair returns %d and %d bytes' % (len(pk), len(sk)))
            return pk, sk
        return ctx.get('pair', mk)
    k = key(ctx, i)
    return k['pk'], k['sk']


def sign(ctx, msg, sk):
    what = 'SignMessage of %d bytes' % len(msg)
    st, sm, _ = ask(ctx, b'S', msg, sk, what=what)
    check(st == 0, '%s fails: %r' % (what, sm))
    return sm


def verify(ctx, sm, msg, pk, what):
    """True, False or None (error)"""
    st, v, _ = ask(ctx, b'V', sm, msg, pk, what='VerifySignature (%s)' % what)
    return None if st else v == b'\x01'


def run_roundtrip(ctx, case):
    pk, sk = pair(ctx, case['key'])
    msg = unblob(case['msg'])
    sm = sign(ctx, msg, sk)
    check(ref_open('nist', 'shake', sm, pk) == msg, 'the signature of a message of %d bytes is not valid' % len(msg))
    r, m, _, _ = lib(ctx).open('nist', sm, pk)
    check(r == 0 and m == msg, 'the C library refuses a signature of the Go binding (%d bytes of message)' % len(msg))
    check(verify(ctx, sm, msg, pk, 'own signature') is True, 'own signature of a message of %d bytes is refused' % len(msg))
    x = case['x']
    others = [msg + b'\x00', msg[:-1] if msg else b'a', b'', msg * 2 if msg else b'\x00']
    if msg:
        i = x % (8 * len(msg))
        others.append(msg[:i // 8] + bytes([msg[i // 8] ^ (1 << (i % 8))]) + msg[i // 8 + 1:])
    for o in others:
        if o != msg:
            check(verify(ctx, sm, o, pk, 'another message') is not True, 'a signature verifies for another message (%d and %d bytes)' % (len(msg), len(o)))
    pk2 = pair(ctx, 1 + (case['key'] + x % 5) % 7)[0]
    if pk2 != pk:
        check(verify(ctx, sm, msg, pk2, 'another key') is not True, 'a signature verifies for another key')
    if msg:
        sm2 = sign(ctx, msg, sk)
        check(sm2[2:42] != sm[2:42], 'two signatures of a message have the same nonce')
    return ['!long' if len(msg) > 600 else '!short', 'go key' if case['key'] == 0 else 'c key', 'empty' if not msg else 'message']


def run_alter(ctx, case):
    pk, sk = pair(ctx, case['key'])
    msg = unblob(case['msg'])
    sm = ctx.get(('sm', case['key'], msg[:64], len(msg)), lambda: sign(ctx, msg, sk))
    rng = Rng('g01', case['seed'])
    k, x = case['k'], case['x']
    m2, sm0, pk0 = msg, sm, pk
    before = x % 2 == 0
    if before:
        check(verify(ctx, sm, msg, pk, 'own signature') is True, 'own signature of a message of %d bytes is refused' % len(msg))
    if k == 'bit':
        sm = flip(sm, x)
    elif k == 'key bit':
        pk = flip(pk, x)
    elif k == 'truncate':
        sm = sm[:x % len(sm)]
    elif k == 'extend':
        sm += rng.bytes(1 + x % 2000)
    elif k == 'random':
        sm = rng.bytes(x % 3000)
    elif k == 'length field':
        sm = struct.pack('>H', [x, 0, 1, 65535, len(sm), len(sm) - 42, len(sm) - 41, len(msg)][x % 8] % 65536) + sm[2:]
    elif k == 'key length':
        pk = [b'', None, pk[:-1], pk + b'\x00', pk[:x % 897], rng.bytes(x % 1200)][x % 6]
    elif k == 'nothing':
        sm = [b'', None][x % 2]
    elif k == 'message' and msg:
        m2 = flip(msg, x >> 1)
        sm = sm[:42] + m2 + sm[42 + len(msg):]
    elif k == 'no message':
        m2 = [b'', None][x % 2]
    elif k == 'long claim':
        # a bundle whose signature part is short, so that the message part is long
        sm = struct.pack('>H', 1 + x % 40) + rng.bytes(40) + rng.bytes(500 + x % 3000)
    want = None
    if pk is not None and len(pk) == PK and sm:
        want = ref_open('nist', 'shake', sm, pk)
    got = verify(ctx, sm, m2, pk, k)
    if want is not None and want == (m2 or b''):
        check(got is True, 'a valid signature is refused (%s)' % k)
        return ['valid', k]
    check(got is not True, 'VerifySignature accepts (%s)' % k)
    if before:
        check(verify(ctx, sm0, msg, pk0, 'own signature') is True, 'own signature of a message of %d bytes is refused after another call (%s)' % (len(msg), k))
    return ['!' + k, 'error' if got is None else 'false']


def flip(b, x):
    x %= 8 * len(b)
    return b[:x // 8] + bytes([b[x // 8] ^ (1 << (x % 8))]) + b[x // 8 + 1:]


def run_sk(ctx, case):
    """signing with keys that are not keys"""
    pk, sk = pair(ctx, case['key'])
    rng = Rng('g01s', case['seed'])
    msg = [unblob(case['msg']), None][case['nil']]
    k, x = case['k'], case['x']
    good = False
    if k == 'none':
        good = True
    elif k == 'length':
        sk = [b'', None, sk[:-1], sk + b'\x00', sk[:x % 1281], rng.bytes(x % 2000)][x % 6]
        good = sk is not None and sk == pair(ctx, case['key'])[1]
    elif k == 'header':
        sk = bytes([sk[0] ^ (1 << (x % 8))]) + sk[1:]
    elif k == 'random':
        sk = b'\x59' + rng.bytes(1280)
    if good:
        sm = sign(ctx, msg or b'', sk) if msg is not None else None
        if sm is None:
            st, sm, _ = ask(ctx, b'S', None, sk, what='SignMessage of nil')
            check(st == 0, 'SignMessage of nil fails')
        check(verify(ctx, sm, msg, pk, 'own signature') is True, 'own signature is refused')
        return ['!valid key']
    st, sm, _ = ask(ctx, b'S', msg, sk, what='SignMessage with a secret key of %s bytes (%s)' % ('no' if sk is None else len(sk), k))
    if k in ('length', 'header'):
        check(st == 1, 'SignMessage accepts a secret key with a wrong %s' % k)
    return ['!' + k]


def run_fresh(ctx, case):
    """processes, eight at a time: nothing may repeat"""
    seen = {}
    drv = []
    try:
        for j in range(len(case['ops'])):
            if j % 8 == 0:
                while drv:
                    drv.pop().stop()
                drv = [Driver(ctx.art['go'], ctx.scratch) for _ in case['ops'][j:j + 8]]
            d = drv[j % 8]
            for i, op in enumerate(case['ops'][j] or ['K']):
                try:
                    if op == 'K':
                        s, a, b = d(b'K')
                        check(s == 0, 'GenerateKeypair fails')
                        vals = [a, b]
                    else:
                        s, sm, _ = d(b'S', b'message', key(ctx, 1)['sk'])
                        check(s == 0, 'SignMessage fails')
                        vals = [sm[2:42]]
                except Died as e:
                    raise Violation('binding: %s' % e)
                for v in vals:
                    check(v not in seen, lambda: '%s repeats: call %d of process %d and call %d of process %d' %
                          ('key' if op == 'K' else 'nonce', i, j, seen[v][1], seen[v][0]))
                    seen[v] = (j, i)
    finally:
        for d in drv:
            d.stop()
    return ['!%s processes' % ('two' if len(case['ops']) == 2 else 'many')]


def run_parallel(ctx, case):
    pk, sk = pair(ctx, case['key'])
    msg = unblob(case['msg'])
    d = go(ctx)
    try:
        d.send(b'P', msg, sk, pk)
        d.read(1)
        cnt = struct.unpack('<i', d.read(4))[0]
        res = [(d.blob(), d.blob(), d.blob()) for _ in range(cnt)]
    except Died as e:
        raise Violation('calls at the same time: %s' % e)
    for a, k, bad in res:
        check(not bad, lambda: 'calls at the same time: ' + bad.decode(errors='replace'))
    ns = [a[2:42] for a, _, _ in res]
    check(len(set(ns)) == len(ns), 'calls at the same time: two signatures have the same nonce')
    ks = [k for _, k, _ in res if k]
    check(len(set(ks)) == len(ks), 'calls at the same time: two key pairs are the same')
    for a, _, _ in res[:2]:
        check(ref_open('nist', 'shake', a, pk) == msg, 'calls at the same time: signature not valid')
    return ['!parallel']


def anylen():
    return st.one_of(blob(5000), st.fixed_dictionaries({'n': st.sampled_from([614, 640, 641, 648, 983, 984, 1023, 1024, 1025, 1026, 1330, 4096, 65535, 65536, 100000, 300000]),
                                                       's': seeds(20)}))


KEY = st.integers(0, 7)
FACETS = [
    Facet('roundtrip', st.fixed_dictionaries({'key': KEY, 'msg': anylen(), 'x': st.integers(0, 2 ** 24)}), run_roundtrip, 500, 15000, rule='every message',
          corners=[{'key': i % 2, 'msg': {'n': n, 's': 3}, 'x': 5} for i, n in enumerate([0, 1, 641, 642, 983, 1024, 1025, 1300, 2000, 70000])]),
    Facet('alter', st.fixed_dictionaries({'key': KEY, 'msg': blob(1500), 'seed': seeds(), 'x': st.integers(0, 2 ** 24), 'k': st.sampled_from(
        ['bit', 'bit', 'message', 'key bit', 'truncate', 'extend', 'random', 'length field', 'key length', 'nothing', 'no message', 'long claim'])}),
        run_alter, 1500, 40000, rule='altered input',
        corners=[{'key': 1, 'msg': {'n': 20, 's': 3}, 'seed': i, 'x': i, 'k': k} for k in ('length field', 'key length', 'nothing', 'no message', 'long claim') for i in range(8)]),
    Facet('secret', st.fixed_dictionaries({'key': KEY, 'msg': blob(800), 'nil': st.booleans().map(int), 'seed': seeds(), 'x': st.integers(0, 2 ** 24),
                                           'k': st.sampled_from(['none', 'length', 'length', 'header', 'random'])}), run_sk, 300, 8000, rule='every call',
          corners=[{'key': 1, 'msg': {'n': 20, 's': 3}, 'nil': i % 2, 'seed': i, 'x': i, 'k': 'length'} for i in range(12)]),
    Facet('fresh', st.fixed_dictionaries({'ops': st.lists(st.lists(st.sampled_from(['K', 'S', 'S']), max_size=6), min_size=2, max_size=2)}), run_fresh, 40, 1000,
          rule='every set of processes', corners=[{'ops': [['S']] * 96}]),
    Facet('parallel', st.fixed_dictionaries({'key': KEY, 'msg': blob(300)}), run_parallel, 150, 6000, rule='every call'),
]
