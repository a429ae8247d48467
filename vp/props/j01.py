"""J01: the JavaScript build and the C library accept each other's keys and signatures."""
import os
from hypothesis import strategies as st
from ..core import Facet, Violation, check, REPO
from .. import model as M
from ..clib import PK16, SK, ZK_BYTES
from ..cprops import lib, key, ref_open
from ..gen import Rng, blob, unblob, seeds, ubytes
from ..gobind import Died
from ..wasm import build_wasm, Node

ASSUMPTIONS = ['the shipped module cannot be rebuilt here (no emcc): it is run as it stands; a second module is built from the C sources with clang for wasm32 and a small run time of our own',
               'an altered signature is valid only with negligible probability; the reference verifier decides']


def build(b):
    return {'lib': b.clib('nist'), 'wasm': build_wasm(b)}


WAYS = ['', '', ', ccall', ', ccall with arrays', ', cwrap with arrays', ', cwrap with strings']


def mod(ctx, which, way=0):
    """0: shipped, 1: built from the C sources"""
    if which and not ctx.art['wasm']:
        which = 0
    p = ctx.art['wasm'] if which else os.path.join(REPO, 'falcon', 'falcon.js')
    d = ctx.get(('js', which), lambda: Node(p, ctx.scratch))
    ask(d, 'shipped', b'W', bytes([way]), what='choosing the way to call')
    return d, ['shipped', 'rebuilt'][which] + (WAYS[way] if way > 1 else '')


def ask(d, name, op, *args, what=''):
    try:
        s, a, b = d(op, *args)
    except Died as e:
        raise Violation('%s module, %s: %s' % (name, what, e))
    check(s < 2, lambda: '%s module, %s: %s' % (name, what, a.decode(errors='replace')))
    return s, a, b


def run_key(ctx, case):
    d, name = mod(ctx, case['mod'], case['way'])
    if case['seed'] is None:
        s, pk, sk = ask(d, name, b'K', what='key generation')
        what = 'key pair'
    else:
        seed = unblob(case['seed'])
        what = 'key pair of a seed of %d bytes' % len(seed)
        s, pk, sk = ask(d, name, b'F', seed, what=what)
        s2, pk2, sk2 = ask(d, name, b'F', seed, what=what)
        check((s, pk, sk) == (s2, pk2, sk2), '%s module: %s is not repeatable' % (name, what))
        r, cpk, csk = lib(ctx).keypair_seed('zk', seed)
        check((r == 0) == (s == 0), '%s module: %s: %s, the C library does not agree' % (name, what, 'fails' if s else 'works'))
        if r != 0:
            return ['!seed refused', name]
        check(r == 0 and cpk[:PK16] == pk and csk[:SK] == sk, '%s module: %s is not the one of the C library' % (name, what))
    check(s == 0, '%s module: %s fails' % (name, what))
    check(pk[0] == 9 and sk[0] == 0x59, '%s module: %s has wrong headers' % (name, what))
    f, g, F = M.sk_decode(sk)
    hn = M.pk16_decode(pk)
    check(max(hn) < M.Q and all((int(x) * int(y) - int(z)) % M.Q == 0 for x, y, z in zip(hn, M.ntt(f), M.ntt(g))), '%s module: the public key is not g/f' % name)
    msg = ubytes('j01', case['x'], case['x'] % 300)
    r, sm, _ = lib(ctx).sign('zk', msg, sk, rb=ubytes('j01s', case['x'], 88))
    check(r == 0, '%s module: the C library cannot sign with a secret key of the module' % name)
    check(lib(ctx).open('zk', sm, pk)[1] == msg, '%s module: a signature with a secret key of the module does not open with its public key' % name)
    return ['!seed' if case['seed'] is not None else '!random', name]


def run_sign(ctx, case):
    d, name = mod(ctx, case['mod'], case['way'])
    k = key(ctx, case['key'])
    msg = unblob(case['msg'])
    what = 'signature of %d bytes' % len(msg)
    s, sm, _ = ask(d, name, b'S', msg, k['sk'], what=what)
    check(s == 0, '%s module: signing %d bytes fails' % (name, len(msg)))
    check(len(sm) == len(msg) + ZK_BYTES, '%s module: %s has %d bytes' % (name, what, len(sm)))
    r, m, _, _ = lib(ctx).open('zk', sm, k['pk16'])
    check(r == 0 and m == msg, '%s module: the C library refuses a %s' % (name, what))
    check(ref_open('zk', 'shake', sm, k['pk16']) == msg, '%s module: a %s is not valid' % (name, what))
    s, m, _ = ask(d, name, b'O', sm, k['pk16'], what='opening its ' + what)
    check(s == 0 and m == msg, '%s module: refuses its own %s' % (name, what))
    s, sm2, _ = ask(d, name, b'S', msg, k['sk'], what=what)
    check(s == 0 and sm2[2:42] != sm[2:42], '%s module: two signatures have the same nonce' % name)
    return ['!long' if len(msg) > 600 else '!short', name]


def flip(b, x):
    x %= 8 * len(b)
    return b[:x // 8] + bytes([b[x // 8] ^ (1 << (x % 8))]) + b[x // 8 + 1:]


def run_open(ctx, case):
    d, name = mod(ctx, case['mod'], case['way'])
    kn, k2 = key(ctx, case['key']), key(ctx, case['key'] + 1)
    msg = unblob(case['msg'])
    pk = kn['pk16']

    def mk():
        r, sm, _ = lib(ctx).sign('zk', msg, kn['sk'], rb=ubytes('j01o', len(msg), 88))
        check(r == 0, 'the C library does not sign')
        return sm
    sm = ctx.get(('sm', case['key'], msg[:64], len(msg)), mk)
    rng = Rng('j01', case['seed'])
    k, x = case['k'], case['x']
    sm0, pk0 = sm, pk
    before = case['seed'] % 2 == 0
    if before:
        s, m, _ = ask(d, name, b'O', sm0, pk0, what='opening')
        check(s == 0 and m == msg, '%s module: refuses a signature of the C library' % name)
    if k == 'bit':
        sm = flip(sm, x)
    elif k == 'key bit':
        pk = flip(pk, x)
    elif k == 'other key':
        pk = k2['pk16']
    elif k == 'cut':
        sm = sm[:x % len(sm)]
    elif k == 'extend':
        sm += rng.bytes(1 + x % 100)
    elif k == 'random':
        sm = rng.bytes(x % 3000)
    elif k == 'length field':
        sm = (x % 65536 if x % 3 else [0, 1, 1024, 1026, 2052, 65535][x % 6]).to_bytes(2, 'big') + sm[2:]
    elif k == 'word':
        # a coefficient replaced, also by values which are not below q
        p = len(sm) - 1024 + 2 * (x % 512)
        v = int.from_bytes(sm[p:p + 2], 'big')
        sm = sm[:p] + ([v + 12289, v ^ 1, 12289, 65535, 0, 12288 - v][x // 512 % 6] % 65536).to_bytes(2, 'big') + sm[p + 2:]
    elif k == 'message':
        sm = sm[:42] + (flip(msg, x) if msg else b'x') + sm[42 + len(msg):]
    want = ref_open('zk', 'shake', sm, pk)
    what = 'opening %d bytes (%s)' % (len(sm), k)
    s, m, _ = ask(d, name, b'O', sm, pk, what=what)
    if before:
        s0, m0, _ = ask(d, name, b'O', sm0, pk0, what='opening')
        check(s0 == 0 and m0 == msg, '%s module: refuses a signature of the C library after another call (%s)' % (name, k))
    r, cm, _, _ = lib(ctx).open('zk', sm, pk)
    check((s == 0) == (r == 0), '%s module, %s: %s, the C library %s' % (name, what, 'accepts' if s == 0 else 'refuses', 'accepts' if r == 0 else 'refuses'))
    if want is None:
        check(s != 0, '%s module, %s: accepts' % (name, what))
        return ['!' + k, name]
    check(s == 0 and m == want == cm, '%s module, %s: %s' % (name, what, 'refuses' if s else 'returns another message'))
    return ['!valid', name]


def run_history(ctx, case):
    """any sequence of calls in one process: later calls do not depend on earlier ones"""
    d, name = mod(ctx, case['mod'], case['way'])
    pairs, sms = [(key(ctx, 1)['pk16'], key(ctx, 1)['sk'])], []
    nonces = set()
    for op, x in case['ops']:
        if op == 'K':
            s, pk, sk = ask(d, name, b'K', what='key generation')
            check(s == 0 and pk not in [p for p, _ in pairs], '%s module: a key pair repeats' % name)
            pairs.append((pk, sk))
        elif op == 'F':
            s, pk, sk = ask(d, name, b'F', ubytes('j01h', x, 32), what='key generation')
            check(s == 0, '%s module: key generation fails' % name)
            pairs.append((pk, sk))
        elif op == 'S':
            i = x % len(pairs)
            msg = ubytes('j01m', x, x % 2000 if x % 7 else 300000)
            s, sm, _ = ask(d, name, b'S', msg, pairs[i][1], what='signing')
            check(s == 0, '%s module: signing fails' % name)
            check(sm[2:42] not in nonces, '%s module: a nonce repeats' % name)
            nonces.add(sm[2:42])
            sms.append((i, msg, sm))
        elif op == 'X':
            ask(d, name, b'S', b'm', bytes([x % 256]) + ubytes('bad', x, SK - 1), what='signing with a wrong key')
        elif sms:
            i, msg, sm = sms[x % len(sms)]
            j = i if x % 3 else x // 3 % len(pairs)
            s, m, _ = ask(d, name, b'O', sm, pairs[j][0], what='opening')
            check((s == 0 and m == msg) == (pairs[i][0] == pairs[j][0]), '%s module: a signature %s after %d calls' % (name, 'is refused' if s else 'opens with another key', len(case['ops'])))
            check(lib(ctx).open('zk', sm, pairs[i][0])[1] == msg, '%s module: the C library refuses a signature' % name)
    return ['!history' if len(case['ops']) > 2 else 'short', name]


TEXT = st.text(st.one_of(st.characters(min_codepoint=1, max_codepoint=0x7f), st.characters(min_codepoint=1, exclude_categories=['Cs']), st.sampled_from('\x7f\x80\u07ff\u0800\uffff\U00010000\U0010ffff')), max_size=60)


def run_glue(ctx, case):
    """many calls with large or held buffers: the heap grows when it must, what is released is used again, and ccall leaves the stack as it was"""
    d, name = mod(ctx, 0, case['way'])
    k = key(ctx, case['key'])
    kind = case['kind']
    if kind == 'text':
        for t in case['texts']:
            msg = t.encode()
            s, sm, _ = ask(d, name, b'S', msg, k['sk'], what='signing a text')
            check(s == 0 and lib(ctx).open('zk', sm, k['pk16'])[1] == msg, '%s module: the text %r is not the one signed' % (name, t))
        return ['!text', name]
    n = {'big': 6000000 + case['x'] % 12000000, 'heap': 250000 + case['x'] % 100000, 'stack': case['x'] % 3000}[kind]
    msg = ubytes('j01g', case['x'] % 64, 64) * (n // 64)
    r, sm, _ = lib(ctx).sign('zk', msg, k['sk'], rb=ubytes('j01g', 5, 88))
    check(r == 0, 'the C library does not sign')
    size = []
    for i in range({'big': 1, 'heap': 160, 'stack': 120}[kind]):
        s, m, _ = ask(d, name, b'O', sm, k['pk16'], what='opening (call %d of %d bytes)' % (i + 1, len(sm)))
        check(s == 0 and m == msg, '%s module: call %d: a signature of %d bytes is refused' % (name, i + 1, len(msg)))
        size.append(int.from_bytes(ask(d, name, b'N', what='heap size')[1], 'little'))
    s, sm2, _ = ask(d, name, b'S', msg, k['sk'], what='signing %d bytes' % len(msg))
    check(s == 0 and lib(ctx).open('zk', sm2, k['pk16'])[1] == msg, '%s module: cannot sign %d bytes' % (name, len(msg)))
    check(size[-1] <= max(2 * size[0], size[0] + (24 << 20)), '%s module: the heap grows from %d to %d bytes although all buffers are released' % (name, size[0], size[-1]))
    return ['!' + kind, name]


def run_fresh(ctx, case):
    d = [Node(os.path.join(REPO, 'falcon', 'falcon.js'), ctx.scratch) for _ in range(2)]
    try:
        if case['op'] == 'K':
            a, b = [ask(x, 'shipped', b'K', what='key generation')[1] for x in d]
            check(a != b, 'two processes of the shipped module generate the same key pair', key='js-unseeded')
        else:
            a, b = [ask(x, 'shipped', b'S', b'message', key(ctx, 1)['sk'], what='signing')[1][2:42] for x in d]
            check(a != b, 'two processes of the shipped module sign with the same nonce', key='js-unseeded')
    finally:
        for x in d:
            x.stop()
    return ['!two processes']


KEY = st.integers(0, 5)
MOD = st.sampled_from([0, 0, 1])
WAY = st.sampled_from([0, 0, 1, 2, 3, 4, 5])
X = st.integers(0, 2 ** 24)
MSG = st.one_of(blob(3000), st.fixed_dictionaries({'n': st.sampled_from([0, 1, 95, 96, 97, 4056, 4057, 10000, 65536, 1000000]), 's': seeds(8)}))
FACETS = [
    Facet('keys', st.fixed_dictionaries({'mod': MOD, 'way': WAY, 'seed': st.one_of(st.none(), blob(200), st.fixed_dictionaries({'n': st.sampled_from([0, 31, 32, 33, 48, 135, 136, 137, 1000]), 's': seeds()})), 'x': X}),
          run_key, 300, 5000, rule='every key pair', corners=[{'mod': m, 'way': 0, 'seed': s, 'x': 5} for m in (0, 1) for s in [None] + [{'n': n, 's': 7} for n in (0, 31, 32, 48, 136)]]),
    Facet('sign', st.fixed_dictionaries({'mod': MOD, 'way': WAY, 'key': KEY, 'msg': MSG}), run_sign, 600, 10000, rule='every message',
          corners=[{'mod': m, 'way': 0, 'key': 1, 'msg': {'n': n, 's': 3}} for m in (0, 1) for n in (0, 1, 96, 1000, 65536)]),
    Facet('open', st.fixed_dictionaries({'mod': MOD, 'way': WAY, 'key': KEY, 'msg': blob(400), 'seed': seeds(), 'x': X, 'k': st.sampled_from(
        ['none', 'bit', 'bit', 'key bit', 'other key', 'cut', 'extend', 'random', 'length field', 'word', 'message'])}), run_open, 4000, 40000, rule='every bundle',
        corners=[{'mod': m, 'way': 0, 'key': 1, 'msg': {'n': 30, 's': 3}, 'seed': i, 'x': i * 77, 'k': k} for m in (0, 1) for k in ('none', 'length field', 'word', 'cut', 'random') for i in range(8)]),
    Facet('history', st.fixed_dictionaries({'mod': MOD, 'way': WAY, 'ops': st.lists(st.tuples(st.sampled_from('KFSSXVV'), X).map(list), max_size=20)}), run_history, 150, 3000, rule='three calls or more'),
    Facet('glue', st.fixed_dictionaries({'kind': st.sampled_from(['text', 'text', 'heap', 'stack', 'stack', 'big']), 'way': WAY, 'key': KEY, 'x': X, 'texts': st.lists(TEXT, min_size=1, max_size=4)}), run_glue, 40, 1500, rule='every case',
          corners=[{'kind': k, 'way': w, 'key': 1, 'x': 12000000, 'texts': ['a\x7f\u20ac\U0001f600', 'b']} for k, w in (('big', 1), ('heap', 1), ('stack', 3), ('stack', 4), ('text', 5), ('text', 3), ('text', 2))]),
    Facet('fresh', st.fixed_dictionaries({'op': st.sampled_from('KS')}), run_fresh, 4, 20, rule='every pair of processes', corners=[{'op': 'K'}, {'op': 'S'}], max_shards=1),
]
