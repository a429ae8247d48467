"""S08: data stored as contract code (SSTORE2) reads back exactly, whole or by range."""
from hypothesis import strategies as st
from ..core import Facet, check
from ..gen import blob, unblob
from ..solprops import *

MAX = 2 ** 256 - 1
LIMIT = 24576       # code size limit of a contract; one byte goes to the leading zero


def build(b):
    return build_sol(b, 'falcon', 'ethfalcon', drv=['Sstore'])


def drv(ctx):
    return contract(ctx, 'VpSstore')


def data(case):
    d = unblob(case['d'])
    k, n = case.get('k', 'plain'), case.get('n', 0)
    if k == 'long':
        d = (d + b'\x5b') * (n // (len(d) + 1) + 1)
        d = d[:n]
    elif k == 'prefix':
        d = [b'\xef', b'\x00', b'\x63', b'\xf3', b'\xff'][n % 5] + d
    return d


def addr(a):
    return a if isinstance(a, str) else '0x' + bytes(a)[-20:].hex()


def put(ctx, d):
    """write d; inside a snapshot of the caller"""
    return vm(ctx).call(drv(ctx), 'write(bytes)', d)


def get(ctx, sig, a, *args):
    return vm(ctx).call(drv(ctx), sig, a, *args)


def same(r, want, what):
    got = value(r, ['bytes'], what)
    if got != want:
        check(len(got) == len(want), '%s: %d bytes, not %d' % (what, len(got), len(want)))
        i = next(i for i in range(len(want)) if got[i] != want[i])
        check(False, '%s: byte %d is %02x, not %02x' % (what, i, got[i], want[i]))


def ranges(ctx, a, d, s, e):
    """d: what the code holds after the leading byte"""
    n = len(d)
    r = get(ctx, 'read1(address,uint256)', a, s)
    if s == MAX:
        refused(r, 'read from 2^256-1')
    else:
        same(r, d[s:] if s <= n else b'', 'read from %d of %d bytes' % (s, n))
    r = get(ctx, 'read2(address,uint256,uint256)', a, s, e)
    if s == MAX or e == MAX:
        refused(r, 'read of a range that ends at 2^256-1')
    elif s > n:
        same(r, b'', 'read from beyond the end')
    elif e < s:
        refused(r, 'read of [%d, %d) of %d bytes' % (s, e, n))
    else:
        same(r, d[s:min(e, n)], 'read of [%d, %d) of %d bytes' % (s, e, n))
    c = b'\x00' + d
    r = get(ctx, 'at(address,uint256,uint256)', a, s, e)
    if s > len(c):
        same(r, b'', 'codeAt beyond the end')
    elif e < s:
        refused(r, 'codeAt(%d, %d)' % (s, e))
    else:
        same(r, c[s:min(e, len(c))], 'codeAt(%d, %d) of %d bytes' % (s, e, len(c)))


def fix(x, n):
    """a position given relative to the length"""
    k, v = x
    return v if k == 0 else max(0, n + v) if k == 1 else MAX - v % 40 if k == 2 else (v * n) >> 16


def run_rt(ctx, case):
    d = data(case)
    v = vm(ctx)
    drv(ctx)
    snap = v.snapshot()
    try:
        r = put(ctx, d)
        if len(d) + 1 > LIMIT:
            refused(r, 'write of %d bytes, beyond the code size limit' % len(d))
            return ['!too long']
        a = addr(value(r, ['address'], 'write of %d bytes' % len(d)))
        check(int(a, 16) != 0, 'write returns the zero address')
        same(get(ctx, 'code(address)', a), b'\x00' + d, 'code stored')
        same(get(ctx, 'read(address)', a), d, 'read of %d bytes' % len(d))
        check(value(get(ctx, 'size(address)', a), ['uint256'], 'codeSize') == len(d) + 1, 'codeSize')
        ranges(ctx, a, d, fix(case['s'], len(d)), fix(case['e'], len(d)))
        # called, it does nothing (starts with STOP): no answer, no revert
        return ['!' + ('empty' if not d else case.get('k', 'plain'))]
    finally:
        v.rollback(snap)


def run_many(ctx, case):
    """several writes: pointers differ, no write disturbs another, values read together do not overlap in memory"""
    v = vm(ctx)
    drv(ctx)
    snap = v.snapshot()
    try:
        held = []
        out = set()
        for op in case['ops']:
            if op['op'] == 'w' or not held:
                op = op if 'd' in op else {'d': {'hex': '0102030405'}}
                d = data(op)[:LIMIT - 1]
                a = addr(value(put(ctx, d), ['address'], 'write'))
                check(a not in [x for x, _ in held], 'two writes give the same pointer')
                held.append((a, d))
                out.add('w')
            elif op['op'] == 'r':
                a, d = held[op['i'] % len(held)]
                same(get(ctx, 'read(address)', a), d, 'read after other writes')
                ranges(ctx, a, d, fix(op['s'], len(d)), fix(op['e'], len(d)))
                out.add('r')
            elif op['op'] == 'b':
                a, d = held[op['i'] % len(held)]
                b, f = held[op['j'] % len(held)]
                s = fix(op['s'], len(d)) % (len(d) + 1)
                e = s + fix(op['e'], len(d)) % (len(d) + 2)
                got = value(get(ctx, 'both(address,address,uint256,uint256)', a, b, s, e), ['bytes'] * 4, 'reads together')
                check([bytes(x) for x in got] == [d, f, d[s:e], bytes(range(1, 101))], 'values read together: one is changed by another')
                out.add('b')
            else:
                # an address that holds nothing
                a = '0x%040x' % (0xdead0000 + op['i'])
                for r in (get(ctx, 'read(address)', a), get(ctx, 'read1(address,uint256)', a, op['i'])):
                    same(r, b'', 'read of an address without code')
                out.add('n')
        for a, d in held:
            same(get(ctx, 'read(address)', a), d, 'read at the end')
        return ['!' + ''.join(sorted(out))]
    finally:
        v.rollback(snap)


def run_init(ctx, case):
    """the creation code deploys exactly the bytes asked for"""
    c = data(case)
    code = value(vm(ctx).call(drv(ctx), 'init(bytes)', c), ['bytes'], 'creationCodeFor')
    v = vm(ctx)
    check(len(code) >= len(c) and code.endswith(c), 'creationCodeFor: does not end with the code')
    want = b'\x63' + len(c).to_bytes(4, 'big') + bytes.fromhex('80600e6000396000f3') + c
    check(code == want, 'creationCodeFor: not the documented prefix')
    return ['!' + case.get('k', 'plain')]


POS = st.tuples(st.integers(0, 3), st.integers(0, 70)) | st.tuples(st.just(3), st.integers(0, 65536)) | st.tuples(st.just(1), st.integers(-70, 70)) \
    | st.tuples(st.just(0), st.sampled_from([0, 1, 31, 32, 33, 24574, 24575, 24576, 2 ** 32, 2 ** 255]))
D = {'d': blob(400), 'k': st.sampled_from(['plain', 'plain', 'prefix', 'long']),
     'n': st.one_of(st.integers(0, 24575), st.sampled_from([24574, 24575, 24576, 24577, 30000, 255, 256, 65535, 65536]))}
OP = st.one_of(st.fixed_dictionaries(dict(D, op=st.just('w'))),
               st.fixed_dictionaries({'op': st.sampled_from(['r', 'b', 'n']), 'i': st.integers(0, 9), 'j': st.integers(0, 9), 's': POS, 'e': POS}))
FACETS = [
    Facet('roundtrip', st.fixed_dictionaries(dict(D, s=POS, e=POS)), run_rt, 3000, 100000, rule='every write',
          corners=[{'d': {'hex': '5a' * i}, 'k': 'plain', 'n': 0, 's': [0, s], 'e': [1, e]} for i in (0, 1, 2, 31, 32, 33, 63, 64, 65)
                   for s in (0, 1, 31, 32, 33) for e in (-33, -1, 0, 1, 2)]
          + [{'d': {'hex': 'c3'}, 'k': 'long', 'n': n, 's': [0, 0], 'e': [1, 0]} for n in (1023, 1024, 1088, 24574, 24575, 24576, 24577, 49000)]),
    Facet('history', st.fixed_dictionaries({'ops': st.lists(OP, min_size=1, max_size=12)}), run_many, 600, 20000, rule='every history'),
    Facet('creation', st.fixed_dictionaries(dict(D)), run_init, 300, 10000, rule='every code'),
]
