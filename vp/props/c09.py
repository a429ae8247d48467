"""C09: C sponge and Keccak generators depend only on the bytes absorbed."""
import ctypes as C
import hashlib
from hypothesis import strategies as st
from ..core import Facet, check
from .. import model as M
from ..cprops import *
from ..gen import Rng, blob, unblob, seeds, chunks, ubytes


def build(b):
    return {'lib': b.clib('nist'), 'poke': b.poke()}


def run_shake(ctx, case):
    L = lib(ctx)
    d = L.d
    sc = C.create_string_buffer(b'\xAB' * d.vp_sizeof_shake(), d.vp_sizeof_shake())
    d.vp_shake_init(sc)
    data = b''
    labels = []
    for b in case['in']:
        x = unblob(b)
        d.vp_shake_inject(sc, x, C.c_size_t(len(x)))
        data += x
    d.vp_shake_flip(sc)
    total = sum(case['out'])
    ref = hashlib.shake_256(data).digest(total)
    p = 0
    for n in case['out']:
        buf = C.create_string_buffer(b'\x99' * (n + 8), n + 8)
        d.vp_shake_extract(sc, buf, C.c_size_t(n))
        check(buf.raw[:n] == ref[p:p + n], 'SHAKE256 output differs: %d bytes absorbed in %d calls, read of %d at offset %d' % (len(data), len(case['in']), n, p))
        check(buf.raw[n:] == b'\x99' * 8, 'SHAKE256 extract wrote past the request')
        p += n
    if len(case['in']) > 1 or len(case['out']) > 1:
        labels.append('!split')
    if len(data) >= 136:
        labels.append('!multi-block-in')
    if total > 136:
        labels.append('!multi-block-out')
    return labels


def sizes():
    return st.one_of(st.integers(0, 40), st.sampled_from([0, 1, 7, 8, 31, 32, 33, 64, 135, 136, 137, 271, 272, 273, 500]), st.integers(0, 700))


def strat_shake(ctx=None):
    return st.fixed_dictionaries({'in': st.lists(blob(900), max_size=7), 'out': st.lists(sizes(), min_size=1, max_size=8)})


OPS = ['inject', 'flip', 'extract']


def run_kprng(ctx, case):
    """history of calls in any order against a model"""
    L = lib(ctx)
    d = L.d
    cap = 4096
    kc = C.create_string_buffer(b'\xAB' * d.vp_sizeof_keccak_prng(), d.vp_sizeof_keccak_prng())
    check(d.vp_kp_init(kc) == 0, 'init failed')
    data, fin, pos = b'', False, 0
    labels = set()
    for op, arg in case['ops']:
        if op == 'inject':
            x = unblob(arg)
            before = kc.raw
            r = d.vp_kp_inject(kc, x, C.c_size_t(len(x)))
            if fin:
                check(r != 0, 'absorbing after finalisation is accepted')
                check(kc.raw == before, 'refused absorb changed the state')
                labels.add('!late-inject')
            elif len(data) + len(x) > cap:
                check(r != 0, 'absorbing %d+%d bytes is accepted' % (len(data), len(x)))
                check(kc.raw == before, 'refused absorb changed the state')
                labels.add('!overflow')
            else:
                check(r == 0, 'absorb of %d bytes after %d refused' % (len(x), len(data)))
                data += x
        elif op == 'init':
            check(d.vp_kp_init(kc) == 0, 'init failed')
            data, fin, pos = b'', False, 0
            labels.add('!reinit')
        elif op == 'flip':
            r = d.vp_kp_flip(kc)
            if fin:
                check(r != 0, 'finalising twice is accepted')
                labels.add('!double-flip')
            else:
                check(r == 0, 'flip refused')
                fin = True
        else:
            n = arg
            buf = C.create_string_buffer(b'\x99' * (n + 8), n + 8)
            r = d.vp_kp_extract(kc, buf, C.c_size_t(n))
            if not fin:
                check(r != 0, 'squeezing before finalisation is accepted')
                check(buf.raw == b'\x99' * (n + 8), 'refused squeeze wrote output')
                labels.add('!early-extract')
            else:
                check(r == 0, 'extract refused')
                ref = M.keccak_ctr(data, pos + n)
                check(buf.raw[:n] == ref[pos:], 'Keccak generator output differs (%d bytes absorbed, read of %d at offset %d)' % (len(data), n, pos))
                check(buf.raw[n:] == b'\x99' * 8, 'extract wrote past the request')
                pos += n
                if n % 32 or pos % 32:
                    labels.add('!partial-block')
    return sorted(labels)


def op_strat():
    return st.one_of(st.tuples(st.just('inject'), st.one_of(blob(300), blob(4200))).map(list),
                     st.tuples(st.just('extract'), sizes()).map(list), st.tuples(st.just('flip'), st.just(0)).map(list))


def strat_kprng(ctx=None):
    inj = st.tuples(st.just('inject'), st.one_of(blob(300), blob(4200))).map(list)
    ext = st.tuples(st.just('extract'), sizes()).map(list)
    usual = st.tuples(st.lists(inj, max_size=5), st.lists(ext, min_size=1, max_size=8)).map(lambda t: t[0] + [['flip', 0]] + t[1])
    again = st.tuples(usual, usual).map(lambda t: t[0] + [['init', 0]] + t[1])
    return st.fixed_dictionaries({'ops': st.one_of(usual, again, st.lists(op_strat(), max_size=12))})


def run_keccak(ctx, case):
    L = lib(ctx)
    d = L.d
    data = unblob(case['data'])
    cx = C.create_string_buffer(b'\xAB' * (d.vp_sizeof_sha3() + 64), d.vp_sizeof_sha3() + 64)
    d.keccak_init(cx)
    raw = C.create_string_buffer(data + b'\x00' * 8, len(data) + 8)   # message at varying alignment
    off = 0
    parts = chunks(data, case['cuts'])
    for p in parts:
        b = C.create_string_buffer(b'\x00' * case['align'] + p, case['align'] + len(p) + 8)
        d.keccak_update(cx, C.byref(b, case['align']), C.c_size_t(len(p)))
    out = C.create_string_buffer(b'\x99' * 40, 40)
    d.keccak_final(cx, out)
    check(out.raw[:32] == M.keccak256(data), 'Keccak-256 of %d bytes in %d updates differs' % (len(data), len(parts)))
    check(out.raw[32:] == b'\x99' * 8, 'keccak_final wrote past 32 bytes')
    check(cx.raw[d.vp_sizeof_sha3():] == b'\xAB' * 64, 'context overrun')
    return ['!split' if len(parts) > 1 else 'whole', '!multi' if len(data) >= 136 else 'single', 'align%d' % case['align']]


def strat_keccak(ctx=None):
    return st.fixed_dictionaries({'data': st.one_of(blob(1200), blob(200000, st.sampled_from([65535, 65536, 65537, 65672, 131072, 70000]))),
                                  'cuts': st.lists(st.one_of(st.integers(0, 1300), st.sampled_from([135, 136, 137, 272, 1, 65536])), max_size=5),
                                  'align': st.integers(0, 7)})


def run_long(ctx, case):
    """outputs of many blocks: the block counter carries, reads of any size are contiguous."""
    d = lib(ctx).d
    data = unblob(case['data'])
    n = case['n']
    ref = M.keccak_ctr(data, n)
    sref = hashlib.shake_256(data).digest(n)
    kc = C.create_string_buffer(d.vp_sizeof_keccak_prng())
    sc = C.create_string_buffer(d.vp_sizeof_shake())
    d.vp_kp_init(kc)
    d.vp_shake_init(sc)
    check(d.vp_kp_inject(kc, data, C.c_size_t(len(data))) == 0, 'absorb refused')
    d.vp_shake_inject(sc, data, C.c_size_t(len(data)))
    d.vp_kp_flip(kc)
    d.vp_shake_flip(sc)
    pos = 0
    rng = Rng('long', case['s'])
    while pos < n:
        k = min(n - pos, case['step'] + rng.below(40))
        a = C.create_string_buffer(k)
        check(d.vp_kp_extract(kc, a, C.c_size_t(k)) == 0, 'extract refused')
        check(a.raw == ref[pos:pos + k], 'Keccak generator output differs in bytes %d to %d' % (pos, pos + k))
        d.vp_shake_extract(sc, a, C.c_size_t(k))
        check(a.raw == sref[pos:pos + k], 'SHAKE256 output differs in bytes %d to %d' % (pos, pos + k))
        pos += k
    return ['!%d' % (n // 8192)] if n > 8192 else []


def run_counter(ctx, case):
    """the block counter has 64 bits (the counter is set directly; left out when that has no known effect)."""
    if not ctx.art.get('poke'):
        return ['unavailable']
    d = lib(ctx).d
    pk = ctx.get('poke', lambda: C.CDLL(ctx.art['poke']))
    data = unblob(case['data'])
    st0 = M.keccak256(data)

    def read(ctr, n):
        kc = C.create_string_buffer(d.vp_sizeof_keccak_prng())
        d.vp_kp_init(kc)
        d.vp_kp_inject(kc, data, C.c_size_t(len(data)))
        d.vp_kp_flip(kc)
        pk.vp_kp_counter(kc, C.c_uint64(ctr))
        o = C.create_string_buffer(n)
        d.vp_kp_extract(kc, o, C.c_size_t(n))
        return o.raw

    def ref(ctr, n):
        return b''.join(M.keccak256(st0 + ((ctr + i) % 2 ** 64).to_bytes(8, 'big')) for i in range((n + 31) // 32))[:n]
    if not ctx.get('pokeworks', lambda: all(read(x, 70) == ref(x, 70) for x in (0, 5, 9))):
        return ['unavailable']
    n = 20 + case['s'] % 200
    check(read(case['ctr'], n) == ref(case['ctr'], n), 'Keccak generator: block %d differs' % case['ctr'])
    return ['!counter']


FACETS = [
    Facet('long', lambda ctx: st.fixed_dictionaries({'data': blob(200), 'n': st.integers(8000, 40000), 'step': st.sampled_from([1, 2, 17, 64, 500, 5000]), 's': seeds()}),
          run_long, 300, 3000, [{'data': {'n': 3, 's': 1}, 'n': 32 * 65600, 'step': 60000, 's': 1}, {'data': {'n': 50, 's': 1}, 'n': 8300, 'step': 1, 's': 2}],
          rule='outputs of thousands of blocks; non-trivial = more than 256 blocks'),
    Facet('counter', lambda ctx: st.fixed_dictionaries({'data': blob(100), 's': seeds(), 'ctr': st.one_of(
              st.tuples(st.integers(3, 64), st.integers(0, 9)).map(lambda t: (2 ** t[0] - t[1]) % 2 ** 64), st.integers(0, 2 ** 64 - 1))}), run_counter, 1500, 20000,
          rule='block counter of any 64-bit value, carries between all bytes; all non-trivial'),
    Facet('shake', strat_shake, run_shake, 12000, 300000,
          [{'in': [{'n': n, 's': 3}], 'out': [1, 135, 136, 137, n % 50]} for n in range(0, 300)],
          rule='absorb/squeeze splits; non-trivial = split or multi-block'),
    Facet('keccakprng', strat_kprng, run_kprng, 8000, 200000,
          [{'ops': [['inject', {'n': n, 's': 4}], ['flip', 0], ['extract', 31], ['extract', 2], ['extract', 64], ['extract', 0], ['extract', 33]]} for n in
           list(range(0, 140)) + [271, 272, 273, 4095, 4096, 4097]] +
          [{'ops': [['inject', {'n': 4096 - j, 's': 4}], ['inject', {'n': k, 's': 5}], ['flip', 0], ['extract', 70]]} for j in (0, 1, 5) for k in (0, 1, 2, 5, 6)],
          rule='call histories incl. misuse; non-trivial = misuse or partial-block reads'),
    Facet('keccak256', strat_keccak, run_keccak, 6000, 120000,
          [{'data': {'n': n, 's': 3}, 'cuts': [n // 2], 'align': n % 8} for n in range(0, 420)],
          rule='updates split at any point and alignment; non-trivial = split or multi-block'),
]
