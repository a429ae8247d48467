"""C03: a signed message cannot be altered, re-encoded or moved to another key."""
from hypothesis import strategies as st
from ..core import Facet, check
from .. import model as M
from ..cprops import *
from ..gen import blob, unblob, ubytes, seeds, Rng

ASSUMPTIONS = ['a random alteration is accepted only with negligible probability (forgery)']


def build(b):
    return build_std(b)


def signed(ctx, v, fmt, kn, rb, msg):
    cache = ctx.get('signed', dict)
    kk = (v, fmt, kn, rb, msg)
    if kk not in cache:
        if len(cache) > 300:
            cache.clear()
        k = key(ctx, kn)
        L = lib(ctx, v)
        r, sm, _ = L.sign(fmt, msg, k['sk'], ubytes('rb', rb, 88))
        check(r == 0, 'signing failed')
        r, out, _, _ = L.open(fmt, sm, pub(k, fmt))
        check(r == 0 and out == msg, 'opening the unaltered bundle failed (%s/%s)' % (v, fmt))
        cache[kk] = sm
    return cache[kk]


def reject(ctx, v, fmt, sm, pk, what):
    r = lib(ctx, v).open(fmt, sm, pk)[0]
    if r == 0 and what.startswith('public key') and fmt == 'zk' and ref_open(fmt, HASH[v], sm, pk) is not None:
        # s2 vanishes in the altered NTT slot: the altered key satisfies the verification equation as well
        return
    check(r != 0, '%s is accepted (%s/%s)' % (what, v, fmt))


def run_flip(ctx, case):
    v, fmt = case['lib'], case['fmt']
    msg = unblob(case['msg'])
    sm = signed(ctx, v, fmt, case['key'], case['rb'], msg)
    pk = pub(key(ctx, case['key']), fmt)
    for p in case['pos']:
        bit = p % (8 * len(sm))
        t = bytearray(sm)
        t[bit // 8] ^= 0x80 >> (bit % 8)
        reject(ctx, v, fmt, bytes(t), pk, 'bundle with bit %d of %d flipped' % (bit, 8 * len(sm)))
    for p in case['ppos']:
        bit = p % (8 * len(pk))
        t = bytearray(pk)
        t[bit // 8] ^= 0x80 >> (bit % 8)
        reject(ctx, v, fmt, sm, bytes(t), 'public key with bit %d flipped' % bit)
    return ['!%s/%s' % (v, fmt)]


def vf():
    return st.sampled_from([('nist', 'nist'), ('nist', 'zk'), ('eth', 'nist'), ('eth', 'zk'), ('nist', 'ep')])


def base(extra):
    return st.tuples(vf(), st.fixed_dictionaries(dict({'key': st.integers(0, 12), 'rb': st.integers(0, 12), 'msg': blob(100)}, **extra))) \
        .map(lambda t: dict(t[1], lib=t[0][0], fmt=t[0][1]))


def strat_flip(ctx=None):
    return base({'pos': st.lists(st.integers(0, 20000), min_size=24, max_size=24),
                 'ppos': st.lists(st.integers(0, 8199), min_size=8, max_size=8)})


def corners_flip(ctx):
    """every bit of one bundle and key per format, in slices"""
    out = []
    for v, fmt in (('nist', 'nist'), ('nist', 'zk'), ('eth', 'nist'), ('eth', 'zk'), ('nist', 'ep')):
        n = {'nist': 670, 'zk': 1075, 'ep': 2105}[fmt] * 8
        for a in range(0, n, 256):
            out.append({'lib': v, 'fmt': fmt, 'key': 3, 'rb': 5, 'msg': {'hex': '616263'}, 'pos': list(range(a, min(a + 256, n))),
                        'ppos': list(range(a, a + 256)) if a < 8 * (897 if fmt == 'nist' else 1025) else []})
    return out


def run_reenc(ctx, case):
    """Re-encodings of the same signature and structural edits."""
    v, fmt = case['lib'], case['fmt']
    msg = unblob(case['msg'])
    sm = signed(ctx, v, fmt, case['key'], case['rb'], msg)
    pk = pub(key(ctx, case['key']), fmt)
    sl, salt, m2, sig = M.split_bundle(sm)
    x = case['x']
    kind = case['kind']
    what = kind
    out = []
    hdr_len = lambda b: (len(b)).to_bytes(2, 'big')

    def add(salt_, msg_, sig_, sl_=None):
        out.append((len(sig_) if sl_ is None else sl_).to_bytes(2, 'big') + salt_ + msg_ + sig_)
    if kind == 'extend':
        for b in (b'\x00', b'\x80', bytes([x & 255]), b'\x00' * (1 + x % 50)):
            add(salt, msg, sig + b)
            out.append(sm + b)
            add(salt, msg + b, sig)
            add(salt, b + msg, sig)
    elif kind == 'truncate':
        for c in (1, 2, 1 + x % len(sig)):
            add(salt, msg, sig[:-c])
            out.append(sm[:-c])
        out.append(sm[:x % len(sm)])
        if msg:
            add(salt, msg[:-1], sig)
            add(salt, msg[1:], sig)
    elif kind == 'move':
        # move the boundary between message and signature or between salt and message
        for d in (-2, -1, 1, 2):
            if 0 <= sl + d < 65536:
                out.append((sl + d).to_bytes(2, 'big') + sm[2:])
        if msg:
            add(salt[1:] + msg[:1], msg[1:], sig)
        add(salt, msg, sig + sig)
        add(salt, msg + sig, sig)
    elif kind == 'header':
        for h in range(256):
            if h != 0x29:
                add(salt, msg, bytes([h]) + sig[1:])
                if fmt == 'ep':
                    add(salt, msg, sig[:1025] + bytes([h]) + sig[1026:])
    elif kind == 'value':
        if fmt == 'nist':
            vals = M.comp_decode(sig[1:], 512)[0]
            i = x % 512
            for nv in (-vals[i], vals[i] + 1, vals[i] - 1, 0):
                if nv != vals[i]:
                    w = list(vals)
                    w[i] = nv
                    add(salt, msg, b'\x29' + M.comp_encode(w))
            # "-0" for every zero, and all signs
            z = [j for j, t in enumerate(vals) if t == 0]
            for j in z[:3]:
                b = M.comp_bits(vals)
                p = len(M.comp_bits(vals[:j]))
                add(salt, msg, b'\x29' + M.bits_to_bytes(b[:p] + '1' + b[p + 1:]))
            add(salt, msg, b'\x29' + M.comp_encode([-t for t in vals]))
            # padding bits
            used = len(M.comp_bits(vals))
            pad = -used % 8
            for j in range(pad):
                t = bytearray(sig)
                t[-1] |= 1 << j
                add(salt, msg, bytes(t))
            # zero padding up to the advertised maximum size
            add(salt, msg, sig + b'\x00' * (648 - len(sig)))
        else:
            nw = 512 if fmt == 'zk' else 1024
            for j in [(x + 37 * t) % nw for t in range(12)] + [0, nw - 1]:
                off = 1 + 2 * j + (1 if j >= 512 else 0)
                w = int.from_bytes(sig[off:off + 2], 'big')
                for nv in (w + 12289, w + 2 * 12289, w + 4 * 12289, w + 53247, (12289 - w) % 65536, w ^ 1, w ^ 0x8000, w ^ 0x4000):
                    nv %= 65536
                    if nv != w and not (w == 0 and nv == 0):
                        add(salt, msg, sig[:off] + nv.to_bytes(2, 'big') + sig[off + 2:])
                        if len(out) > 90:
                            break
    elif kind == 'splice':
        o_msg = unblob(case['msg2'])
        sm2 = signed(ctx, v, fmt, case['key'], case['rb'] + 100, o_msg)
        _, salt2, _, sig2 = M.split_bundle(sm2)
        add(salt2, msg, sig)
        add(salt, msg, sig2)
        if o_msg != msg:
            add(salt, o_msg, sig)
            add(salt2, msg, sig2)
        if fmt == 'ep':
            add(salt, msg, sig[:1025] + sig2[1025:])
            add(salt, msg, sig2[:1025] + sig[1025:])
            add(salt, msg, sig[1025:2050] + sig[:1025] + sig[2050:])
            add(salt, msg, sig[:2050] + sig2[2050:])
            neg = b'\x29' + M.fixed_encode([(-t) % M.Q for t in M.fixed_decode(sig[1:1025], 512, 16)[0]], 16)
            neg2 = b'\x29' + M.fixed_encode([(-t) % M.Q for t in M.fixed_decode(sig[1026:2050], 512, 16)[0]], 16)
            add(salt, msg, neg + neg2 + sig[2050:])
    elif kind == 'otherkey':
        kn = case['key'] + 1 + x % 9
        pk2 = pub(key(ctx, kn), fmt)
        reject(ctx, v, fmt, sm, pk2, 'bundle under another key')
        t = bytearray(pk)
        i = 1 + x % (len(pk) - 40)
        t[i:i + 32] = pk2[i:i + 32]
        if bytes(t) != bytes(pk):
            reject(ctx, v, fmt, sm, bytes(t), 'public key mixed with another one')
        other = 'eth' if v == 'nist' else 'nist'
        if fmt != 'ep':
            reject(ctx, other, fmt, sm, pk, 'bundle under the other hash')
    elif kind == 'pkreenc':
        w = 14 if fmt == 'nist' else 16
        vals = M.fixed_decode(bytes(pk[1:]), 512, w)[0]
        for j in [(x + 31 * t) % 512 for t in range(8)]:
            for add_q in (12289, 2 * 12289, 4 * 12289):
                if vals[j] + add_q < (1 << w):
                    vv = list(vals)
                    vv[j] += add_q
                    reject(ctx, v, fmt, sm, b'\x09' + M.fixed_encode(vv, w), 'non-canonical public key')
        for h in (0, 8, 10, 0x19, 0x29, 0x59, x & 255):
            if h != 9:
                reject(ctx, v, fmt, sm, bytes([h]) + bytes(pk[1:]), 'public key with header %d' % h)
    for t in out:
        if t != sm:
            reject(ctx, v, fmt, t, pk, 'altered bundle (%s)' % what)
    return ['!' + kind, '%s/%s' % (v, fmt)]


def strat_reenc(ctx=None):
    return base({'x': st.integers(0, 5000), 'msg2': blob(100),
                 'kind': st.sampled_from(['extend', 'truncate', 'move', 'header', 'value', 'value', 'value', 'splice', 'otherkey', 'pkreenc'])})


FACETS = [
    Facet('flip', strat_flip, run_flip, 2400, 60000, corners_flip,
          rule='32 single-bit flips over bundle and key per case, and every bit of one bundle per format; all non-trivial'),
    Facet('reencode', strat_reenc, run_reenc, 4000, 80000,
          rule='alternative encodings, boundary moves, splices, other keys/hash; all non-trivial'),
]
