"""C12: operations are independent: results depend only on arguments and random bytes."""
import json
import os
import pickle
import struct
import threading
from hypothesis import strategies as st
from ..core import Facet, check, Violation
from .. import model as M
from ..cprops import *
from ..clib import Lib, SK, PK, PK16
from ..gen import blob, unblob, ubytes, seeds

ASSUMPTIONS = ['the thread facet can only sample schedules; on code without shared state every schedule passes']


def build(b):
    return build_std(b)


class Zygote:
    """A process that has loaded the libraries and made no call; runs each request in a forked child."""

    def __init__(self, paths):
        self.r1, self.w1 = os.pipe()
        self.r2, self.w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(self.w1)
            os.close(self.r2)
            libs = {v: Lib(p) for v, p in paths.items()}
            try:
                while True:
                    h = self._rd(self.r1, 8)
                    if len(h) < 8:
                        os._exit(0)
                    req = pickle.loads(self._rd(self.r1, struct.unpack('<Q', h)[0]))
                    rp, wp = os.pipe()
                    c = os.fork()
                    if c == 0:
                        res = pickle.dumps(execute(libs, req))
                        os.write(wp, res[:60000]) if len(res) < 60000 else self._wr(wp, res)
                        os._exit(0)
                    os.close(wp)
                    buf = b''
                    while True:
                        x = os.read(rp, 65536)
                        if not x:
                            break
                        buf += x
                    os.close(rp)
                    os.waitpid(c, 0)
                    self._wr(self.w2, struct.pack('<Q', len(buf)) + buf)
            finally:
                os._exit(1)
        os.close(self.r1)
        os.close(self.w2)

    @staticmethod
    def _rd(fd, n):
        b = b''
        while len(b) < n:
            x = os.read(fd, n - len(b))
            if not x:
                break
            b += x
        return b

    @staticmethod
    def _wr(fd, b):
        while b:
            b = b[os.write(fd, b):]

    def call(self, req):
        b = pickle.dumps(req)
        self._wr(self.w1, struct.pack('<Q', len(b)) + b)
        h = self._rd(self.r2, 8)
        n = struct.unpack('<Q', h)[0]
        if n == 0:
            raise Violation('the call made alone in a fresh process crashed: %s' % (req[:2],))
        return pickle.loads(self._rd(self.r2, n))


def execute(libs, req, set_rb=True):
    """req = (variant, op, fmt, args..., rb); returns result tuple"""
    v, op, fmt, args, rb = req
    L = libs[v]
    if set_rb:
        L.rb_set(rb)
    if op == 'keypair':
        r, pk, sk = L.keypair(fmt)
        return (r, pk, sk, len(rb))
    if op == 'seedpair':
        a = bytes(bytearray(args[0]))
        r, pk, sk = L.keypair_seed(fmt, a)
        return (r, pk, sk, a == args[0])
    if op == 'sign':
        m, sk = bytes(bytearray(args[0])), bytes(bytearray(args[1]))
        r, sm, _ = L.sign(fmt, m, sk)
        return (r, sm, m == args[0] and sk == args[1])
    if op == 'open':
        sm, pk = bytes(bytearray(args[0])), bytes(bytearray(args[1]))
        r, m, _, _ = L.open(fmt, sm, pk)
        return (r, m, sm == args[0] and pk == args[1])
    raise ValueError(op)


def setup_worker(ctx):
    ctx.zyg = Zygote(ctx.art['lib'])
    ctx.libs = {v: lib(ctx, v) for v in ('nist', 'eth')}


NEED = {'keypair': 48, 'sign': 88, 'open': 0, 'seedpair': 0}




def run_hist(ctx, case):
    libs = ctx.libs
    stream = ubytes('stream', case['rb'], 4096)
    off = 0
    keys = []       # (pk by fmt, sk)
    sms = []        # (variant, fmt, sm, msg, key index)
    log = []
    for v in libs:
        libs[v].rb_set(stream)
    used = {'nist': 0, 'eth': 0}
    signed = {v: [] for v in libs}      # where in the stream the random bytes of signatures started
    labels = set()
    for op in case['ops']:
        name, v, fmt, a, b, msg = op['op'], op['lib'], op['fmt'], op['a'], op['b'], unblob(op['msg'])
        if fmt == 'ep':
            v = 'nist'
        L = libs[v]
        o = used[v]
        if o + 200 > len(stream):
            break
        if name == 'keypair' or not keys:
            f = 'nist' if fmt == 'nist' else 'zk'
            if name == 'seedpair' or a % 2:
                seed = ubytes('c12seed', b % 5, 32 + a % 20)
                if a % 4 == 3:  # seeds that differ in one byte only
                    seed = seed[:(a * 7 + b) % len(seed)] + b'!' + seed[(a * 7 + b) % len(seed) + 1:]
                req = (v, 'seedpair', f, (seed,), stream[o:o + 88])
                res = execute(libs, req, set_rb=False)
                check(res[3], 'key generation modified the seed')
            else:
                req = (v, 'keypair', f, (), stream[o:o + 88])
                res = execute(libs, req, set_rb=False)
                used[v] += 48
            other = libs[v].keypair_seed('zk' if f == 'nist' else 'nist', seed if req[1] == 'seedpair' else stream[o:o + 48])
            k = {f: res[1][:PK if f == 'nist' else PK16], 'sk': res[2][:SK]}
            k['zk' if f == 'nist' else 'nist'] = other[1][:PK16 if f == 'nist' else PK]
            k['ep'] = k['zk']
            keys.append(k)
        elif name == 'sign' or not sms:
            k = keys[a % len(keys)]
            m = msg if not keccak_limit_exceeded(v, len(msg) + 40) else msg[:4000]
            if b % 3 == 0 and sms:
                m = sms[b % len(sms)][3]
                labels.add('!same-message-again')
            elif b % 3 == 1 and sms and sms[b % len(sms)][3] and not keccak_limit_exceeded(v, len(sms[b % len(sms)][3]) + 40):
                m = bytearray(sms[b % len(sms)][3])
                m[(a * 131 + b * 17) % len(m)] ^= 1 << a % 8
                m = bytes(m)
                labels.add('!message-of-same-length')
            back = a % 3 == 2 and signed[v]
            if back:        # the random source gives the same bytes again
                o = signed[v][b % len(signed[v])]
                L.rb_set(stream[o:])
                labels.add('!same-random-bytes')
            signed[v].append(o)
            req = (v, 'sign', fmt, (m, k['sk']), stream[o:o + 88])
            res = execute(libs, req, set_rb=False)
            if back:
                L.rb_set(stream[used[v]:])
                used[v] -= 88
            check(res[0] == 0, 'signing failed in a history')
            check(res[2], 'signing modified its inputs')
            used[v] += 88
            salt = res[1][2:42]
            check(salt == stream[o:o + 40], 'the salt of a signature is not freshly drawn')
            sms.append((v, fmt, res[1], m, a % len(keys)))
        else:
            sv, sf, sm, m, ki = sms[a % len(sms)]
            k = keys[ki if b % 4 else b % len(keys)]
            t = bytearray(sm)
            if b % 5 == 4:
                # anywhere, in the message, or the message of another bundle of that length
                i = [b % len(t), (a * 131 + b * 17) % len(t), 42 + (b * 7 + a) % (len(m) or 1)][a % 3]
                t[i] ^= 1 << b % 8
                w = [x for x in sms if len(x[3]) == len(m) and x[3] != m]
                if a % 4 == 1 and w:
                    t = bytearray(sm[:42] + w[b % len(w)][3] + sm[42 + len(m):])
                labels.add('!open-altered')
            pkb = bytearray(k[sf])
            if a % 4 == 3:      # a key that shares all but one byte with one used before
                pkb[1 + (a * 131 + b * 17) % (len(pkb) - 1)] ^= 1 << b % 8
                labels.add('!altered-key')
            req = (sv, 'open', sf, (bytes(t), bytes(pkb)), stream[o:o + 88])
            v = sv
            res = execute(libs, req, set_rb=False)
            check(res[2], 'opening modified its inputs')
            if b % 5 != 4 and a % 4 != 3 and k is keys[ki]:
                check(res[0] == 0 and res[1] == m, 'opening a genuine bundle failed in a history')
        log.append((req, res))
    for n, (req, res) in enumerate(log):
        alone = ctx.zyg.call(req)
        check(alone == res, 'call %d of the history (%s %s %s) gives another result than the same call made alone' % (n, req[0], req[1], req[2]))
    if len(log) >= 3:
        labels.add('!history')
    return sorted(labels)


def op():
    return st.fixed_dictionaries({'op': st.sampled_from(['keypair', 'sign', 'sign', 'open', 'open', 'seedpair']), 'lib': st.sampled_from(['nist', 'eth']),
                                  'fmt': st.sampled_from(['nist', 'zk', 'ep']), 'a': st.one_of(st.integers(0, 20), st.integers(0, 500)), 'b': st.one_of(st.integers(0, 40), st.integers(0, 2000)), 'msg': blob(600)})


def strat_hist(ctx=None):
    return st.fixed_dictionaries({'rb': seeds(), 'ops': st.lists(op(), min_size=2, max_size=14)})


def run_threads(ctx, case):
    """the same calls made concurrently from several threads"""
    libs = ctx.libs
    reqs = []
    for t in case['reqs']:
        k = key(ctx, t['a'] % 6)
        fmt, v = t['fmt'], t['lib'] if t['fmt'] != 'ep' else 'nist'
        m = unblob(t['msg'])[:1000]
        rb = ubytes('thr', t['b'], 88)
        if t['op'] in ('keypair', 'seedpair'):
            f = 'nist' if fmt == 'nist' else 'zk'
            reqs.append((v, 'seedpair', f, (ubytes('thr', t['b'], 48),), rb))
        else:
            q = (v, 'sign', fmt, (m, k['sk']), rb)
            if t['op'] == 'open':
                sm = execute(libs, q)[1]
                q = (v, 'open', fmt, (sm, k['pk'] if fmt == 'nist' else k['pk16']), rb)
            reqs.append(q)
    expected = [ctx.zyg.call(q) for q in reqs]
    got = [None] * len(reqs)
    bar = threading.Barrier(len(reqs))

    def body(i):
        bar.wait()
        for _ in range(3):
            r = execute(libs, reqs[i])
            got[i] = r if r == expected[i] else ('differs', r)
            if r != expected[i]:
                return
    ths = [threading.Thread(target=body, args=(i,)) for i in range(len(reqs))]
    [t.start() for t in ths]
    [t.join() for t in ths]
    for i, (g, e) in enumerate(zip(got, expected)):
        check(g == e, 'call %d (%s %s %s) gives another result when other calls run at the same time' % (i, reqs[i][0], reqs[i][1], reqs[i][2]))
    return ['!threads']


def strat_threads(ctx=None):
    return st.fixed_dictionaries({'reqs': st.lists(op(), min_size=2, max_size=6)})


FACETS = [
    Facet('history', strat_hist, run_hist, 1600, 40000, rule='2..14 mixed operations; each compared with the same call in a fresh process; non-trivial = 3 or more calls'),
    Facet('threads', strat_threads, run_threads, 500, 12000, rule='2..6 concurrent calls; all non-trivial'),
]
