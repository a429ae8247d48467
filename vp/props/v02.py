"""V02: the known-answer programs of the C library write true, reproducible vectors."""
import os
import shutil
import subprocess
import tempfile
from hypothesis import strategies as st
from .. import model as M
from ..build import sh
from ..clib import SK, PK, PK16
from ..core import Facet, check, REPO, VERIF
from ..cprops import build_std, lib, ref_open, ref_open_ep
from ..gen import blob, unblob, seeds, ubytes
from .c11 import RefDRBG

# program: (library, format, has hash, has signature)
PROGS = {'kat512int': ('nist', 'nist', False, True), 'kat512int_eth': ('eth', 'nist', False, True), 'kat512int_zknox': ('nist', 'zk', False, True),
         'kat512int_zknox_eth': ('eth', 'zk', False, True), 'kat512int_epervier_zknox': ('nist', 'ep', False, True),
         'kat512int_hashtopoint': ('nist', None, True, False), 'kat512int_hashtopoint_eth': ('eth', None, True, False),
         'kat512int_falconcore': ('nist', 'nist', True, True)}


def build(b):
    d = os.path.join(b.scratch, 'nistfalcon')
    shutil.copytree(os.path.join(REPO, 'falcon', 'nistfalcon'), d)
    o = os.path.join(b.scratch, 'wrapopen.o')
    sh(['gcc', '-c', '-O2', '-o', o, os.path.join(VERIF, 'c', 'wrapopen.c')])
    sh(['make', '-C', d, 'clean'])
    os.makedirs(os.path.join(d, 'build'), exist_ok=True)
    sh(['make', '-C', d, '-j8', 'LDFLAGS=-Wl,--wrap=fopen', 'LIBS=' + o, *('build/' + p for p in PROGS)])
    return {**build_std(b), 'prog': {p: os.path.join(d, 'build', p) for p in PROGS}}


def records(text, what):
    """list of records, each a list of (name, value)"""
    lines = text.split('\n')
    check(lines and lines[0].startswith('#'), what + ': no title line')
    out, cur = [], []
    for l in lines[1:]:
        if not l.strip():
            if cur:
                out.append(cur)
            cur = []
            continue
        k, eq, v = l.partition('=')
        check(eq == '=', lambda: what + ': a line without a value: ' + l[:60])
        cur.append((k.strip(), v.strip()))
    check(not cur, what + ': the last record is not closed by an empty line')
    return out


def run_prog(ctx, prog, where, req=None):
    env = {k: v for k, v in os.environ.items() if k != 'VP_REQ'}
    if req is not None:
        env['VP_REQ'] = os.path.join(where, 'given')
        with open(env['VP_REQ'], 'w') as f:
            f.write(req)
    before = set(os.listdir(where))
    r = subprocess.run([ctx.art['prog'][prog]], cwd=where, env=env, capture_output=True, timeout=300)
    check(r.returncode == 0, lambda: '%s: exit code %d %s' % (prog, r.returncode, r.stdout[-100:].decode('latin-1')))
    new = sorted(set(os.listdir(where)) - before)
    check([x.rsplit('.', 1)[-1] for x in new] == ['req', 'rsp'], lambda: '%s writes %s' % (prog, ' '.join(new)))
    return tuple(open(os.path.join(where, x)).read() for x in new)


def hexval(v, what):
    try:
        return bytes.fromhex(v)
    except ValueError:
        check(False, '%s is not a hexadecimal string' % what)


def judge(ctx, prog, rec, count, seed, msg):
    v, fmt, hashed, signed = PROGS[prog]
    what = '%s, message of %d bytes' % (prog, len(msg))
    want = ['count', 'seed', 'mlen', 'msg']
    if not signed:
        want += ['salt', 'hash']
    else:
        want += (['hashtopoint'] if hashed else []) + ['pk', 'sk', 'smlen', 'sm']
    check([k for k, _ in rec] == want, lambda: '%s: fields %s' % (what, [k for k, _ in rec]))
    d = dict(rec)
    check(d['count'] == str(count), '%s: count %s, not %d' % (what, d['count'][:20], count))
    check(hexval(d['seed'], 'seed') == seed, what + ': another seed')
    check(d['mlen'] == str(len(msg)), '%s: mlen %s' % (what, d['mlen'][:20]))
    check(hexval(d['msg'], 'msg') == msg, what + ': another message')
    g = RefDRBG(seed)
    kseed = g.generate(48)
    nonce = g.generate(40)
    L = lib(ctx, v)
    if hashed:
        t = d['hash' if not signed else 'hashtopoint']
        check(t[:1] == '[' and t[-1:] == ']', what + ': hash is not a list')
        try:
            h = [int(x) for x in t[1:-1].split(',') if x.strip()]
        except ValueError:
            h = None
        check(h is not None and h == [int(x) for x in M.h2p('keccak' if v == 'eth' else 'shake', nonce, msg)], what + ': hash differs from the hash of salt and message')
    if not signed:
        check(hexval(d['salt'], 'salt') == nonce, what + ': salt is not the one the signer draws from the seed')
        return
    rb = nonce + g.generate(48)
    r, pk, sk = L.keypair_seed('nist' if fmt == 'nist' else 'zk', kseed)
    check(r == 0, 'key generation')
    pk, sk = pk[:PK if fmt == 'nist' else PK16], sk[:SK]
    if fmt == 'ep':
        r, pk = L.pk_epervier(pk)
        check(r == 0, 'EPERVIER key')
    check(hexval(d['pk'], 'pk') == pk, what + ': public key is not the one of the seed')
    check(hexval(d['sk'], 'sk') == sk, what + ': secret key is not the one of the seed')
    sm = hexval(d['sm'], 'sm')
    check(d['smlen'] == str(len(sm)), '%s: smlen %s, but sm has %d bytes' % (what, d['smlen'][:20], len(sm)))
    check(sm[2:42] == nonce, what + ': salt is not the one drawn after the key')
    m = ref_open_ep(sm, pk) if fmt == 'ep' else ref_open(fmt, 'keccak' if v == 'eth' else 'shake', sm, pk)
    check(m == msg, what + ': the reference refuses the signature')
    r, sm2, _ = L.sign(fmt, msg, sk, rb)
    check(r == 0 and sm2 == sm, what + ': signature is not the one of the library for these random bytes')


def run_given(ctx, case):
    prog = case['prog']
    req, want = [], []
    for i, x in enumerate(case['recs']):
        seed = ubytes('v02', x['seed'], 48) if x['seed'] % 16 else bytes([x['seed'] // 16 % 256]) * 48
        msg = unblob(x['msg']) or b'\0'
        if PROGS[prog][0] == 'eth':
            msg = msg[:4056]
        h = (str.upper, str.lower, lambda s: s.upper().replace('A', 'a'))[x['hex']]
        req.append('count = %d\nseed = %s\nmlen = %d\nmsg = %s\n%s\n' % (x['count'], h(seed.hex()), len(msg), h(msg.hex()),
                                                                        'pk =\nsk =\nsmlen =\nsm =\n' if x['hex'] != 1 else 'salt = \nhash =\n'))
        want.append((x['count'], seed, msg))
    with tempfile.TemporaryDirectory(dir=ctx.scratch) as t:
        _, rsp = run_prog(ctx, prog, t, ''.join(req))
        recs = records(rsp, prog)
        check(len(recs) == len(want), '%s: %d records for %d requests' % (prog, len(recs), len(want)))
        for r, w in zip(recs, want):
            judge(ctx, prog, r, *w)
        if case['again']:
            for x in os.listdir(t):
                if x != 'given':
                    os.unlink(os.path.join(t, x))
            check(run_prog(ctx, prog, t, ''.join(req))[1] == rsp, prog + ': the same request gives another response')
    return ['!' + prog, 'records:%d' % len(want)]


def run_own(ctx, case):
    """each program on the request file it writes: the requests of NIST's generator"""
    names = set()
    labels = []
    with tempfile.TemporaryDirectory(dir=ctx.scratch) as t:
        for prog in case['progs']:
            a = set(os.listdir(t))
            req, rsp = run_prog(ctx, prog, t)
            names |= set(os.listdir(t)) - a
            g = RefDRBG(bytes(range(48)))
            rr, recs = records('#\n' + req, prog + ' request'), records(rsp, prog)
            check(len(rr) == 100 and len(recs) == 100, '%s: %d requests, %d records' % (prog, len(rr), len(recs)))
            for i in range(100):
                seed = g.generate(48)
                msg = g.generate(33 * (i + 1))
                q = dict(rr[i])
                check((q.get('count'), q.get('mlen')) == (str(i), str(len(msg))) and hexval(q.get('seed', ''), 'seed') == seed and hexval(q.get('msg', ''), 'msg') == msg,
                      '%s: request %d is not that of NIST\'s generator' % (prog, i))
                if i in case['at'] or i % 10 == case['mod']:
                    judge(ctx, prog, recs[i], i, seed, msg)
            labels.append('!' + prog)
        check(len(names) == 2 * len(case['progs']), 'two programs write the same file')
    return labels


REC = st.fixed_dictionaries({'seed': seeds(24), 'count': st.one_of(st.integers(0, 99), st.sampled_from([0, 99, 100, 12345, 2 ** 31 - 1])),
                             'msg': blob(4056, top=70000, rate=60), 'hex': st.integers(0, 2)})
FACETS = [
    Facet('given', st.fixed_dictionaries({'prog': st.sampled_from(sorted(PROGS)), 'recs': st.lists(REC, min_size=0, max_size=4), 'again': st.booleans()}), run_given, 300, 9000,
          corners=[{'prog': p, 'recs': [{'seed': 16 * i, 'count': i, 'msg': {'n': n, 's': i}, 'hex': i % 3} for i, n in enumerate(ns)], 'again': True}
                   for p in sorted(PROGS) for ns in ([1, 2, 4056], [55, 56, 95, 96, 97], [3300, 3301])], rule='every request file'),
    Facet('own', st.fixed_dictionaries({'progs': st.permutations(sorted(PROGS)), 'at': st.lists(st.integers(0, 99), max_size=20), 'mod': st.integers(0, 9)}), run_own, 2, 40,
          corners=[{'progs': sorted(PROGS), 'at': [0, 1, 99], 'mod': 5}], rule='every run'),
]
