"""V01: the generators of test vectors write vectors that C, Python and the contracts accept."""
import ast
import contextlib
import io
import os
import re
import shutil
import subprocess
import sys
from hypothesis import strategies as st
from ..core import Facet, check, sut, REPO, VERIF
from .. import model as M
from .. import pyref
from ..pyprops import polys, h_of, xof_class
from ..cprops import lib, key
from ..gen import Rng, blob, unblob, seeds, ubytes
from ..solprops import *
from ..sol import parse
from . import s01, s02, s05

GEN = {'falcon': 'generate_falcon_test_vectors', 'core': 'generate_falcon_core_test_vectors', 'epervier': 'generate_epervier_test_vectors', 'hash': 'generate_hashtopoint_test_vectors'}
PYDIR = os.path.join(REPO, 'pythonref')


def build(b):
    a = {'lib': b.clib('nist', 'eth')}
    a.update(build_sol(b, 'falcon', 'ethfalcon', 'falcon_core', 'falcon_encodings', 'epervier', 'ethepervier', 'HashToPoint'))
    return a


def setup_worker(ctx):
    pyref.setup()


# ---- known-answer files -------------------------------------------------------------------------
FIELDS = ['count', 'seed', 'mlen', 'msg', 'pk', 'sk', 'smlen', 'sm']


def records(text):
    out, cur = [], {}
    for l in text.splitlines() + ['']:
        l = l.strip()
        if not l:
            if cur:
                out.append(cur)
            cur = {}
        elif not l.startswith('#'):
            k, v = l.split('=', 1)
            cur[k.strip()] = v.strip()
    return out


def run_kat(ctx, case):
    K = pyref.mod('scripts.generate_kat_rsp')
    d = os.path.join(ctx.scratch, 'kat%d' % os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    req, van, out = [os.path.join(d, x) for x in ('a-KAT.req', 'a-KAT.rsp', 'b-KAT.rsp')]
    asked = []
    for i, (k, ml, s) in enumerate(case['recs']):
        c = key(ctx, k)
        seed = ubytes('seed', s, 48)
        if i and case.get('near') is not None:
            # a neighbour: one byte of the first seed differs
            seed = bytearray(asked[0]['seed'])
            seed[(case['near'] + i) % 48] ^= 1 + case['near'] % 255
            seed = bytes(seed)
        asked.append({'count': i + case['first'], 'seed': seed, 'msg': ubytes('msg', s, ml), 'key': c})
    U = lambda b: b.hex().upper()
    with open(req, 'w') as f:
        for a in asked:
            f.write('count = %d\nseed = %s\nmlen = %d\nmsg = %s\npk =\nsk =\nsmlen =\nsm =\n\n' % (a['count'], U(a['seed']), len(a['msg']), U(a['msg'])))
    if case.get('bare'):
        # no blank line at the end
        text = open(req).read().rstrip('\n')
        with open(req, 'w') as f:
            f.write(text)
    with open(van, 'w') as f:
        f.write('# Falcon-512\n\n')
        for a in asked:
            c = a['key']
            sm = lib(ctx, 'nist').sign('nist', a['msg'], c['sk'], ubytes('van', 1, 88))[1]
            f.write('count = %d\nseed = %s\nmlen = %d\nmsg = %s\npk = %s\nsk = %s\nsmlen = %d\nsm = %s\n\n' % (
                a['count'], U(a['seed']), len(a['msg']), U(a['msg']), U(c['pk']), U(c['sk']), len(sm), U(sm)))
    texts = []
    for _ in range(2):
        with sut('generate_rsp'), contextlib.redirect_stdout(io.StringIO()):
            K.generate_rsp(req, out)
            check(K.verify_rsp_file(out) is True, 'verify_rsp_file refuses a generated file')
        texts.append(open(out).read())
    check(texts[0] == texts[1], 'the generator writes another file for the same request')
    rs = records(texts[0])
    check(len(rs) == len(asked), '%d records for %d requests' % (len(rs), len(asked)))
    with sut('parse_kat_rsp'):
        check([dict(r) for r in K.parse_kat_rsp(out)] == rs, 'parse_kat_rsp reads other records')
    salts = set()
    for r, a in zip(rs, asked):
        what = 'record with a message of %d bytes' % len(a['msg'])
        check(sorted(r) == sorted(FIELDS), '%s: fields %s' % (what, sorted(r)))
        c = a['key']
        for nm, v in (('seed', a['seed']), ('msg', a['msg']), ('pk', c['pk']), ('sk', c['sk'])):
            check(bytes.fromhex(r[nm]) == v, '%s: %s is not the one asked for' % (what, nm))
        sm = bytes.fromhex(r['sm'])
        check((int(r['count']), int(r['mlen']), int(r['smlen'])) == (a['count'], len(a['msg']), len(sm)), what + ': count or lengths')
        check(lib(ctx, 'eth').open('nist', sm, c['pk'])[:2] == (0, a['msg']), what + ': the signed message does not open in C')
        salts.add(sm[2:42])
        if has(ctx, s05.KAT):
            h, s2, salt, msg = value(hook(ctx, s05.KAT, c['pk'], sm, len(a['msg'])), ['uint256[]', 'uint256[]', 'bytes', 'bytes'], what + ': on-chain decoding')
            check(msg == a['msg'] and salt == sm[2:42] and list(h) == list(c['h']), what + ': decodes to something else on chain')
            x = s01.ask(ctx, 'ethfalcon', msg, salt, packw(s2), packw(ints(M.ntt(h))))
            check(x is True, what + ': the ETHFALCON contract refuses it')
    n = len({(id(a['key']), a['seed'], a['msg']) for a in asked})
    check(len(salts) == len({a['seed'] for a in asked}) if n == len(asked) else True, 'records of different seeds share a salt')
    shutil.rmtree(d, ignore_errors=True)
    return ['!%d' % len(rs)]


def packw(v):
    return [sum(int(x) << 16 * i for i, x in enumerate(v[j:j + 16])) for j in range(0, len(v), 16)]


def strat_kat(ctx=None):
    return st.fixed_dictionaries({'recs': st.lists(st.tuples(st.integers(0, 30), st.one_of(st.integers(1, 300), st.integers(1, 4056), st.sampled_from([33, 66, 95, 96, 97, 99, 3300, 4055, 4056])),
                                                             st.integers(0, 2 ** 20)).map(list), min_size=1, max_size=3), 'near': st.one_of(st.none(), st.integers(0, 47 * 255)), 'bare': st.booleans(), 'first': st.integers(0, 99)})


# ---- Solidity tests -----------------------------------------------------------------------------
SEED = '''
import os, shake
new = shake.SHAKE.new
def seeded(*a, **k):
    return new(bytes.fromhex(os.environ['VP_STREAM'])) if a == (b'',) and not k else new(*a, **k)
shake.SHAKE.new = staticmethod(seeded)
'''


class Subst(ast.NodeTransformer):
    def __init__(self, m):
        self.m, self.done = m, set()

    def visit_Assign(self, node):
        t = node.targets[0]
        if isinstance(t, ast.Name) and t.id in self.m and isinstance(node.value, ast.List):
            self.done.add(t.id)
            node.value = ast.parse(repr(self.m[t.id]), mode='eval').body
        return node

    def visit_FunctionDef(self, node):
        return node


def generated(ctx, case):
    """{file name: text} written by the script for the drawn key, messages and stream; and what was substituted"""
    d = os.path.join(ctx.scratch, 'gen%d' % os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d + '/pythonref')
    os.makedirs(d + '/test')
    P = [[int(x) for x in p] for p in polys(512, case['key'])]
    P[3] = [int(x) for x in M.centered(P[3])]
    sub = dict(zip('fgFG', P), list_of_messages=case['msgs'])
    done = {}
    open(os.path.join(d, 'pythonref', 'vp_stream.py'), 'w').write(SEED)
    for nm in set(GEN.values()):
        p = os.path.join(PYDIR, nm + '.py')
        if not os.path.exists(p):
            continue
        t = Subst(sub)
        tree = ast.fix_missing_locations(t.visit(ast.parse(open(p).read())))
        open(os.path.join(d, 'pythonref', nm + '.py'), 'w').write('import vp_stream\n' + ast.unparse(tree))
        done[nm] = t.done
    nm = GEN[case['gen']]
    if nm not in done:
        return None, None
    env = dict(os.environ, VP_STREAM=ubytes('st', case['s'], 16).hex(), PYTHONDONTWRITEBYTECODE='1',
               PYTHONPATH=os.pathsep.join([d + '/pythonref', os.path.join(VERIF, 'vp', 'pystub'), PYDIR, os.environ.get('PYTHONPATH', '')]))
    r = subprocess.run([sys.executable, '-m', nm], cwd=d + '/pythonref', env=env, capture_output=True, text=True, timeout=300)
    check(r.returncode == 0, '%s fails: %s' % (nm, r.stderr.strip()[-300:]))
    out = {f: open(os.path.join(d, 'test', f)).read() for f in os.listdir(d + '/test')}
    shutil.rmtree(d, ignore_errors=True)
    return out, done


class Unknown(Exception):
    """the generated text is valid but built in another way than this reader knows"""


def const(e, env):
    if e.k == 'num':
        return e.v
    if e.k == 'str':
        return bytes(e.v)
    if e.k == 'id' and e.name in env:
        return env[e.name]
    if e.k == 'id' and e.name in ('true', 'false'):
        return e.name == 'true'
    if e.k == 'bool':
        return e.v
    if e.k == 'arrlit':
        return [const(x, env) for x in e.items]
    if e.k == 'call' and e.f.k == 'telemx' and len(e.args) == 1:
        return const(e.args[0], env)
    if e.k == 'call' and e.f.k == 'new' and len(e.args) == 1:
        return [0] * const(e.args[0], env)
    raise Unknown(e.k)


def calls(e, out):
    """all call expressions below a node"""
    if isinstance(e, (list, tuple)):
        for x in e:
            calls(x, out)
    elif isinstance(e, parse.N):
        if e.k == 'call' and e.f.k in ('id', 'member'):
            out.append((e.f.name, e.args))
        for x in vars(e).values():
            calls(x, out)


def interpret(f, names):
    """(variables, arguments of the one call to a contract function in names) of a generated test"""
    env, found = {'n': 512, 'q': Q}, []
    for x in f.body.body:
        here = []
        calls(x, here)
        for nm, args in here:
            if nm in names:
                found.append((nm, [const(y, env) for y in args]))
        if x.k == 'decl' and len(x.vars) == 1 and x.init is not None:
            try:
                env[x.vars[0].name] = const(x.init, env)
            except Unknown:
                pass
        elif x.k == 'for' and not here:
            n, st_ = const(x.cond.b, env), x.body.body
            e = st_[0].e
            if len(st_) != 1 or e.k != 'assign' or e.a.k != 'index' or e.b.k != 'index' or x.cond.op != '<':
                raise Unknown('loop')
            d, src = const(e.a.a, env), const(e.b.a, env)
            check(n <= len(d) and n <= len(src), 'a generated test copies %d entries of %d to %d' % (n, len(src), len(d)))
            d[:n] = src[:n]
    if len(found) != 1:
        raise Unknown('%d calls' % len(found))
    return env, found[0]


STRTOK = parse.TOK


def read_tests(text, fn):
    check(not re.search('[\r\v\f\x85\u2028\u2029]', text), fn + ': holds a line terminator other than the line feed')
    for m in STRTOK.finditer(text):
        if m.lastgroup == 'str' and m.group()[0] in '"\'':
            check(all(' ' <= c <= '~' for c in m.group()), fn + ': a string literal with characters Solidity does not allow: %r' % m.group()[:60])
    try:
        units = parse.parse(text, fn)
    except parse.SolError as e:
        check(False, '%s: not valid Solidity: %s' % (fn, str(e)[:200]))
    out = []
    for c in units:
        if c.k == 'contract':
            out += [f for f in c.items if f.k == 'function' and f.name.startswith('test')]
    return out


def hexesc(s):
    return bytes.fromhex(s.replace('\\x', '')) if re.fullmatch(r'(\\x[0-9a-f]{2})*', s) else s.encode()


def grab(rx, body, what):
    m = re.search(rx, body)
    check(m is not None, what)
    return m.group(1)


def after(text, name):
    return re.split(r'function %s\b' % name, text)[1]


CALLS = {'falcon': ('verify',), 'core': ('falcon_core',), 'epervier': ('recover',), 'hash': ('hashToPointEVM', 'hashToPointNIST')}
FILES = {'falcon': {'ethfalcon.t.sol': 'keccak', 'falcon.t.sol': 'shake'}, 'core': {'ethfalcon_core.t.sol': 'keccak', 'falcon_core.t.sol': 'shake'},
         'epervier': {'ethepervier.t.sol': 'keccak', 'epervier.t.sol': 'shake'}, 'hash': {'HashToPointEVMVectors.t.sol': 'keccak', 'HashToPointNISTVectors.t.sol': 'shake'}}


def run_sol(ctx, case):
    out, done = generated(ctx, case)
    if out is None:
        return []
    gen = case['gen']
    labels = []
    own = done[GEN[gen]]
    msgs = case['msgs'] if 'list_of_messages' in done.get(GEN['falcon'], ()) else None
    for fn, hv in FILES[gen].items():
        check(fn in out, '%s does not write %s' % (GEN[gen], fn))
        tests = read_tests(out[fn], fn)
        check(tests and (msgs is None or len(tests) == len(msgs)), '%s: %d tests for %d messages' % (fn, len(tests), len(msgs or [])))
        check(len({f.name for f in tests}) == len(tests), fn + ': two tests with one name')
        seen = set()
        for i, f in enumerate(tests):
            what = '%s, %s: ' % (fn, f.name)
            try:
                env, (nm, args) = interpret(f, CALLS[gen])
                if gen == 'core':
                    s2w, kw, hs = args
                    m, salt = [hexesc(grab(r'%s = "([^"]*)"' % x, after(out[fn], f.name), what + 'no ' + x)) for x in ('message', 'salt')]
                elif gen == 'hash':
                    salt, m = args
                    hs = env['expected_hash']
                else:
                    m, salt = args[:2]
            except (Unknown, ValueError, KeyError, TypeError, AttributeError):
                labels.append('not understood')
                continue
            check(len(salt) == 40 and salt not in seen, what + 'salt of %d bytes, or used before' % len(salt))
            seen.add(salt)
            check(msgs is None or m == msgs[i].encode(), what + 'another message')
            c = ('eth' if hv == 'keccak' else '') + gen
            H = M.h2p(hv, salt, m)
            if gen == 'falcon':
                s2w, kw = args[2:]
                check(s01.ask(ctx, c, m, salt, s2w, kw) is True, what + 'the contract refuses the signature')
            elif gen == 'core':
                check(hs == ints(H), what + 'not the hash of salt and message')
                s2, k = unpack(s2w), unpack(kw)
                check(len(s2w) == len(kw) == 32 and max(s2) < Q and M.accept(H, s2, ints(M.intt(k)))[0], what + 'the signature does not verify')
            elif gen == 'epervier':
                a = env.get('pk')
                x = s02.ask(ctx, c, m, salt, *args[2:])
                check(x is not None and int(x if isinstance(x, int) else int(str(x), 16)) == a, what + 'the contract recovers another address')
                if set('fgFG') <= own:
                    check(a == s02.address(h_of(512, case['key'])), what + 'the address is not the one of the key')
            else:
                check(hs == ints(H), what + 'not the hash of salt and message')
            if gen in ('falcon', 'core') and set('fgFG') <= own:
                check(unpack(kw) == ints(M.ntt(h_of(512, case['key']))), what + 'the public key is not the one of the secret key')
            labels.append('!' + gen)
    return labels


PLAIN = st.text(alphabet='abcdefghijklmnopqrstuvwxyz ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!?.,-_()', min_size=1, max_size=120)
TEXT = st.one_of(PLAIN, PLAIN, st.text(alphabet='ab0"\'\\/*{}%\n\r\té€\u2028\U0001f600', min_size=0, max_size=20))


def strat_sol(ctx=None):
    return st.fixed_dictionaries({'gen': st.sampled_from(sorted(GEN)), 'key': st.integers(0, 15), 's': seeds(20), 'msgs': st.lists(TEXT, min_size=1, max_size=3)})


FACETS = [
    Facet('kat', strat_kat, run_kat, 60, 3000, [{'recs': [[1, n, n], [2, n + 1, n + 1]], 'first': n % 100} for n in (1, 33, 95, 96, 614, 3299)],
          rule='request files with drawn keys, messages and seeds; all non-trivial'),
    Facet('solidity', strat_sol, run_sol, 60, 2000, [{'gen': g, 'key': 2, 's': 0, 'msgs': m} for g in sorted(GEN) for m in (['My name is Renaud from ZKNOX!!!!', 'a'], ['say "hi"\n', '\\', ''])],
          rule='the scripts run with drawn key, messages and random stream, in a scratch folder; non-trivial = a test was written'),
]
