"""P08: command line tool: generated keys sign and verify, and tampering is detected."""
import ast
import copy
import contextlib
import io
import os
import re
import shutil
import subprocess
import sys
from hypothesis import strategies as st
from ..core import Facet, check, sut, REPO, VERIF
from .. import model as M
from .. import pyref
from ..pyprops import *
from ..gen import Rng, blob, unblob, seeds, ubytes
from .p07 import ref_recover, digest

VERSIONS = ['falcon', 'ethfalcon', 'falconrec', 'epervier']
XOF = {'falcon': 'shake', 'epervier': 'shake', 'ethfalcon': 'keccak', 'falconrec': 'keccak'}
SK = {'falcon': ('falcon', 'SecretKey'), 'ethfalcon': ('falcon', 'SecretKey'), 'falconrec': ('falcon_recovery', 'RecoveryModeSecretKey'),
      'epervier': ('falcon_epervier', 'EpervierSecretKey')}
PK = {'falcon': ('falcon', 'PublicKey'), 'ethfalcon': ('falcon', 'PublicKey'), 'falconrec': ('falcon_recovery', 'RecoveryModePublicKey'),
      'epervier': ('falcon_epervier', 'EpervierPublicKey')}
SMALL = [4, 8, 16, 32, 64, 128]
CAST = '''#!/bin/sh
for a in "$@"; do printf '%s\\0' "$a"; done >> "$CAST_OUT"
printf '\\n' >> "$CAST_OUT"
cat "$CAST_REPLY"
'''


def build(b):
    return {}


def setup_worker(ctx):
    pyref.setup()
    d = os.path.join(ctx.scratch, 'cli%d' % os.getpid())
    os.makedirs(os.path.join(d, 'bin'), exist_ok=True)
    with open(os.path.join(d, 'bin', 'cast'), 'w') as f:
        f.write(CAST)
    os.chmod(os.path.join(d, 'bin', 'cast'), 0o755)
    os.environ['PATH'] = os.path.join(d, 'bin') + ':/usr/bin:/bin'
    os.environ['CAST_OUT'] = os.path.join(d, 'args')
    os.environ['CAST_REPLY'] = os.path.join(d, 'reply')
    open(os.environ['CAST_REPLY'], 'w').close()
    os.chdir(d)


def clean():
    for f in ('sig', 'public_key.pem', 'private_key.pem', 'sk', 'pk', 'args'):
        if os.path.exists(f):
            os.remove(f)


def cli(*args, reply=''):
    """runs the tool in this process: (stdout, exception or None)"""
    with open('reply', 'w') as f:
        f.write(reply)
    out = io.StringIO()
    old, err = sys.argv, None
    sys.argv = ['sign_cli.py'] + list(args)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            pyref.mod('sign_cli').cli()
    except (Exception, SystemExit) as e:
        err = e
    finally:
        sys.argv = old
    return out.getvalue(), err


def ok(what, *args, **kw):
    out, err = cli(*args, **kw)
    check(err is None, lambda: '%s: the tool stopped with %s: %s' % (what, type(err).__name__, str(err)[:200]))
    return out


def cast_args():
    if not os.path.exists('args'):
        return []
    return [[x.decode() for x in l.split(b'\0')[:-1]] for l in open('args', 'rb').read().split(b'\n')[:-1]]


def write_keys(ctx, v, n, k, what):
    """key files made by the tool's own functions from a corpus key."""
    m = pyref.mod('sign_cli')
    sk = sk_obj(ctx, n, k, SK[v][1], SK[v][0])
    with sut(what + ': saving keys'):
        m.save_sk(sk, 'private_key.pem', v)
        mn, c = PK[v]
        m.save_pk(getattr(pyref.mod(mn), c)(n, sk.h if v in ('falcon', 'ethfalcon') else sk.pk), 'public_key.pem', v)
    return sk


def expect(v, n, k, msg, sig):
    h = h_of(n, k)
    if len(msg) > maxmsg(XOF[v]):
        return None
    if v in ('falcon', 'ethfalcon'):
        return py_accept(n, h, msg, sig, XOF[v])
    mode = 'rec' if v == 'falconrec' else 'ep'
    return ref_recover(mode, n, msg, sig, XOF[v]) == digest(mode, h)


def verdict(what, out, err, want):
    if err is not None:
        check(want is not True, lambda: '%s: a valid signature stops the tool with %s' % (what, type(err).__name__))
        check('is valid' not in out, what + ': printed valid')
        return
    got = 'Signature is valid.' in out
    check(got != ('Invalid signature.' in out), what + ': unclear answer %r' % out[:80])
    check(got == bool(want), '%s: the tool says %s' % (what, 'valid' if got else 'invalid'))


ALT = ['flip', 'flip', 'trunc', 'extend', 'msgflip', 'msgext', 'msgcut', 'otherkey', 'otherver', 'salt', 'header']


def run_cli(ctx, case):
    clean()
    v, n, k = case['v'], case['n'], case['key']
    msg = unblob(case['msg'])[:maxmsg(XOF[v])] or b'\x00'
    what = 'version %s, degree %d' % (v, n)
    if case.get('old'):
        # the files are there already, from other keys and longer
        what += ', over old files'
        write_keys(ctx, VERSIONS[case['old'] - 1], max(n, 64), k + 1, what)
        for name in ('public_key.pem', 'private_key.pem'):
            with open(name, 'a') as f:
                f.write('old = [%s]\n' % ', '.join('7' * (case['a'] % 40 + 1) for _ in range(900)))
        with open('sig', 'w') as f:
            f.write('5c' * (2200 + case['b']))
    write_keys(ctx, v, n, k, what)
    m = pyref.mod('sign_cli')
    with sut(what + ': loading keys'):
        sk, ver = m.load_sk('private_key.pem')
        pk, ver2 = m.load_pk('public_key.pem')
    check(ver == v and ver2 == v, what + ': key files come back with another version')
    check([list(map(int, x)) for x in (sk.f, sk.g, sk.F, sk.G)] == polys(n, k), what + ': the secret key file does not load back to the same key')
    want = h_of(n, k) if v in ('falcon', 'ethfalcon') else digest('rec' if v == 'falconrec' else 'ep', h_of(n, k))
    check((list(pk.pk) if isinstance(want, list) else pk.pk) == want, what + ': the public key file does not load back to the same key')
    check(type(sk).__name__ == SK[v][1] and type(pk).__name__ == PK[v][1], what + ': key files load to another kind of key')
    ok(what + ': sign', 'sign', '--data', msg.hex(), '--privkey', 'private_key.pem')
    sig = bytes.fromhex(open('sig').read())
    check(expect(v, n, k, msg, sig) is True, what + ': the signature written is not valid')
    verdict(what + ': own signature', *cli('verify', '--data', msg.hex(), '--pubkey', 'public_key.pem', '--signature', 'sig'), want=True)
    ok(what + ': sign again', 'sign', '--data', msg.hex(), '--privkey', 'private_key.pem')
    check(bytes.fromhex(open('sig').read()) == sig, what + ': signing is not deterministic')
    a, b = case['a'], case['b']
    op = case['op']
    s2, m2, k2, v2 = sig, msg, k, v
    if op == 'flip':
        i = a % (8 * len(sig))
        s2 = sig[:i // 8] + bytes([sig[i // 8] ^ (128 >> i % 8)]) + sig[i // 8 + 1:]
    elif op == 'trunc':
        s2 = sig[:a % len(sig)]
    elif op == 'extend':
        s2 = sig + bytes([b & 1] * (1 + a % 40))
    elif op == 'msgflip':
        i = a % len(msg)
        m2 = msg[:i] + bytes([msg[i] ^ (1 << b % 8)]) + msg[i + 1:]
    elif op == 'msgext':
        m2 = (msg + bytes([b & 255]))[:maxmsg(XOF[v])]
    elif op == 'msgcut':
        m2 = msg[:-1] or b'\x01\x02'
    elif op == 'otherkey':
        k2 = k + 1
        write_keys(ctx, v, n, k2, what)
    elif op == 'otherver':
        v2 = {'falcon': 'ethfalcon', 'ethfalcon': 'falcon', 'falconrec': 'epervier', 'epervier': 'falconrec'}[v]
        write_keys(ctx, v2, n, k, what)
    elif op == 'salt':
        s2 = sig[:1 + a % 40] + bytes([sig[1 + a % 40] ^ 1]) + sig[2 + a % 40:]
    elif op == 'header':
        s2 = bytes([b & 255]) + sig[1:]
    with open('sig2', 'w') as f:
        f.write(s2.hex())
    if len(m2) <= maxmsg(XOF[v2]):
        w = expect(v2, n, k2, m2, s2)
        verdict('%s: after %s' % (what, op), *cli('verify', '--data', m2.hex(), '--pubkey', 'public_key.pem', '--signature', 'sig2'), want=w)
        check(not w or (s2.rstrip(b'\0') == sig.rstrip(b'\0') or op in ('flip', 'header')) and m2 == msg and k2 == k and v2 == v, what + ': an altered signature is valid')
        return ['!' + op, v, 'n%d' % n, 'still-valid' if w else 'refused']
    return [op, v]


def strat_cli(ctx=None):
    return st.fixed_dictionaries({'v': st.sampled_from(VERSIONS), 'n': st.sampled_from(SMALL + [512]), 'key': st.integers(0, 3), 'msg': blob(4200, top=69999, rate=60),
                                  'op': st.sampled_from(ALT), 'old': st.sampled_from([0, 0, 0, 1, 2, 3, 4]), 'a': st.integers(0, 99999), 'b': st.integers(0, 255)})


def corners_cli(ctx):
    return [{'v': v, 'n': 512 if i % 4 == 0 else SMALL[i % 6], 'key': i % 3, 'msg': {'n': 1 + 17 * i, 's': i}, 'op': op, 'a': 77 + 31 * i, 'b': 0x29 + i} for v in VERSIONS for i, op in enumerate(ALT)]


# ------------------------------------------------------------------ randomness of deterministic signing

class Stop(Exception):
    pass


def rot(p):
    """x * p mod x^n + 1"""
    return [-p[-1]] + list(p[:-1])


def irot(p):
    return list(p[1:]) + [-p[0]]


def salt_of(ctx, sk, msg, v, what):
    with sut(what + ': signature()'):
        return pyref.mod('sign_cli').signature(sk, msg, v)[1:41]


def run_det(ctx, case):
    v, n, k = case['v'], case['n'], case['key']
    mx = maxmsg(XOF[v])
    msg = unblob(case['msg'])[:mx - 40]
    what = 'version %s, degree %d' % (v, n)
    sk = sk_obj(ctx, n, k, SK[v][1], SK[v][0])
    r = Rng('det', case['seed'])
    ms = [msg, msg + b'\0', msg + b'\x01', b'\0' + msg, msg + bytes(32)]
    if msg:
        for _ in range(3):
            i = r.below(len(msg))
            ms.append(msg[:i] + bytes([msg[i] ^ (1 << r.below(8))]) + msg[i + 1:])
        ms += [msg[:-1], msg[1:], msg[:-1] + bytes([msg[-1] ^ 1]), bytes([msg[0] ^ 128]) + msg[1:], msg[:len(msg) // 2]]
    seen = {}
    for m in dict.fromkeys(ms):
        s = salt_of(ctx, sk, m, v, what)
        check(len(set(s)) > 1, what + ': constant salt')
        check(s not in seen, lambda: '%s: messages %s and %s share a salt' % (what, seen[s].hex()[:40], m.hex()[:40]))
        seen[s] = m
    # keys: another key, and another secret key of the same public key
    f, g, F, G = polys(n, k)
    others = [('another key', polys(n, k + 1)), ('another secret key of the same public key', [rot(f), rot(g), irot(F), irot(G)]),
              ('the negated secret key', [[-x for x in p] for p in (f, g, F, G)])]
    for nm, P in others:
        with sut(what + ': key object'):
            o = ctx.get(('detk', n, k, SK[v][1], nm), lambda: getattr(pyref.mod(SK[v][0]), SK[v][1])(n, P))
        s = salt_of(ctx, o, msg, v, what)
        check(s not in seen, what + ': %s gives the same salt' % nm)
        seen[s] = msg
    # every coefficient of f and g counts (the signer itself works from the precomputed basis and tree)
    for _ in range(4):
        o = copy.copy(sk)
        nm, i = r.choice('fg'), r.below(n)
        p = list(getattr(sk, nm))
        p[i] += r.choice([1, -1])
        setattr(o, nm, p)
        s = salt_of(ctx, o, msg, v, what)
        check(s not in seen, what + ': coefficient %d of %s does not count in the salt' % (i, nm))
    return ['!det', v, 'n%d' % n, 'empty' if not msg else 'long' if len(msg) > 136 else 'short']


def strat_det(ctx=None):
    return st.fixed_dictionaries({'v': st.sampled_from(VERSIONS), 'n': st.sampled_from([2, 4, 8, 16, 32, 64]), 'key': st.integers(0, 5), 'msg': blob(4200, top=69999, rate=60), 'seed': seeds()})


# ------------------------------------------------------------------ transactions

def abi_tx(nonce, to, data, value):
    w = lambda x: x.to_bytes(32, 'big')
    return w(nonce) + w(to) + w(128) + w(value) + w(len(data)) + data + bytes(-len(data) % 32)


def run_tx(ctx, case):
    r = Rng('tx', case['seed'])
    m = pyref.mod('sign_cli')
    base = [case['nonce'], case['to'], unblob(case['data']), case['value']]
    lims = [2 ** 256, 2 ** 160, None, 2 ** 256]
    with sut('transaction_hash'):
        h0 = bytes(m.transaction_hash(*base))
    check(h0 == M.keccak256(abi_tx(*base)), 'transaction hash is not the Keccak-256 of the encoded fields')
    seen = {h0}
    for i in range(8):
        t = list(base)
        j = i % 4
        if j == 2:
            d = t[2]
            p = r.below(len(d) + 1)
            t[2] = [d + b'\0', b'\0' + d, d[:p] + b'\x01' + d[p:], d[:-1] if d else b'\x07'][r.below(4)]
        else:
            t[j] = [t[j] ^ (1 << r.below(160 if j == 1 else 256)), (t[j] + 1) % lims[j]][r.below(2)]
        if t[2] == base[2] and j == 2:
            continue
        with sut('transaction_hash'):
            h = bytes(m.transaction_hash(*t))
        check(h != h0, 'transactions differing in field %d have the same hash' % j)
        seen.add(h)
    if case['nonce'] != case['value']:
        with sut('transaction_hash'):
            check(bytes(m.transaction_hash(base[3], base[1], base[2], base[0])) != h0, 'nonce and value exchanged give the same hash')
    return ['!tx', 'empty' if not base[2] else 'data']


big = lambda b: st.one_of(st.integers(0, 2 ** b - 1), st.integers(0, 300), st.integers(0, b - 1).map(lambda i: 1 << i), st.just(2 ** b - 1))


def strat_tx(ctx=None):
    return st.fixed_dictionaries({'nonce': big(256), 'to': big(160), 'data': blob(700), 'value': big(256), 'seed': seeds()})


def words(s, what):
    with sut(what + ': parsing the printed array'):
        w = ast.literal_eval(s)
    check(isinstance(w, list) and len(w) == 32 and all(isinstance(x, int) and 0 <= x < 2 ** 256 for x in w), what + ': not 32 words of 256 bits')
    return [(w[i >> 4] >> (16 * (i & 15))) & 0xffff for i in range(512)]


def chk_args(what, v, k, data, salt, s2w, pkw=None, s1w=None, hint=None):
    """the contract would accept these arguments."""
    h = h_of(512, k)
    check(re.fullmatch('0x[0-9a-fA-F]{80}', salt), what + ': salt argument ' + salt[:50])
    c = h2p(XOF[v], bytes.fromhex(salt[2:]), data, 512)
    s2 = words(s2w, what + ': s2')
    check(max(s2) < M.Q, what + ': s2 not reduced')
    s1 = M.centered([a - b for a, b in zip(c, M.mulq(s2, h))])
    check(M.norm2(s1, M.centered(s2)) <= M.BOUND[512], what + ': the arguments do not verify')
    if pkw is not None:
        check(words(pkw, what + ': key') == [int(x) for x in M.ntt(h)], what + ': key argument is not the transform of the public key')
    if s1w is not None:
        check(words(s1w, what + ': s1') == [int(x) % M.Q for x in s1], what + ': s1 argument is wrong')
        p = 1
        for x in M.ntt(s2):
            p = p * int(x) % M.Q
        check(int(hint) == pow(p, -1, M.Q), what + ': hint argument is wrong')


def run_signtx(ctx, case):
    clean()
    v, k = case['v'], case['key']
    data = unblob(case['data']) or b'\x01'
    what = 'sign_tx %s' % v
    r = Rng('hex', case['nonce'], case['value'])

    def wr(k):
        # a number in hexadecimal, as people write it
        x = '%x' % case[k]
        x = r.choice([x, x.zfill(40 if k == 'to' else 64), x.upper(), x.zfill(2)])
        return r.choice(['0x', '']) + x
    write_keys(ctx, v, 512, k, what)
    out = ok(what, 'sign_tx', '--data', data.hex(), '--privkey', 'private_key.pem', '--nonce', wr('nonce'), '--to', wr('to'), '--value', wr('value'))
    d = dict(re.findall(r'^(TX_HASH|PK|S2|SALT) = (.*)$', out, re.M))
    check(set(d) == {'TX_HASH', 'PK', 'S2', 'SALT'}, what + ': output lacks a field')
    tx = M.keccak256(abi_tx(case['nonce'], case['to'], data, case['value']))
    check(d['TX_HASH'] == '0x' + tx.hex(), what + ': printed hash does not cover the transaction given')
    chk_args(what, v, k, tx, d['SALT'], d['S2'], d['PK'])
    return ['!' + v]


def strat_signtx(ctx=None):
    return st.fixed_dictionaries({'v': st.sampled_from(['falcon', 'ethfalcon']), 'key': st.integers(0, 5), 'nonce': big(256), 'to': big(160), 'data': blob(200), 'value': big(256)})


def run_chain(ctx, case):
    clean()
    v, k, action = case['v'], case['key'], case['action']
    if v == 'epervier' and action == 'verifyonchainsend':
        action = 'verifyonchain'
    if v != 'epervier' and action.startswith('recover'):
        action = 'verifyonchain' + action[len('recoveronchain'):]
    msg = unblob(case['msg'])[:maxmsg(XOF[v])] or b'\0'
    what = '%s %s' % (action, v)
    write_keys(ctx, v, 512, k, what)
    ok(what + ': sign', 'sign', '--data', msg.hex(), '--privkey', 'private_key.pem')
    addr = '0x%040x' % Rng('ad', case['seed']).below(2 ** 160)
    ek = '0x%064x' % Rng('ek', case['seed']).below(2 ** 256)
    rpc = 'http://localhost:%d/x' % (1 + case['seed'] % 65535)
    A = [action, '--data', msg.hex(), '--pubkey', 'public_key.pem', '--signature', 'sig', '--contractaddress', addr, '--rpc', rpc]
    if action.endswith('send'):
        A += ['--privatekey', ek]
    d = digest('ep', h_of(512, k))
    right = case['seed'] & 1
    reply = '0x' + ('0' * 24 + '%040x' % (d if right else d ^ (1 << case['seed'] % 160))) if v == 'epervier' else '0x%064x' % right
    out = ok(what, *A, reply=reply + '\n')
    calls = cast_args()
    check(len(calls) == 1, what + ': %d calls of cast' % len(calls))
    a = calls[0]
    check(a[0] == ('send' if action.endswith('send') else 'call'), what + ': cast ' + a[0])
    a = a[1:]
    opt = {}
    pos = []
    i = 0
    while i < len(a):
        if a[i].startswith('--'):
            opt[a[i]] = a[i + 1]
            i += 2
        else:
            pos.append(a[i])
            i += 1
    check(opt.get('--rpc-url') == rpc, what + ': rpc lost')
    check(opt.get('--private-key') == (ek if action.endswith('send') else None), what + ': private key option')
    check(pos[0] == addr and pos[2] == '0x' + msg.hex(), what + ': address or message argument is wrong')
    if v == 'epervier':
        check(pos[1] == 'recover(bytes,bytes,uint256[],uint256[],uint256)' and len(pos) == 7, what + ': not the signature of the contract function: %s with %d arguments' % (pos[1], len(pos) - 2))
        chk_args(what, v, k, msg, pos[3], pos[5], s1w=pos[4], hint=pos[6])
        if action == 'verifyonchain':
            check(('0x' + '0' * 63 + '1' in out) == bool(right), what + ': answer for a recovered key is wrong')
        else:
            check(reply in out, what + ': result not printed')
    else:
        check(pos[1] == 'verify(bytes,bytes,uint256[],uint256[])' and len(pos) == 6, what + ': not the signature of the contract function')
        chk_args(what, v, k, msg, pos[3], pos[4], pkw=pos[5])
        check(reply in out, what + ': result not printed')
    return ['!' + action, v]


def strat_chain(ctx=None):
    return st.fixed_dictionaries({'v': st.sampled_from(['falcon', 'ethfalcon', 'epervier', 'epervier']), 'key': st.integers(0, 5), 'msg': blob(1500),
                                  'action': st.sampled_from(['verifyonchain', 'verifyonchainsend', 'recoveronchain', 'recoveronchainsend']), 'seed': seeds()})


def corners_chain(ctx):
    return [{'v': v, 'key': 0, 'msg': {'n': 21, 's': 5}, 'action': a, 'seed': s} for v in ('falcon', 'ethfalcon', 'epervier')
            for a in ('verifyonchain', 'verifyonchainsend', 'recoveronchain', 'recoveronchainsend') for s in (6, 7)]


# ------------------------------------------------------------------ the real command

def tool(d, *args):
    env = {'PATH': '/usr/bin:/bin', 'PYTHONPATH': ':'.join([os.path.join(VERIF, 'vp', 'pystub')] + [p for p in sys.path if 'site-packages' in p]), 'PYTHONDONTWRITEBYTECODE': '1'}
    return subprocess.run([sys.executable, os.path.join(pyref.ROOT, 'sign_cli.py')] + list(args), cwd=d, env=env, capture_output=True, text=True, timeout=300)


def run_real(ctx, case):
    v = case['v']
    d = os.path.join(ctx.scratch, 'real%d' % os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    what = 'sign_cli.py, version %s' % v
    msg = (unblob(case['msg'])[:maxmsg(XOF[v])] or b'\1').hex()
    keys = []
    for i in range(2):
        p = tool(d, 'genkeys', '--version', v)
        check(p.returncode == 0, what + ': genkeys fails: ' + p.stderr[-200:])
        keys.append((open(d + '/private_key.pem').read(), open(d + '/public_key.pem').read()))
    check(keys[0] != keys[1], what + ': two generated keys are equal')
    p = tool(d, 'sign', '--data', msg, '--privkey', 'private_key.pem')
    check(p.returncode == 0 and os.path.exists(d + '/sig'), what + ': sign fails: ' + p.stderr[-200:])
    V = lambda pk, m: tool(d, 'verify', '--data', m, '--pubkey', pk, '--signature', 'sig')
    p = V('public_key.pem', msg)
    check(p.returncode == 0 and 'Signature is valid.' in p.stdout, what + ': own signature refused: ' + (p.stdout + p.stderr)[-200:])
    open(d + '/other.pem', 'w').write(keys[0][1])
    p = V('other.pem', msg)
    check('is valid' not in p.stdout, what + ': valid under another key')
    p = V('public_key.pem', msg + '00')
    check('is valid' not in p.stdout, what + ': valid for another message')
    # key file semantics
    f = dict(l.split(' = ') for l in keys[1][0].splitlines()[1:])
    P = [ast.literal_eval(f[x]) for x in 'fgFG']
    fg = [a - b for a, b in zip(M.negmul(P[0], P[3]), M.negmul(P[1], P[2]))]
    check([int(x) for x in fg] == [M.Q] + [0] * 511, what + ': generated key is not an NTRU key')
    shutil.rmtree(d)
    return ['!' + v]


def strat_real(ctx=None):
    return st.fixed_dictionaries({'v': st.sampled_from(VERSIONS), 'msg': blob(600)})


def corners_real(ctx):
    return [{'v': v, 'msg': {'n': 40, 's': 9}} for v in VERSIONS]


FACETS = [
    Facet('cli', strat_cli, run_cli, 240, 6000, corners=corners_cli, rule='key files, signing, own verification, then one alteration judged by the reference verifier'),
    Facet('deterministic', strat_det, run_det, 200, 6000, rule='salts of related messages and keys are all different'),
    Facet('tx', strat_tx, run_tx, 800, 40000, rule='hash of the encoded fields; one field changed'),
    Facet('sign_tx', strat_signtx, run_signtx, 16, 400, rule='printed transaction signature verifies'),
    Facet('onchain', strat_chain, run_chain, 16, 400, corners=corners_chain, rule='arguments passed to cast satisfy the contract equation'),
    Facet('real', strat_real, run_real, 0, 40, corners=corners_real, rule='real process: genkeys, sign, verify'),
]
ASSUMPTIONS = ['polyntt is replaced by a stand-in with the same interface (the dependency is not installed)', 'cast is replaced by a stand-in that records its arguments']
