"""H01: the Poseidon2 wrappers hand the 24 words to the permutation and back unchanged."""
import ctypes as C
import importlib.util
import os
import shutil
import subprocess
import sys
from hypothesis import strategies as st
from ..build import BuildError, sh
from ..core import Facet, check, sut, REPO, VERIF
from ..gen import Rng, seeds

P = 2013265921
ASSUMPTIONS = ['the crates that hold the permutation (zkhash, p3-*) are not available offline: computable stand-ins over the true field take their place, '
               'so the permutation itself is not judged']


def build(b):
    """both wrapper libraries; a wrapper that uses something the stand-ins do not offer is left out"""
    d = os.path.join(b.scratch, 'poseidon')
    os.makedirs(d)
    src = os.path.join(VERIF, 'c', 'rust')
    for c, deps in (('p3_symmetric', ()), ('p3_field', ()), ('rand', ()), ('rand_xoshiro', ('rand',)),
                    ('p3_baby_bear', ('p3_field', 'p3_symmetric', 'rand')), ('ark_ff', ()), ('zkhash', ('ark_ff',))):
        ext = [x for y in deps for x in ('--extern', '%s=%s/lib%s.rlib' % (y, d, y))]
        sh(['rustc', '--edition', '2021', '-O', '-Awarnings', '--crate-type', 'rlib', '--crate-name', c, '-L', d, *ext, '--out-dir', d,
            os.path.join(src, c + '.rs')], cwd=d)
    out = {}
    for w, deps in (('EF', ('zkhash', 'ark_ff')), ('Plonky3', ('p3_symmetric', 'p3_field', 'rand', 'rand_xoshiro', 'p3_baby_bear'))):
        o = os.path.join(d, w)
        os.makedirs(o)
        so = os.path.join(o, 'libposeidon2_wrapper.so')
        ext = [x for y in deps for x in ('--extern', '%s=%s/lib%s.rlib' % (y, d, y))]
        try:
            sh(['rustc', '--edition', '2021', '-O', '-Awarnings', '--crate-type', 'cdylib', '--crate-name', 'poseidon2_wrapper', '-L', d, *ext, '-o', so,
                os.path.join(REPO, 'hash', 'src', 'poseidon2_' + w, 'src', 'lib.rs')], cwd=d)
        except BuildError as e:
            print('NO-ANSWER facet=wrapper %s: %s' % (w, str(e)[-300:].replace('\n', ' ')))
            continue
        out[w] = so
    return {'so': out, 'dir': d}


def splitmix(x):
    while True:
        x = (x + 0x9e3779b97f4a7c15) % 2 ** 64
        z = (x ^ x >> 30) * 0xbf58476d1ce4e5b9 % 2 ** 64
        z = (z ^ z >> 27) * 0x94d049bb133111eb % 2 ** 64
        yield z ^ z >> 31


def rotl(x, n):
    return (x << n | x >> (64 - n)) % 2 ** 64


def constants(w):
    if w == 'EF':
        return [1000003 * (i + 1) for i in range(24)]
    g = splitmix(1)
    a, b = next(g), next(g)
    k = []
    for _ in range(24):
        k.append((a + b) % 2 ** 64 % P)
        t = a ^ b
        a, b = rotl(a, 24) ^ t ^ (t << 16) % 2 ** 64, rotl(t, 37)
    return k


K = {w: constants(w) for w in ('EF', 'Plonky3')}


def expected(w, words):
    x = [v % P for v in words]
    s = sum((j + 1) * v for j, v in enumerate(x))
    return [((i + 1) * s + x[i] ** 3 * (7 + i) + x[(i + 5) % 24] * x[(i + 11) % 24] + K[w][i]) % P for i in range(24)]


def words_of(case):
    r = Rng('h01', case['s'])
    k = case['k']
    edge = [0, 1, P - 1, P, P + 1, 2 * P - 1, 2 * P, 2 * P + 1, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1]
    if k == 'edge':
        return [r.choice(edge) for _ in range(24)]
    if k == 'one':
        x = [0] * 24
        x[r.below(24)] = r.choice(edge)
        return x
    if k == 'small':
        return [r.below(P) for _ in range(24)]
    return [r.below(2 ** 32) for _ in range(24)]


def run_wrapper(ctx, case):
    w = case['w']
    if w not in ctx.art['so']:
        return ['not built']
    L = ctx.get(('so', w), lambda: C.CDLL(ctx.art['so'][w]))
    f = L.poseidon2_permute_babybear24
    f.restype = None
    x = words_of(case)
    if case['inplace']:
        buf = (C.c_uint32 * 40)(*[0xDEADBEEF] * 40)
        for i, v in enumerate(x):
            buf[8 + i] = v
        p = C.byref(buf, 32)
        f(p, p)
        out = list(buf)
    else:
        a = (C.c_uint32 * 40)(*([0xABCD1234] * 8 + x + [0xABCD1234] * 8))
        b = (C.c_uint32 * 40)(*[0xDEADBEEF] * 40)
        f(C.byref(a, 32), C.byref(b, 32))
        check(list(a) == [0xABCD1234] * 8 + x + [0xABCD1234] * 8, w + ': the input is changed')
        out = list(b)
    check(out[:8] + out[32:] == [0xDEADBEEF] * 16, w + ': words outside the 24 of the output are written')
    e = expected(w, x)
    for i in range(24):
        check(out[8 + i] == e[i], lambda: '%s: word %d of the result is %d, not %d' % (w, i, out[8 + i], e[i]))
    return ['!' + w, case['k']]


def run_python(ctx, case):
    """the Python wrapper, in the folder it looks for the library from"""
    w = case['w']
    if w not in ctx.art['so']:
        return ['not built']

    def mk():
        d = os.path.join(ctx.scratch, 'pos-%s-%d' % (w, os.getpid()))
        os.makedirs(os.path.join(d, 'src', 'build'), exist_ok=True)
        os.makedirs(os.path.join(d, 'src', 'python'), exist_ok=True)
        shutil.copy(ctx.art['so'][w], os.path.join(d, 'src', 'build', 'libposeidon2_wrapper.so'))
        f = os.path.join(d, 'src', 'python', 'poseidon2.py')
        shutil.copy(os.path.join(REPO, 'hash', 'src', 'python', 'poseidon2.py'), f)
        spec = importlib.util.spec_from_file_location('poseidon2_' + w, f)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        return m, os.path.dirname(f)
    m, d = ctx.get(('py', w), mk)
    x = words_of(case)
    n = case['n']
    y = (x + x + x)[:n]
    z = list(y)
    old = os.getcwd()
    os.chdir(d)
    try:
        if n != 24:
            try:
                m.poseidon2_permute(tuple(y) if case['inplace'] else y)
            except ValueError:
                return ['!refused']
            check(False, 'Python: %d words are not refused' % n)
        with sut('poseidon2_permute'):
            r = m.poseidon2_permute(tuple(y) if case['inplace'] else y)
    finally:
        os.chdir(old)
    check(y == z, 'Python: the input is changed')
    check(list(r) == expected(w, x), 'Python over %s: another result than the permutation of the words' % w)
    return ['!' + w]


def run_script(ctx, case):
    """the example at the end of the module, and the C program of the tests"""
    w = case['w']
    if w not in ctx.art['so']:
        return ['not built']
    d = os.path.join(ctx.scratch, 'script-%s-%d' % (w, os.getpid()))
    shutil.rmtree(d, True)
    os.makedirs(os.path.join(d, 'build'))
    os.makedirs(os.path.join(d, 'python'))
    shutil.copy(ctx.art['so'][w], os.path.join(d, 'build'))
    shutil.copy(os.path.join(REPO, 'hash', 'src', 'python', 'poseidon2.py'), os.path.join(d, 'python'))
    r = subprocess.run([sys.executable, 'poseidon2.py'], cwd=os.path.join(d, 'python'), capture_output=True, text=True, timeout=60)
    check(r.returncode == 0, 'the module run as a program fails: ' + r.stderr[-200:])
    shutil.rmtree(d, True)
    return ['!' + w]


X = {'w': st.sampled_from(['EF', 'Plonky3']), 'k': st.sampled_from(['any', 'any', 'small', 'edge', 'one']), 's': seeds(24), 'inplace': st.booleans()}
FACETS = [
    Facet('wrapper', st.fixed_dictionaries(X), run_wrapper, 6000, 100000, rule='every call',
          corners=[{'w': w, 'k': k, 's': i, 'inplace': i % 2 == 1} for w in ('EF', 'Plonky3') for k in ('any', 'small', 'edge', 'one') for i in range(40)]),
    Facet('python', st.fixed_dictionaries(dict(X, n=st.one_of(st.just(24), st.just(24), st.integers(0, 60)))), run_python, 1500, 20000, rule='every call',
          corners=[{'w': w, 'k': 'any', 's': 1, 'inplace': False, 'n': n} for w in ('EF', 'Plonky3') for n in range(50)]),
    Facet('script', st.fixed_dictionaries({'w': X['w']}), run_script, 0, 0, corners=[{'w': 'EF'}, {'w': 'Plonky3'}], rule='every run', max_shards=1),
]
