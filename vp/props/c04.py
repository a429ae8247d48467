"""C04: hostile bytes never make the C library read or write out of bounds."""
import ctypes as C
import glob
import os
import subprocess
import time
from hypothesis import strategies as st
from ..core import Facet, Violation, case_hash, abbreviate
from .. import model as M
from ..gen import Rng, ubytes, seeds, LENS

ASSUMPTIONS = ['AddressSanitizer, UndefinedBehaviorSanitizer (without shift and alignment checks) and MemorySanitizer decide what an error is',
               'signing is not run with secret keys that decode but are no NTRU basis (the statement excludes them)']
OPS = {'open-raw': 0, 'open-edit': 3, 'pk-edit': 6, 'pk-raw': 7, 'codec': 8, 'sign': 10, 'pk-ep': 11, 'sponge': 12, 'core': 13,
       'keygen': 14, 'sign-msg': 15}


def build(b):
    return {'asanlib': b.fuzz(('nist', 'eth'), 'asanlib'), 'asan': b.fuzz(('nist', 'eth'), 'asan'), 'msan': b.fuzz(('nist', 'eth'), 'msan'),
            'rt': rt()}


def rt():
    r = subprocess.run(['clang', '-print-file-name=libclang_rt.asan-x86_64.so'], capture_output=True, text=True).stdout.strip()
    if not os.path.exists(r):
        r = sorted(glob.glob('/usr/lib/llvm-*/lib/clang/*/lib/linux/libclang_rt.asan-x86_64.so'))[-1]
    return r


SAN_OPTS = {'ASAN_OPTIONS': 'detect_leaks=0:abort_on_error=1:handle_abort=1:allocator_may_return_null=1:detect_stack_use_after_return=1',
            'UBSAN_OPTIONS': 'print_stacktrace=1', 'MSAN_OPTIONS': 'abort_on_error=1'}


def worker_env(art):
    return dict(SAN_OPTS, LD_PRELOAD=art['rt'])


def setup_worker(ctx):
    ctx.fz = {}
    for v, p in ctx.art['asanlib'].items():
        d = C.CDLL(p)
        ctx.fz[v] = d.LLVMFuzzerTestOneInput
    os.environ.pop('LD_PRELOAD', None)


def to_bytes(case):
    """the target's input for a case."""
    op, sel = case['op'], case['sel']
    rng = Rng('c04', op, case['s'])
    o = OPS[op]
    if op in ('open-raw', 'open-edit'):
        o += case['fmt']
    if op == 'codec' and case['fmt'] == 1:
        o += 1
    body = b''
    if op == 'open-raw':
        # a plausible frame of any length: length field, salt, message, header, body
        n = case['n']
        body = bytearray(rng.bytes(n))
        L = {0: 1 + rng.below(700), 1: 1025, 2: 2052}[case['fmt']]
        L += case['d']
        if n >= 2 and case['frame']:
            body[0], body[1] = (L >> 8) & 255, L & 255
            if 0 < L <= n - 42:
                body[n - L] = 0x29
                if case['fmt'] == 2 and L > 1025:
                    body[n - L + 1025] = 0x29
                k = n - L + 1
                if case['frame'] == 2:
                    for i in range(k, n):
                        body[i] = rng.choice([0, 0, 0, 1, 0x80, 0xff, 0x30])
        body = bytes(body)
    elif op in ('open-edit', 'pk-edit', 'sign', 'pk-ep'):
        body = b''.join(bytes([k, p & 255, p >> 8, v]) for k, p, v in case['edits'])
        if op == 'sign' and sel < 128:
            body = b'\x59' + rng.bytes(1280 if case['frame'] else case['n'] % 1281)
        if op == 'pk-ep':
            sel |= 1
    elif op == 'codec':
        logn = case['logn']
        n = 1 << (1 + logn % 10)
        w = case['n']
        if case['frame'] == 0:
            d = rng.bytes(w % (2 * n + 9))
        elif case['frame'] == 1:
            vals = [rng.choice([0, 1, -1, 127, -127, 128, 2047, -2047, rng.randint(-300, 300)]) for _ in range(n)]
            d = M.comp_encode(vals)
            cut = case['d'] % (len(d) + 3)
            d = d[:len(d) - cut] if cut <= len(d) else d + b'\0' * (cut - len(d))
        elif case['frame'] == 2:
            d = M.fixed_encode([rng.below(M.Q) for _ in range(n)], 14 if case['d'] & 1 else 16)
            d = d[:max(0, len(d) - (case['d'] >> 1) % 4)] + b'\0' * ((case['d'] >> 3) % 2)
        else:
            d = bytes([(0, 0x80, 1, 0xff)[case['d'] & 3]]) * (w % (3 * n + 9))
        body = bytes([case['codec'], logn, case['bits']]) + d
    elif op == 'sponge':
        for k, l in case['steps']:
            body += bytes([k, l & 255, l >> 8])
    elif op == 'core':
        body = bytes([case['fmt'], case['logn']]) + rng.bytes(case['n'] % 300)
    elif op == 'keygen':
        body = rng.bytes(case['n'] % 100)
    elif op == 'sign-msg':
        body = rng.bytes(case['n'])
    return bytes([o, sel & 255]) + body


def run(ctx, case):
    b = to_bytes(case)
    f = ctx.fz[case['lib']]
    p = ctx.get('libc', lambda: C.CDLL(None))
    p.malloc.restype = C.c_void_p
    a = p.malloc(C.c_size_t(len(b)))
    C.memmove(a, b, len(b))
    f(C.c_void_p(a), C.c_size_t(len(b)))
    p.free(C.c_void_p(a))
    return ['!' + case['op'], case['lib']]


def strat(ops):
    edits = st.lists(st.tuples(st.integers(0, 7), st.one_of(st.integers(0, 2200), st.sampled_from([0, 1, 41, 42, 43, 656, 1066])),
                               st.one_of(st.integers(0, 255), st.sampled_from([0, 0x29, 0x30, 0xff, 0x80]))).map(list), max_size=6)
    return st.fixed_dictionaries({
        'op': st.sampled_from(ops), 'sel': st.integers(0, 255), 'fmt': st.integers(0, 2), 's': seeds(),
        'lib': st.sampled_from(['nist', 'eth']),
        'n': st.one_of(st.sampled_from(LENS + [42, 43, 1067, 1068, 2093, 2094, 2095]), st.integers(0, 2500)), 'd': st.sampled_from([0, 0, 0, 1, -1, 2, 3, 5, 9, 17, 40, -1024, 65000]),
        'frame': st.integers(0, 3), 'edits': edits, 'codec': st.integers(0, 11), 'logn': st.integers(0, 9), 'bits': st.integers(0, 6),
        'steps': st.lists(st.tuples(st.sampled_from([0, 0, 2, 3, 3]), st.sampled_from([0, 1, 31, 32, 33, 135, 136, 137, 4056, 4095, 4096, 4097, 500])).map(list), max_size=8)})


FAST = ['open-raw', 'open-edit', 'open-edit', 'pk-edit', 'pk-raw', 'codec', 'codec', 'codec', 'pk-ep', 'sponge', 'core']
FACETS = [Facet('decode', lambda ctx: strat(FAST), run, 24000, 1000000,
                rule='structured hostile input for one entry point under ASan/UBSan with exact-size heap buffers'),
          Facet('sign', lambda ctx: strat(['sign', 'keygen', 'sign-msg', 'sign-msg']), run, 240, 8000,
                rule='signing and key generation with mutated keys, seeds and messages of every length, exact output buffers')]


# ------------------------------------------------------------------ coverage-guided campaigns
EXTRA_FACETS = ['libfuzzer-asan-nist', 'libfuzzer-asan-eth', 'libfuzzer-msan-nist', 'libfuzzer-msan-eth']
EXTRA_RULE = 'libfuzzer-*: executions of the coverage-guided target (non-trivial: inputs kept because they reached new coverage)'


def corpus_cases(seed, n):
    """deterministic structured inputs to start from."""
    rng = Rng('corpus', seed)
    out = []
    ops = FAST + ['sign', 'sign-msg', 'keygen']
    for i in range(n):
        op = ops[i % len(ops)]
        out.append(to_bytes({'op': op, 'sel': rng.below(256), 'fmt': i // len(ops) % 3, 's': i, 'lib': 'nist', 'n': rng.choice(LENS + [1067, 2094, 700]),
                             'd': rng.choice([0, 0, 1, -1, 3, 17]), 'frame': rng.below(4), 'codec': rng.below(12), 'logn': rng.below(10), 'bits': rng.below(7),
                             'edits': [[rng.below(8), rng.below(2200), rng.below(256)] for _ in range(rng.below(4))],
                             'steps': [[rng.choice([0, 2, 3]), rng.choice([0, 1, 136, 4096, 4097])] for _ in range(rng.below(6))]}))
    return out


def run_one(binpath, path, timeout=60):
    return subprocess.run([binpath, path], capture_output=True, text=True, timeout=timeout, env=dict(os.environ, **SAN_OPTS), errors='replace')


def replay_extra(art, cur):
    _, kind, v = cur['facet'].split('-')
    p = os.path.join(art['scratch'], 'replay.bin')
    open(p, 'wb').write(bytes.fromhex(cur['case']['hex']))
    try:
        r = run_one(art[kind][v], p)
    except subprocess.TimeoutExpired:
        return 'the input does not terminate'
    if r.returncode:
        return 'the input fails: ' + digest(r.stderr)
    return None


def digest(txt):
    l = [x for x in txt.splitlines() if 'ERROR' in x or 'runtime error' in x or 'VP-FAIL' in x or 'WARNING: MemorySanitizer' in x or 'SUMMARY' in x]
    return ' | '.join(l[:4])[:700] or txt[-300:]


def extra(art, tier, seed, scratch, base):
    t = 20 if tier == 'quick' else 1500
    procs = []
    facets, viol = {}, []
    per = 2
    n0 = 280 if tier == 'quick' else 3000
    inputs = corpus_cases(seed, n0)
    for name in EXTRA_FACETS:
        _, kind, v = name.split('-')
        cd = os.path.join(scratch, 'corpus-' + name)
        os.makedirs(cd)
        for i, b in enumerate(inputs):
            open(os.path.join(cd, 's%d' % i), 'wb').write(b)
        for k in range(per):
            ad = os.path.join(scratch, 'art-%s-%d-' % (name, k))
            log = open(ad + 'log', 'w')
            wd = os.path.join(scratch, 'new-%s-%d' % (name, k))
            os.makedirs(wd)
            cmd = [art[kind][v], wd, cd, '-max_total_time=%d' % t, '-seed=%d' % (seed * 100 + k + 1), '-max_len=3200', '-len_control=0',
                   '-timeout=30', '-artifact_prefix=' + ad, '-print_final_stats=1', '-verbosity=1', '-use_value_profile=1', '-rss_limit_mb=3000']
            procs.append((name, ad, wd, subprocess.Popen(cmd, stdout=log, stderr=log, env=dict(os.environ, **SAN_OPTS))))
    end = time.time() + t + 240
    for name, ad, wd, p in procs:
        try:
            p.wait(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        txt = open(ad + 'log', errors='replace').read()
        g = facets.setdefault(name, {'evals': 0, 'nt': 0, 'labels': {}, 'samples': [], 'wall': t})
        for l in txt.splitlines():
            if l.startswith('stat::number_of_executed_units:'):
                g['evals'] += int(l.split(':')[-1])
        new = sorted(os.listdir(wd))
        g['nt'] += len(new)
        if new and not g['samples']:
            g['samples'].append(open(os.path.join(wd, new[0]), 'rb').read()[:60].hex())
        crash = [x for x in glob.glob(ad + '*') if not x.endswith('log')]
        crash = [x for x in crash if os.path.basename(x).split('-')[-2] in ('crash', 'timeout', 'oom')]
        if crash and not viol:
            _, kind, v = name.split('-')
            # confirm on its own, then let libFuzzer minimise it
            for c in crash:
                try:
                    r = run_one(art[kind][v], c)
                    bad, msg = r.returncode != 0, digest(r.stderr)
                except subprocess.TimeoutExpired:
                    bad, msg = True, 'the input does not terminate within 60 s'
                if not bad:
                    continue
                best = open(c, 'rb').read()
                if 'crash' in os.path.basename(c):
                    mp = os.path.join(scratch, 'min.bin')
                    subprocess.run([art[kind][v], '-minimize_crash=1', '-max_total_time=20', '-exact_artifact_path=' + mp, c], capture_output=True,
                                   env=dict(os.environ, **SAN_OPTS))
                    if os.path.exists(mp):
                        try:
                            if run_one(art[kind][v], mp).returncode:
                                best = open(mp, 'rb').read()
                        except subprocess.TimeoutExpired:
                            pass
                viol.append({'facet': name, 'case': {'hex': best.hex()}, 'msg': msg})
                break
    return {'facets': facets, 'violations': viol}
