#!/usr/bin/env python3
"""Dev tool: small random changes to one file, and which checks see them.
mutate.py FILE PROP[,PROP..] [--n 20] [--seed 1] [--lines a-b] [--out results.jsonl]
Works on a scratch copy of /repo; a survivor is printed as a diff."""
import argparse, json, os, random, re, shutil, subprocess, sys, tempfile, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser()
ap.add_argument('file')
ap.add_argument('props')
ap.add_argument('--n', type=int, default=20)
ap.add_argument('--seed', type=int, default=1)
ap.add_argument('--lines', default='')
ap.add_argument('--out', default='/tmp/mutate.jsonl')
a = ap.parse_args()
rng = random.Random(a.seed)
src = open('/repo/' + a.file).read().split('\n')
py = a.file.endswith('.py')
lo, hi = map(int, a.lines.split('-')) if a.lines else (1, len(src))
REL = {'<': ['<=', '>'], '<=': ['<'], '>': ['>=', '<'], '>=': ['>'], '==': ['!='], '!=': ['==']}


def mutants():
    out = []
    block = False
    for i in range(lo - 1, min(hi, len(src))):
        l = src[i]
        s = l.strip()
        if not py:
            if block:
                if '*/' in s:
                    block = False
                continue
            if s.startswith('/*'):
                if '*/' not in s:
                    block = True
                continue
        if not s or s.startswith(('//', '#', '*', 'import', 'from', 'pragma', 'using', '"""')):
            continue
        code = l.split('//')[0] if not py else l.split('#')[0]
        if 'fmt.Print' in code or 'print(' in code or 'require(' in code and False:
            continue
        for m in re.finditer(r'(?<![<>=!\-+*/%&|^])(<=|>=|==|!=|<|>)(?![<>=])', code):
            if '#include' in code or 'range' in code and False:
                continue
            for r in REL[m.group(1)]:
                out.append((i, code[:m.start()] + r + code[m.end():], 'rel'))
        for m in re.finditer(r'(?<![\w.])(0x[0-9a-fA-F]+|\d+)(?![\w.])', code):
            t = m.group(1)
            v = int(t, 0)
            for d in (1, -1):
                if v + d >= 0:
                    out.append((i, code[:m.start()] + (hex(v + d) if t.startswith('0x') else str(v + d)) + code[m.end():], 'const'))
            if t.startswith('0x') and v > 15:
                out.append((i, code[:m.start()] + hex(v ^ (1 << rng.randrange(v.bit_length()))) + code[m.end():], 'const'))
        for m in re.finditer(r'(?<=[\w\])] )([+\-*&|^])(?= [\w(])', code):
            for r in {'+': '-', '-': '+', '*': '+', '&': '|', '|': '&', '^': '|'}[m.group(1)]:
                out.append((i, code[:m.start()] + r + code[m.end():], 'arith'))
        for x, y in (('&&', '||'), ('||', '&&'), (' and ', ' or '), (' or ', ' and '), ('>>', '<<'), ('addmod', 'mulmod'), ('true', 'false'), ('True', 'False')):
            p = code.find(x)
            if p >= 0:
                out.append((i, code[:p] + y + code[p + len(x):], 'logic'))
        if s.endswith(';') and not re.match(r'(return|break|continue|int|size_t|uint|const|static|unsigned|TEMPALLOC|double|fpr |int32|u?int\d+_t|var )', s) and not py:
            out.append((i, re.match(r'\s*', l).group() + ';' if not a.file.endswith('.go') and not a.file.endswith('.sol') else '', 'del'))
        if py and re.match(r'[\w.\[\]]+ ?[+\-*^|]?= ', s):
            out.append((i, re.match(r'\s*', l).group() + 'pass', 'del'))
        if re.match(r'(return -1|return 0|return False|revert|raise)', s):
            out.append((i, re.match(r'\s*', l).group() + ('pass' if py else ';' if a.file.endswith('.c') else ''), 'del'))
    return out


ms = mutants()
by = {}
for m in ms:
    by.setdefault(m[0], []).append(m)
lines = sorted(by)
rng.shuffle(lines)
w = tempfile.mkdtemp(prefix='mut-')
try:
    r = w + '/repo'
    subprocess.run(['cp', '-a', '/repo', r], check=True)
    t0 = time.time()
    cnt = {}
    for i in lines[:a.n]:
        m = rng.choice(by[i])
        new = src[:]
        new[i] = m[1]
        open(r + '/' + a.file, 'w').write('\n'.join(new))
        res = 'SURVIVED'
        for p in a.props.split(','):
            env = dict(os.environ, VP_REPO=r, VERIF_SEED='1', VERIF_TIER='quick')
            try:
                q = subprocess.run(['/opt/venv/bin/python', V + '/run.py', p, '--tier', 'quick'], capture_output=True, text=True, env=env, cwd=V, timeout=600)
            except subprocess.TimeoutExpired:
                res = 'TIMEOUT ' + p
                break
            if q.returncode == 1 and 'VIOLATION' in q.stdout:
                res = 'caught ' + p
                break
            if q.returncode != 0:
                res = 'NOBUILD ' + p + ' ' + (q.stdout + q.stderr)[-200:].replace('\n', ' ')
                break
        cnt[res.split()[0]] = cnt.get(res.split()[0], 0) + 1
        with open(a.out, 'a') as f:
            f.write(json.dumps({'file': a.file, 'line': i + 1, 'old': src[i].strip(), 'new': m[1].strip(), 'kind': m[2], 'res': res}) + '\n')
        if not res.startswith('caught') and not (res.startswith('NOBUILD') and 'BUILD' in res[8:].upper()):
            print('%s:%d %s\n  - %s\n  + %s' % (a.file, i + 1, res, src[i].strip(), m[1].strip()), flush=True)
    print(a.file, cnt, '%ds' % (time.time() - t0), flush=True)
finally:
    shutil.rmtree(w, ignore_errors=True)
