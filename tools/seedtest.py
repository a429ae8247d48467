#!/usr/bin/env python3
"""Dev tool: try a planted bug on a scratch copy of /repo.
seedtest.py ID [--props C02,..] [--no-tests] [--tier quick]"""
import argparse, json, os, shutil, subprocess, sys, tempfile
V = '/verif'
ap = argparse.ArgumentParser()
ap.add_argument('id')
ap.add_argument('--props', default='')
ap.add_argument('--no-tests', action='store_true')
ap.add_argument('--no-check', action='store_true')
ap.add_argument('--tier', default='quick')
ap.add_argument('--scale', default='')
a = ap.parse_args()
d = os.path.join(V, 'seeded', a.id)
meta = json.load(open(d + '/meta.json'))
w = tempfile.mkdtemp(prefix='seed-%s-' % a.id)
try:
    r = w + '/repo'
    subprocess.run(['cp', '-a', '/repo', r], check=True)
    dd = w + '/demo'
    shutil.copytree(d, dd)

    def demo():
        p = subprocess.run(['bash', dd + '/demo.sh'], cwd=r, capture_output=True, text=True, timeout=300)
        return p.returncode, (p.stdout + p.stderr)[-1500:]
    c0, o0 = demo()
    print('demo clean rc', c0, o0 if c0 else '')
    subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=r, check=True)
    c1, o1 = demo()
    print('demo patched rc', c1, o1[-300:] if c1 else 'NOT DETECTED ' + o1)
    ok = c0 == 0 and c1 != 0
    if not a.no_tests:
        vp = w + '/vp'
        os.makedirs(vp)
        for f in ('env.sh', 'build.sh', 'test.sh'):
            s = open('/opt/vp/' + f).read().replace('/repo', r).replace('/opt/vp/env.sh', vp + '/env.sh').replace('/opt/vp/work', vp + '/work').replace('/opt/vp/gocache', '/tmp/vp-gocache')
            open(vp + '/' + f, 'w').write(s)
        p = subprocess.run(['bash', vp + '/build.sh'], capture_output=True, text=True)
        print('build rc', p.returncode, p.stdout[-500:] if p.returncode else '')
        p = subprocess.run(['bash', vp + '/test.sh', w + '/out.json'], capture_output=True, text=True)
        res = json.load(open(w + '/out.json'))
        st = json.load(open('/opt/vp/BASELINE.json'))['stable']
        passed = set(res.get('passed') or [k for k, v in res.get('tests', {}).items() if v in ('pass', 'passed', True)])
        bad = [t for t in st if t not in passed]
        print('stable tests failing:', bad if len(bad) < 31 else ('all?', list(res)[:5]))
        ok = ok and p is not None and not bad
    print('SEED', a.id, 'OK' if ok else 'BAD')
    if not a.no_check:
        for pr in (a.props.split(',') if a.props else [meta['property']]):
            env = dict(os.environ, VP_REPO=r, VERIF_SEED='1', VERIF_TIER=a.tier)
            cmd = ['/opt/venv/bin/python', V + '/run.py', pr, '--tier', a.tier] + (['--scale', a.scale] if a.scale else [])
            p = subprocess.run(cmd, capture_output=True, text=True, env=env, cwd=V)
            vl = [l for l in p.stdout.splitlines() if 'VIOLATION' in l]
            print('check', pr, 'rc', p.returncode, 'CAUGHT' if p.returncode == 1 and vl else 'MISSED', vl[:1], '' if p.returncode == 1 else (p.stdout + p.stderr)[-300:])
finally:
    shutil.rmtree(w, ignore_errors=True)
