"""Driver core: facets, workers, aggregation, evidence, replay.

A *property module* (vp/props/<id>.py) defines
    build(env)  -> JSON-able dict of artifacts built from /repo's working tree
    FACETS      -> list of Facet
A Facet pairs a generator (Hypothesis strategy of JSON-able cases) with an executable check.
`run(ctx, case)` raises Violation when the property is broken and otherwise returns labels
(list of str); a label starting with '!' marks the case as non-trivial.
"""
import hashlib
import json
import os
import signal
import subprocess
import sys
import tempfile
import time
import traceback
import shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')


class Violation(Exception):
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class StopRun(BaseException):
    """Time budget used up or another worker found a violation."""


class StopShrink(BaseException):
    pass


class sut:
    """Context: any Exception escaping code under test here is a violation."""

    def __init__(self, what, key=None):
        self.what = what
        self.key = key

    def __enter__(self):
        return self

    def __exit__(self, et, ev, tb):
        if et is None or not issubclass(et, Exception) or issubclass(et, Violation):
            return False
        if issubclass(et, MemoryError):
            return False
        last = traceback.extract_tb(tb)[-1]
        raise Violation('%s: unexpected %s: %s (at %s:%d)' % (
            self.what, et.__name__, str(ev)[:200], os.path.basename(last.filename), last.lineno),
            key=self.key) from ev


def check(cond, msg, key=None):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, key)


class Facet:
    def __init__(self, name, strategy, run, quick, thorough=None, corners=None, rule='', max_shards=None,
                 weight=1.0):
        self.name = name
        self.strategy = strategy          # callable ctx -> strategy, or strategy
        self.run = run
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 20
        self.corners = corners            # list or callable ctx -> list
        self.rule = rule
        self.max_shards = max_shards


class Ctx:
    """Per-worker context handed to facets."""

    def __init__(self, art, tier, scratch, env):
        self.art = art
        self.tier = tier
        self.scratch = scratch
        self.env = env
        self.cache = {}

    def get(self, key, fn):
        if key not in self.cache:
            self.cache[key] = fn()
        return self.cache[key]


def case_hash(facet, case):
    return hashlib.blake2b((facet + json.dumps(case, sort_keys=True)).encode(), digest_size=8).hexdigest()


def abbreviate(x, lim=400):
    s = json.dumps(x)
    return x if len(s) <= lim else s[:lim] + '... (%d chars)' % len(s)


# ----------------------------------------------------------------------------------------------
# worker

def load_known(prop):
    p = os.path.join(VERIF, 'known_findings.json')
    out = {}
    if os.path.exists(p):
        for e in json.load(open(p)).get('known', []):
            if e['property'] == prop:
                out[e['key']] = e
    return out


def worker_main(cfgpath):
    cfg = json.load(open(cfgpath))
    import importlib
    sys.setrecursionlimit(20000)
    mod = importlib.import_module('vp.props.' + cfg['prop'].lower())
    from hypothesis import given, settings, seed, HealthCheck, Phase
    shard, nshards, tier = cfg['shard'], cfg['nshards'], cfg['tier']
    out = cfg['out']
    deadline = cfg['deadline']
    stopfile = cfg['stopfile']
    ctx = Ctx(cfg['art'], tier, cfg['scratch'], cfg)
    known = load_known(cfg['prop'])
    res = {'facets': {}, 'violation': None, 'error': None, 'known': {}, 'timeout': False}
    curfd = os.open(os.path.join(out, 'cur.%d' % shard), os.O_RDWR | os.O_CREAT)
    isolate = cfg.get('isolate')
    state = {'last': 0.0}

    def record_cur(facet, case):
        b = json.dumps({'facet': facet, 'case': case, 't': time.time()}).encode()
        os.ftruncate(curfd, 0)
        os.pwrite(curfd, b, 0)

    def check_stop():
        now = time.time()
        if now - state['last'] > 0.5:
            state['last'] = now
            if now > deadline:
                res['timeout'] = True
                raise StopRun
            if not isolate and os.path.exists(stopfile):
                raise StopRun

    def exec_case(f, case):
        """Run one case; in isolate mode run it in a forked child so a crash is survivable."""
        if not isolate:
            return f.run(ctx, case)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                dn = os.open('/dev/null', os.O_WRONLY)
                os.dup2(dn, 2)
                try:
                    lab = f.run(ctx, case)
                    msg = {'ok': lab or []}
                except Violation as e:
                    msg = {'viol': str(e), 'key': e.key}
                os.write(w, json.dumps(msg).encode()[:60000])
            finally:
                os._exit(0)
        os.close(w)
        signal.alarm(0)
        t0 = time.time()
        data = b''
        import select
        while True:
            rl, _, _ = select.select([r], [], [], 1.0)
            if rl:
                b = os.read(r, 65536)
                if not b:
                    break
                data += b
            if time.time() - t0 > 60:
                os.kill(pid, signal.SIGKILL)
                break
        os.close(r)
        _, st = os.waitpid(pid, 0)
        if data:
            m = json.loads(data)
            if 'ok' in m:
                return m['ok']
            raise Violation(m['viol'], m['key'])
        raise Violation('the process running the code under test was killed (wait status %d) or hung' % st)

    def run_facet(f):
        st = {'evals': 0, 'nontrivial': set(), 'labels': {}, 'samples': [], 'known': 0}
        best = {'case': None, 'msg': None, 'size': None, 't': None}

        def one(case):
            check_stop()
            if best['t'] is not None and time.time() - best['t'] > cfg['shrink_s']:
                raise StopShrink
            record_cur(f.name, case)
            try:
                labels = exec_case(f, case) or []
            except Violation as e:
                if e.key is not None and e.key in known:
                    res['known'][e.key] = str(e)[:300]
                    st['known'] += 1
                    return
                sz = len(json.dumps(case))
                if best['case'] is None or sz <= best['size']:
                    best.update(case=case, msg=str(e), size=sz)
                if best['t'] is None:
                    best['t'] = time.time()
                raise
            if best['t'] is None:
                st['evals'] += 1
                for l in labels:
                    st['labels'][l] = st['labels'].get(l, 0) + 1
                if any(l.startswith('!') for l in labels):
                    st['nontrivial'].add(case_hash(f.name, case))
                    if len(st['nontrivial']) in (1, 12, 30, 100):
                        st['samples'].append(abbreviate(case))

        fin = lambda: dict(st, nontrivial=sorted(st['nontrivial']))
        stopped = False
        try:
            corners = f.corners(ctx) if callable(f.corners) else (f.corners or [])
            for i, c in enumerate(corners):
                if i % nshards == shard:
                    one(c)
            total = cfg['count'].get(f.name, f.quick if tier == 'quick' else f.thorough)
            total = int(total * cfg['scale']) if total else 0
            ns = min(nshards, f.max_shards or nshards)
            n = total // ns + (1 if shard < total % ns else 0) if shard < ns else 0
            if n > 0 and f.strategy is not None:
                strat = f.strategy(ctx) if callable(f.strategy) and not hasattr(f.strategy, 'example') else f.strategy

                @settings(max_examples=n, database=None, deadline=None,
                          suppress_health_check=list(HealthCheck), report_multiple_bugs=False,
                          print_blob=False,
                          phases=(Phase.generate, Phase.shrink))
                @seed(cfg['seed'] * 1000003 + shard * 7919 + int(hashlib.sha256(f.name.encode()).hexdigest()[:6], 16))
                @given(case=strat)
                def t(case):
                    one(case)
                t()
        except StopRun:
            stopped = True
        except StopShrink:
            pass
        except Violation:
            pass
        except Exception as e:
            if best['case'] is None:
                raise
            # Hypothesis complains (Flaky etc.) while shrinking: keep the recorded failure
        if best['case'] is not None:
            res['violation'] = {'facet': f.name, 'case': best['case'], 'msg': best['msg']}
            open(stopfile, 'w').close()
            stopped = True
        res['facets'][f.name] = fin()
        return stopped

    try:
        if hasattr(mod, 'setup_worker'):
            mod.setup_worker(ctx)
        fs = [f for f in mod.FACETS if not cfg['only'] or f.name in cfg['only']]
        # start each shard at a different facet so that a deadline does not starve the same one
        k = shard % len(fs)
        for f in fs[k:] + fs[:k]:
            t0 = time.time()
            stop = run_facet(f)
            res['facets'][f.name]['wall'] = time.time() - t0
            if stop:
                break
    except Exception:
        res['error'] = traceback.format_exc()
    tmp = os.path.join(out, 'res.%d.tmp' % shard)
    json.dump(res, open(tmp, 'w'))
    os.rename(tmp, os.path.join(out, 'res.%d' % shard))
    sys.stdout.flush()
    os._exit(0)


# ----------------------------------------------------------------------------------------------
# main

def worker_env(mod_env=None):
    e = dict(os.environ)
    e['PYTHONDONTWRITEBYTECODE'] = '1'
    e['PYTHONHASHSEED'] = '0'
    e['OPENBLAS_NUM_THREADS'] = '1'
    e['OMP_NUM_THREADS'] = '1'
    e['PYTHONPATH'] = VERIF
    if mod_env:
        e.update(mod_env)
    return e


def main(argv):
    import argparse
    import importlib
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--only', default='')
    ap.add_argument('--replay')
    ap.add_argument('--scale', type=float, default=1.0)
    ap.add_argument('--count', default='')
    ap.add_argument('--jobs', type=int, default=8)
    ap.add_argument('--verbose', action='store_true')
    a = ap.parse_args(argv)
    prop = a.prop
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='vp-%s-' % prop)
    rc = 2
    procs = []
    try:
        mod = importlib.import_module('vp.props.' + prop.lower())
        from vp.build import Builder, BuildError
        b = Builder(scratch)
        art = mod.build(b)
        art['scratch'] = scratch
        tb = time.time() - t0
        rc = _run(a, mod, prop, art, scratch, t0, tb, procs)
    except Exception:
        traceback.print_exc()
        print('CHECK-ERROR property=%s' % prop)
        rc = 2
    finally:
        for p in procs:
            if p.poll() is None:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
        shutil.rmtree(scratch, ignore_errors=True)
    return rc


def _spawn(cfg, scratch, mod, tag):
    cp = os.path.join(scratch, 'cfg.%s.json' % tag)
    json.dump(cfg, open(cp, 'w'))
    err = open(os.path.join(scratch, 'err.%s' % tag), 'w')
    env = worker_env(mod.worker_env(cfg['art']) if hasattr(mod, 'worker_env') else None)
    return subprocess.Popen([sys.executable, os.path.join(VERIF, 'run.py'), '--worker', cp], stdout=err, stderr=err,
                            stdin=subprocess.DEVNULL, env=env, start_new_session=True, cwd=scratch)


def _run(a, mod, prop, art, scratch, t0, tb, procs):
    tier = a.tier
    nsh = a.jobs
    out = os.path.join(scratch, 'out')
    os.mkdir(out)
    soft = getattr(mod, 'SOFT_QUICK', 300) if tier == 'quick' else getattr(mod, 'SOFT_THOROUGH', 3000)
    base = {'prop': prop, 'nshards': nsh, 'tier': tier, 'out': out, 'art': art, 'scratch': scratch,
            'deadline': time.time() + soft, 'stopfile': os.path.join(out, 'stop'), 'seed': a.seed,
            'only': [x for x in a.only.split(',') if x], 'scale': a.scale, 'shrink_s': 40 if tier == 'quick' else 90,
            'count': dict((k, int(v)) for k, v in (x.split('=') for x in a.count.split(',') if x))}
    if a.replay:
        return _replay(a, mod, prop, base, scratch, procs)
    hang_s = getattr(mod, 'HANG_S', 120)
    ws = {}
    for s in range(nsh):
        p = _spawn(dict(base, shard=s), scratch, mod, str(s))
        ws[s] = p
        procs.append(p)
    crashed = {}
    while ws:
        time.sleep(0.1)
        for s, p in list(ws.items()):
            if p.poll() is not None:
                del ws[s]
                if not os.path.exists(os.path.join(out, 'res.%d' % s)):
                    crashed[s] = 'crash (exit status %s)' % p.returncode
                    open(base['stopfile'], 'w').close()
                continue
            try:
                cf = os.path.join(out, 'cur.%d' % s)
                st = os.stat(cf)
                if st.st_size and time.time() - st.st_mtime > hang_s:
                    os.killpg(p.pid, signal.SIGKILL)
                    p.wait()
                    del ws[s]
                    if not os.path.exists(os.path.join(out, 'res.%d' % s)):
                        crashed[s] = 'hang (no progress for %d s)' % hang_s
                        open(base['stopfile'], 'w').close()
            except FileNotFoundError:
                if time.time() - t0 > soft + 200:
                    os.killpg(p.pid, signal.SIGKILL)
    agg = {}
    viol = []
    known_hits = {}
    errors = []
    timeout = False
    for s in range(nsh):
        rp = os.path.join(out, 'res.%d' % s)
        if not os.path.exists(rp):
            continue
        r = json.load(open(rp))
        timeout |= r['timeout']
        if r['error']:
            errors.append(r['error'])
        if r['violation']:
            viol.append(r['violation'])
        known_hits.update(r['known'])
        for n, f in r['facets'].items():
            g = agg.setdefault(n, {'evals': 0, 'nt': set(), 'labels': {}, 'samples': [], 'wall': 0, 'known': 0})
            g['evals'] += f['evals']
            g['known'] += f['known']
            g['nt'].update(f['nontrivial'])
            g['wall'] = max(g['wall'], f.get('wall', 0))
            for l, c in f['labels'].items():
                g['labels'][l] = g['labels'].get(l, 0) + c
            if len(g['samples']) < 2:
                g['samples'] += f['samples'][-1:]
    # crashes: confirm by replaying the recorded case in a fresh process, then shrink in isolate mode
    for s, how in sorted(crashed.items()):
        try:
            cur = json.load(open(os.path.join(out, 'cur.%d' % s)))
        except Exception:
            errors.append('worker %d %s before its first case:\n%s' % (
                s, how, open(os.path.join(scratch, 'err.%d' % s)).read()[-3000:]))
            continue
        if viol:
            break
        log = open(os.path.join(scratch, 'err.%d' % s)).read()
        v = _confirm(base, cur, scratch, mod, procs, hang_s)
        if v is None:
            errors.append('worker %d: %s, not reproduced by its last case\n%s' % (s, how, log[-3000:]))
            continue
        v['msg'] += '; ' + how
        tail = [l for l in log.splitlines() if 'ERROR' in l or 'runtime error' in l or 'SUMMARY' in l or 'VP-FAIL' in l]
        if tail:
            v['msg'] += '; ' + ' | '.join(tail[:4])[:600]
        sh = _shrink_crash(base, s, cur['facet'], scratch, mod, procs)
        if sh is not None and len(json.dumps(sh['case'])) < len(json.dumps(v['case'])):
            v['case'] = sh['case']
        viol.append(v)
        break
    if hasattr(mod, 'extra') and not viol and not errors:
        # property-specific campaigns run by the main process (libFuzzer etc.)
        ex = mod.extra(art, tier, a.seed, scratch, base)
        for n, g in ex.get('facets', {}).items():
            agg[n] = g
        viol += ex.get('violations', [])
    evals = sum(g['evals'] for g in agg.values())
    nt = sum(len(g['nt']) if isinstance(g['nt'], set) else g['nt'] for g in agg.values())
    wall = time.time() - t0
    rules = '; '.join('%s: %s' % (f.name, f.rule) for f in mod.FACETS if f.rule)
    if hasattr(mod, 'EXTRA_RULE'):
        rules += '; ' + mod.EXTRA_RULE
    samples = []
    for n, g in agg.items():
        for c in g['samples']:
            samples.append({'facet': n, 'case': c})
    ev = {'property': prop, 'tier': tier, 'seed': a.seed, 'level': 'exploration',
          'coverage': {'evaluations': evals, 'distinct_nontrivial': nt, 'rule': rules or 'see DESIGN.md',
                       'samples': samples[:24],
                       'facets': {n: {'evaluations': g['evals'],
                                      'distinct_nontrivial': len(g['nt']) if isinstance(g['nt'], set) else g['nt'],
                                      'known_finding_hits': g.get('known', 0),
                                      'wall_s': round(g.get('wall', 0), 2),
                                      'classes': dict(sorted(g['labels'].items()))} for n, g in agg.items()},
                       'build_s': round(tb, 2), 'time_budget_reached': timeout},
          'assumptions': getattr(mod, 'ASSUMPTIONS', []),
          'wall_s': round(wall, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    if not a.only:
        json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    if a.verbose:
        print(json.dumps(ev['coverage']['facets'], indent=1))
    for k, e in load_known(prop).items():
        if k in known_hits:
            print('KNOWN-FINDING: property=%s %s' % (prop, e['what']))
    if viol:
        v = viol[0]
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        h = case_hash(v['facet'], v['case'])
        rp = os.path.join(VERIF, 'replays', '%s-%s-%s.json' % (prop, v['facet'], h))
        json.dump({'property': prop, 'facet': v['facet'], 'case': v['case'], 'message': v['msg'],
                   'how': '/opt/venv/bin/python /verif/run.py %s --replay <this file>' % prop}, open(rp, 'w'), indent=1)
        print('facet %s: %s' % (v['facet'], v['msg']))
        print('case: %s' % json.dumps(abbreviate(v['case'], 1500)))
        print('VIOLATION property=%s replay=%s' % (prop, rp))
        return 1
    if errors:
        print('\n'.join(errors[:2]))
        print('CHECK-ERROR property=%s' % prop)
        return 2
    low = [n for n, g in agg.items() if g['evals'] == 0]
    print('OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs%s%s' % (
        prop, tier, a.seed, evals, nt, wall, ' (time budget reached)' if timeout else '',
        ' EMPTY:%s' % low if low else ''))
    return 0


def _confirm(base, cur, scratch, mod, procs, hang_s):
    """Replay one case alone in a fresh process; returns a violation dict or None."""
    cp = os.path.join(scratch, 'confirm.json')
    json.dump(cur, open(cp, 'w'))
    cfg = dict(base, shard=0, replay=cp)
    p = _spawn(cfg, scratch, mod, 'confirm')
    procs.append(p)
    try:
        r = p.wait(timeout=hang_s)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        return {'facet': cur['facet'], 'case': cur['case'], 'msg': 'does not terminate within %d s' % hang_s}
    if r == 0:
        return None
    txt = open(os.path.join(scratch, 'err.confirm')).read()
    if r == 1:
        return {'facet': cur['facet'], 'case': cur['case'], 'msg': txt.strip()[-600:]}
    if r == 2:
        return None
    return {'facet': cur['facet'], 'case': cur['case'], 'msg': 'the process running the code under test died (status %s)%s' % (
        r, ''.join('; ' + l.strip()[:200] for l in txt.splitlines() if 'ERROR' in l or 'runtime error' in l or 'VP-FAIL' in l)[:600])}


def _shrink_crash(base, s, facet, scratch, mod, procs):
    try:
        os.remove(base['stopfile'])
    except OSError:
        pass
    for n in ('res.%d' % s,):
        try:
            os.remove(os.path.join(base['out'], n))
        except OSError:
            pass
    cfg = dict(base, shard=s, isolate=True, only=[facet], deadline=time.time() + 120)
    p = _spawn(cfg, scratch, mod, 'shrink')
    procs.append(p)
    try:
        p.wait(timeout=150)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.wait()
        return None
    rp = os.path.join(base['out'], 'res.%d' % s)
    if os.path.exists(rp):
        return json.load(open(rp))['violation']
    return None


def _replay(a, mod, prop, base, scratch, procs):
    cur = json.load(open(a.replay))
    if hasattr(mod, 'replay_extra') and cur['facet'] in getattr(mod, 'EXTRA_FACETS', []):
        msg = mod.replay_extra(base['art'], cur)
        if msg:
            print(msg)
            print('VIOLATION property=%s replay=%s' % (prop, a.replay))
            return 1
        print('replay: property held on this case')
        return 0
    p = _spawn(dict(base, shard=0, replay=os.path.abspath(a.replay)), scratch, mod, 'replay')
    procs.append(p)
    try:
        r = p.wait(timeout=getattr(mod, 'HANG_S', 120) * 2)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        r = 'hang'
    print(open(os.path.join(scratch, 'err.replay')).read()[-4000:])
    if r == 0:
        print('replay: property held on this case')
        return 0
    if r == 2:
        return 2
    print('VIOLATION property=%s replay=%s' % (prop, a.replay))
    return 1


def replay_worker(cfg):
    import importlib
    sys.setrecursionlimit(20000)
    mod = importlib.import_module('vp.props.' + cfg['prop'].lower())
    ctx = Ctx(cfg['art'], cfg['tier'], cfg['scratch'], cfg)
    cur = json.load(open(cfg['replay']))
    known = load_known(cfg['prop'])
    try:
        if hasattr(mod, 'setup_worker'):
            mod.setup_worker(ctx)
        f = [f for f in mod.FACETS if f.name == cur['facet']][0]
        f.run(ctx, cur['case'])
    except Violation as e:
        if e.key in known:
            print('known finding: %s' % e)
            sys.stdout.flush()
            os._exit(0)
        print(e)
        sys.stdout.flush()
        os._exit(1)
    except Exception:
        traceback.print_exc()
        sys.stderr.flush()
        os._exit(2)
    sys.stdout.flush()
    os._exit(0)
