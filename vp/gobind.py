"""Building and driving Go code: the binding in /repo/falcon."""
import os
import shutil
import struct
import subprocess
from concurrent.futures import ThreadPoolExecutor
from .build import sh, BuildError
from .core import REPO, VERIF, Violation


def env(b):
    e = dict(os.environ)
    e.update(GOPROXY='off', GOTOOLCHAIN='local', GOFLAGS='-mod=mod', GOCACHE=os.path.join(b.scratch, 'gocache'), GOPATH=os.path.join(b.scratch, 'gopath'),
             CGO_ENABLED='1', HOME=b.scratch, GOTELEMETRY='off')
    return e


def falcon_tree(b, where, asan):
    """copy of /repo/falcon with a library built from its sources, as the makefile builds it"""
    d = os.path.join(where, 'falcon')
    shutil.copytree(os.path.join(REPO, 'falcon'), d, ignore=shutil.ignore_patterns('*.o', '*.a', 'node_modules', '*.rsp', '*.req'))
    src, bd = os.path.join(d, 'nistfalcon', 'src'), os.path.join(d, 'nistfalcon', 'build')
    shutil.rmtree(bd, ignore_errors=True)
    os.makedirs(bd)
    fl = ['-O1', '-g', '-fsanitize=address', '-fno-omit-frame-pointer'] if asan else ['-O3']
    srcs = sorted(x for x in os.listdir(src) if x.endswith('.c'))
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda x: sh(['gcc', '-c', '-fPIC', '-w', '-DALGNAME=falcon512int', *fl, '-o', os.path.join(bd, x + '.o'), os.path.join(src, x)]), srcs))
    sh(['ar', 'rcs', os.path.join(bd, 'libfalcon.a')] + [os.path.join(bd, x + '.o') for x in srcs])
    return d


def build_driver(b, asan=True):
    w = os.path.join(b.scratch, 'go-asan' if asan else 'go')
    os.makedirs(w)
    falcon_tree(b, w, asan)
    drv = os.path.join(w, 'drv')
    os.makedirs(drv)
    shutil.copy(os.path.join(VERIF, 'vp', 'go', 'binding.go.txt'), os.path.join(drv, 'main.go'))
    with open(os.path.join(drv, 'go.mod'), 'w') as f:
        f.write('module drv\n\ngo 1.24.2\n\nrequire github.com/ZKNoxHQ/ETHFALCON/falcon v0.0.0\n\nreplace github.com/ZKNoxHQ/ETHFALCON/falcon => ../falcon\n')
    o = os.path.join(w, 'drv.bin')
    sh(['go', 'build', *(['-asan'] if asan else []), '-o', o, '.'], cwd=drv, env=env(b))
    return o


def build_precompile(b, asan=True):
    """/repo/geth/contracts.go as package vm, with stand-ins for the rest of go-ethereum"""
    w = os.path.join(b.scratch, 'geth')
    os.makedirs(w)
    falcon_tree(b, w, asan)
    f = None
    for l in open(os.path.join(VERIF, 'vp', 'go', 'geth', 'files.txt')):
        if l.startswith('== '):
            n = os.path.join(w, l[3:].strip())
            os.makedirs(os.path.dirname(n), exist_ok=True)
            f = open(n, 'w')
        else:
            f.write(l)
    f.close()
    for n in sorted(os.listdir(os.path.join(REPO, 'geth'))):
        if n.endswith('.go'):
            shutil.copy(os.path.join(REPO, 'geth', n), os.path.join(w, 'eth', 'core', 'vm', n))
    drv = os.path.join(w, 'drv')
    os.makedirs(drv)
    shutil.copy(os.path.join(VERIF, 'vp', 'go', 'precompile.go.txt'), os.path.join(drv, 'main.go'))
    mods = {'github.com/ZKNoxHQ/ETHFALCON/falcon': 'falcon', 'github.com/ethereum/go-ethereum': 'eth', 'github.com/consensys/gnark-crypto': 'gnark', 'golang.org/x/crypto': 'xcrypto'}
    with open(os.path.join(drv, 'go.mod'), 'w') as f:
        f.write('module drv\n\ngo 1.24.2\n\n' + ''.join('require %s v0.0.0\nreplace %s => ../%s\n' % (m, m, d) for m, d in mods.items()))
    o = os.path.join(w, 'drv.bin')
    sh(['go', 'build', *(['-asan'] if asan else []), '-o', o, '.'], cwd=drv, env=env(b))
    return o


class Died(Exception):
    pass


class Driver:
    def __init__(self, path, scratch):
        self.path = path
        self.err = os.path.join(scratch, 'go-stderr-%d' % os.getpid())
        self.p = None

    def start(self):
        e = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:symbolize=0:detect_stack_use_after_return=0', GOTRACEBACK='none')
        self.p = subprocess.Popen([self.path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=open(self.err, 'wb'), env=e)

    def stop(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p = None

    def read(self, n):
        b = b''
        while len(b) < n:
            x = self.p.stdout.read(n - len(b))
            if not x:
                rc = self.p.wait()
                msg = [l for l in open(self.err, errors='replace').read().splitlines() if l.strip()]
                self.p = None
                why = next((l for l in msg if 'ERROR:' in l or l.startswith(('fatal', 'panic', 'SIG', 'unexpected'))), msg[0] if msg else '')
                raise Died('process died (status %s): %s' % (rc, why[:200]))
            b += x
        return b

    def blob(self):
        return self.read(struct.unpack('<i', self.read(4))[0])

    def send(self, op, *args):
        if self.p is None:
            self.start()
        b = op + b''.join(struct.pack('<i', -1) if a is None else struct.pack('<i', len(a)) + a for a in args)
        try:
            self.p.stdin.write(b)
            self.p.stdin.flush()
        except BrokenPipeError:
            pass

    def __call__(self, op, *args):
        """(status, a, b): 0 value, 1 error, 2 panic, 3 arguments changed"""
        self.send(op, *args)
        st = self.read(1)[0]
        return st, self.blob(), self.blob()
