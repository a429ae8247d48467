"""Builds artifacts from /repo's current working tree into the run's scratch directory."""
import glob
import os
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor

from .core import REPO, VERIF

ETH_FILES = {'nist.c', 'nist16.c', 'sign.c'}     # the files the Makefile compiles with -DETHFALCON


class BuildError(Exception):
    pass


def sh(cmd, **kw):
    r = subprocess.run(cmd, capture_output=True, text=True, **kw)
    if r.returncode != 0:
        raise BuildError('command failed: %s\n%s' % (' '.join(cmd) if isinstance(cmd, list) else cmd,
                                                    (r.stdout + r.stderr)[-4000:]))
    return r.stdout


class Builder:
    def __init__(self, scratch):
        self.scratch = scratch
        self.src = os.path.join(REPO, 'falcon', 'nistfalcon', 'src')

    def clib(self, *variants, extra=()):
        """Shared libraries; variants from {'nist','eth'}. Returns {variant: path}."""
        return self._c(variants, 'gcc', ['-fPIC', '-O2', *extra], ['-shared'], [os.path.join(VERIF, 'c', 'shim.c')], 'std', '.so')

    def fuzz(self, variants, kind):
        """c/fuzz_c04.c: kind 'asanlib' (shared library), 'asan' or 'msan' (libFuzzer binaries)."""
        san = {'asanlib': 'address,undefined', 'asan': 'address,undefined', 'msan': 'memory'}[kind]
        fl = ['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=' + san, '-fno-sanitize-recover=all',
              '-fno-sanitize=shift,alignment']
        if kind == 'msan':
            fl.append('-DVP_MSAN')
        if kind == 'asanlib':
            fl += ['-fPIC', '-shared-libsan']
            ln = ['-shared', '-fsanitize=' + san, '-shared-libsan']
        else:
            fl.append('-fsanitize=fuzzer-no-link')
            ln = ['-fsanitize=fuzzer,' + san]
        ex = [os.path.join(VERIF, 'c', x) for x in ('shim.c', 'fuzz_c04.c')]
        return self._c(variants, 'clang', fl, ln, ex, kind, '.so' if kind == 'asanlib' else '')

    def trace(self, flags):
        """the library with every branch and memory access reported to c/ct.c"""
        o = os.path.join(self.scratch, 'ct.o')
        sh(['clang', '-c', '-O2', '-fPIC', '-w', '-o', o, os.path.join(VERIF, 'c', 'ct.c')])
        return self._c(('nist',), 'clang', flags, ['-shared', o, '-ldl'], [os.path.join(VERIF, 'c', 'shim.c')], 'ct', '.so')['nist']

    def _c(self, variants, cc, flags, link, extra_src, tag, suffix):
        jobs = []
        outs = {}
        flags = ['-g0', '-DALGNAME=falcon512int', '-w', '-I', self.src, *flags]
        od = os.path.join(self.scratch, 'obj-' + tag)
        os.makedirs(od, exist_ok=True)
        srcs = sorted(p for p in glob.glob(os.path.join(self.src, '*.c')) if os.path.basename(p) != 'katrng.c') + extra_src
        for p in srcs:
            b = os.path.basename(p)
            jobs.append((p, os.path.join(od, b + '.o'), []))
            if b in ETH_FILES and 'eth' in variants:
                jobs.append((p, os.path.join(od, b + '.eth.o'), ['-DETHFALCON']))

        def comp(j):
            sh([cc, '-c', *flags, *j[2], '-o', j[1], j[0]])
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(comp, jobs))
        for v in variants:
            objs = []
            for p in srcs:
                b = os.path.basename(p)
                objs.append(os.path.join(od, b + ('.eth.o' if v == 'eth' and b in ETH_FILES else '.o')))
            o = os.path.join(self.scratch, 'lib%s-%s%s' % (v, tag, suffix))
            sh([cc, *link, '-o', o, *objs])
            outs[v] = o
        return outs

    def fakexof(self):
        """library whose hash-to-point functions read a stream given by the check"""
        d = os.path.join(self.scratch, 'fake')
        os.makedirs(d, exist_ok=True)
        objs = []
        for p in sorted(glob.glob(os.path.join(self.src, '*.c'))):
            if os.path.basename(p) == 'katrng.c':
                continue
            o = os.path.join(d, os.path.basename(p) + '.o')
            sh(['gcc', '-c', '-fPIC', '-O2', '-w', '-DALGNAME=falcon512int', '-I', self.src, '-o', o, p])
            syms = sh(['nm', '-g', o])
            if ' T falcon_inner_hash_to_point_vartime' in syms:
                t = sh(['nm', '-u', o])
                if 'i_shake256_extract' in t and 'keccak256_extract' in t:
                    ks = [x.split()[-1] for x in t.splitlines() if x.split()[-1].endswith('keccak256_extract')]
                    ss = [x.split()[-1] for x in t.splitlines() if x.split()[-1].endswith('shake256_extract')]
                    sh(['objcopy'] + ['--redefine-sym=%s=vp_fake_keccak' % x for x in ks] + ['--redefine-sym=%s=vp_fake_shake' % x for x in ss] + [o])
            if ' T falcon_inner_keygen' in syms:
                ss = [x.split()[-1] for x in sh(['nm', '-u', o]).splitlines() if x.split()[-1].endswith('shake256_extract')]
                sh(['objcopy'] + ['--redefine-sym=%s=vp_fake_stream' % x for x in ss] + [o])
            objs.append(o)
        o = os.path.join(d, 'libfake.so')
        sh(['gcc', '-shared', '-fPIC', '-O2', '-w', '-I', self.src, '-o', o, *objs,
            os.path.join(VERIF, 'c', 'fakexof.c'), os.path.join(VERIF, 'c', 'shim.c')])
        return o

    def poke(self):
        """c/poke.c as a library, or None when the structure it looks into has changed"""
        o = os.path.join(self.scratch, 'libpoke.so')
        try:
            sh(['gcc', '-shared', '-fPIC', '-O2', '-Werror', '-I', self.src, '-o', o, os.path.join(VERIF, 'c', 'poke.c')])
        except BuildError:
            return None
        return o

    def katrng(self):
        o = os.path.join(self.scratch, 'libkatrng.so')
        sh(['gcc', '-shared', '-fPIC', '-O2', '-w', '-I', self.src, '-o', o, os.path.join(self.src, 'katrng.c')])
        return o
