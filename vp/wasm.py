"""The C sources built for WebAssembly, and node as the machine that runs modules."""
import glob
import os
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor
from .build import sh, BuildError
from .core import REPO, VERIF
from .gobind import Driver

EXPORTS = ['zknox_crypto_sign_keypair', 'zknox_crypto_sign_keypair_from_seed', 'zknox_crypto_sign', 'zknox_crypto_sign_open', 'malloc', 'free', 'vp_reset']


def build_wasm(b):
    """what 'make js' compiles, with clang in place of emcc; None when that does not work here"""
    w = os.path.join(b.scratch, 'wasm')
    os.makedirs(w)
    src = os.path.join(REPO, 'falcon', 'nistfalcon', 'src')
    inc = os.path.join(VERIF, 'c', 'wasm')
    shutil.copy(os.path.join(inc, 'mini.c.txt'), os.path.join(w, 'mini.c'))
    fl = ['clang', '--target=wasm32', '-O2', '-w', '-fno-builtin', '-ffunction-sections', '-I', inc, '-I', src, '-c']
    objs = [(p, os.path.join(w, os.path.basename(p) + '.o')) for p in sorted(glob.glob(os.path.join(src, '*.c')))] + [(os.path.join(w, 'mini.c'), os.path.join(w, 'mini.o'))]
    o = os.path.join(w, 'module.wasm')
    try:
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(lambda x: sh(fl + [x[0], '-o', x[1]]), objs))
        sh(['wasm-ld', '--no-entry', '--gc-sections', '--allow-undefined', '-z', 'stack-size=1048576', *['--export=' + e for e in EXPORTS], *[x[1] for x in objs], '-o', o])
    except BuildError as e:
        if os.environ.get('VP_WASM_STRICT'):
            raise
        return None
    return o


class Node(Driver):
    def __init__(self, module, scratch):
        super().__init__(module, scratch)
        self.err = self.err.replace('go-', 'node-') + os.path.basename(module)

    def start(self):
        self.p = subprocess.Popen(['node', os.path.join(VERIF, 'vp', 'js', 'driver.js'), self.path], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=open(self.err, 'wb'))
