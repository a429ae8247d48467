#!/opt/venv/bin/python
"""setup: makes sure the tools the checks rely on are present (nothing is generated)."""
import os, shutil, sys
sys.dont_write_bytecode = True
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import hypothesis, numpy  # noqa
from Crypto.Hash import keccak  # noqa
from vp import model as M
assert M.keccak256(b'').hex().startswith('c5d24601')
a = [(i * i * 7 + 3) % M.Q for i in range(512)]
b = [(i * 31 + 11) % M.Q for i in range(512)]
assert list(M.intt(M.ntt(a) * M.ntt(b) % M.Q)) == list(M.mulq(a, b))
for t in ('gcc', 'clang'):
    assert shutil.which(t), t
os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
print('setup ok')
