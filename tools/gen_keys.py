"""One-off: generate the corpus of keys for every degree (vp/data/keys.json) with the C key generator."""
import sys, os, json, ctypes as C
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
from vp.build import Builder
from vp.clib import Lib
from vp.gen import ubytes
from vp import model as M
import inspect
from vp import build as B
import tempfile
b = Builder(tempfile.mkdtemp()) if len(inspect.signature(Builder).parameters) else Builder()
L = Lib(b.clib('nist')['nist'])
out = {}
for logn in range(1, 11):
    n = 1 << logn
    cnt = 12 if logn == 9 else 6 if logn >= 8 else 16
    ks = []
    for i in range(cnt):
        sc = C.create_string_buffer(L.d.vp_sizeof_shake())
        L.d.vp_shake_init(sc); s = ubytes('corpus%d' % logn, i, 40)
        L.d.vp_shake_inject(sc, s, C.c_size_t(40)); L.d.vp_shake_flip(sc)
        f, g, F, G = [(C.c_int8 * n)() for _ in range(4)]
        h = (C.c_uint16 * n)()
        tmp = (C.c_uint64 * ((28 << 10) // 8 + 9))()
        L.z('keygen')(sc, f, g, F, G, h, logn, tmp)
        k = [list(x) for x in (f, g, F, G)]
        eq = M.negmul(k[0], k[3]) - M.negmul(k[1], k[2])
        assert eq[0] == M.Q and not eq[1:].any()
        ks.append(k)
    out[n] = ks
json.dump(out, open(os.path.join(os.path.dirname(__file__), '..', 'vp', 'data', 'keys.json'), 'w'), separators=(',', ':'))
