"""Compile the contracts of /repo to a shared library and run them."""
import ctypes
import os
import subprocess

from eth_abi import decode, encode

from . import gen

HERE = os.path.dirname(os.path.abspath(__file__))
ST = {0: "ok", 1: "revert", 2: "invalid", 3: "out of gas", 4: "unsupported"}

SRC = ["src/ZKNOX_falcon.sol", "src/ZKNOX_ethfalcon.sol", "src/ZKNOX_epervier.sol", "src/ZKNOX_ethepervier.sol",
       "src/ZKNOX_NTT.sol", "src/ZKNOX_falcon_deploy.sol", "src/ZKNOX_falcon_encodings.sol", "src/ZKNOX_common.sol",
       "src/ZKNOX_shake.sol", "src/ZKNOX_HashToPoint.sol", "src/ZKNOX_falcon_core.sol", "src/ZKNOX_NTT_falcon.sol",
       "src/ZKNOX_falcon_utils.sol", "external/ETHFalcon_Recursive.sol", "external/NTT_Recursive.sol"]


class NoAnswer(Exception):
    """the code uses something the translator does not support"""


def compile_sol(repo, out, roots, opt="-O1", extra=None):
    p = gen.Program(repo, extra)
    c = p.build([r for r in roots if os.path.exists(os.path.join(repo, r)) or r in p.overlay])
    src = out + ".c"
    with open(src, "w") as f:
        f.write(c)
    r = subprocess.run(["clang", opt, "-w", "-std=c2x", "-fPIC", "-shared", "-fno-strict-aliasing", "-I", HERE,
                        "-o", out, src], capture_output=True, text=True)
    if r.returncode:
        raise NoAnswer("C compiler: " + r.stderr[:2000])
    return p.notes


class Res:
    __slots__ = ("st", "data")

    def __init__(self, st, data):
        self.st, self.data = st, data

    @property
    def ok(self):
        return self.st == 0

    def error(self):
        if self.st == 1:
            d = self.data
            if d[:4] == bytes.fromhex("08c379a0"):
                try:
                    return "revert(%s)" % decode(["string"], d[4:])[0]
                except Exception:
                    pass
            if d[:4] == bytes.fromhex("4e487b71"):
                return "panic 0x%02x" % d[35]
            return "revert 0x" + d.hex()[:80]
        return ST[self.st]

    def __repr__(self):
        return "<%s %s>" % (ST[self.st], self.error() if self.st else self.data.hex()[:80])


def split_types(sig):
    """argument types of 'f(uint256[],(bytes,uint256))'"""
    s = sig[sig.index("(") + 1:sig.rindex(")")]
    out, d, cur = [], 0, ""
    for ch in s:
        if ch == "," and d == 0:
            out.append(cur)
            cur = ""
            continue
        d += ch == "("
        d -= ch == ")"
        cur += ch
    if cur:
        out.append(cur)
    return out


class VM:
    def __init__(self, so):
        self.d = ctypes.CDLL(so)
        d = self.d
        d.vm_contract.restype = ctypes.c_char_p
        d.vm_hookname.restype = ctypes.c_char_p
        d.vm_unsupported.restype = ctypes.c_char_p
        self.contracts = {}
        for i in range(d.vm_ncontracts()):
            self.contracts[d.vm_contract(i).decode()] = i
        self.hooks = {}
        for i in range(d.vm_nhooks()):
            self.hooks[d.vm_hookname(i).decode()] = i
        from vp.model import keccak256
        self.kec = keccak256
        self.sels = {}

    def _res(self, st, out, n):
        data = ctypes.string_at(out, n.value) if n.value else b""
        if st == 4:
            raise NoAnswer(self.d.vm_unsupported().decode())
        return Res(st, data)

    def _go(self, f, *a):
        out = ctypes.c_void_p()
        n = ctypes.c_uint64()
        st = f(*a, ctypes.byref(out), ctypes.byref(n))
        return self._res(st, out, n)

    def deploy(self, name, types=(), args=()):
        enc = encode(list(types), list(args)) if types else b""
        addr = ctypes.create_string_buffer(32)
        r = self._go(self.d.vm_deploy, self.contracts[name], enc, ctypes.c_uint64(len(enc)), addr)
        if not r.ok:
            raise RuntimeError("deployment of %s failed: %r" % (name, r))
        return addr.raw

    def raw(self, addr, data):
        return self._go(self.d.vm_call, addr, data, ctypes.c_uint64(len(data)))

    def sel(self, sig):
        if sig not in self.sels:
            self.sels[sig] = self.kec(sig.encode())[:4]
        return self.sels[sig]

    def call(self, addr, sig, *args):
        return self.raw(addr, self.sel(sig) + encode(split_types(sig), list(args)))

    def find(self, name):
        """hook by exact name or by unique suffix after ':' or '.'"""
        if name in self.hooks:
            return self.hooks[name]
        c = [v for k, v in self.hooks.items() if k.endswith(":" + name)] or \
            [v for k, v in self.hooks.items() if k.endswith("." + name)]
        if not c:
            raise NoAnswer("function %s is gone" % name)
        return c[0]

    def hook(self, name, *args, addr=None):
        """free or internal function with ABI arguments"""
        k = self.find(name)
        data = b"\0\0\0\0" + encode(split_types(name), list(args))
        return self._go(self.d.vm_hook, k, addr or b"\0" * 31 + b"\x77", data, ctypes.c_uint64(len(data)))

    def hookraw(self, name, data, addr=None):
        k = self.find(name)
        data = b"\0\0\0\0" + data
        return self._go(self.d.vm_hook, k, addr or b"\0" * 31 + b"\x77", data, ctypes.c_uint64(len(data)))

    def snapshot(self):
        j, na = ctypes.c_uint64(), ctypes.c_int()
        self.d.vm_snapshot(ctypes.byref(j), ctypes.byref(na))
        return j, na

    def rollback(self, s):
        self.d.vm_rollback(s[0], s[1])

    def setcode(self, addr, code):
        self.d.vm_setcode(addr, code, ctypes.c_uint64(len(code)))


def dec(types, r):
    return decode(list(types), r.data)
