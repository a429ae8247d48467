"""Translate a set of Solidity files to one C file.

Only the semantics matter: names, layout of source and statement forms are
free. Anything outside the supported language becomes a stub that reports
"unsupported" when it is reached, never a guess."""
import os
from fractions import Fraction

from . import parse
from .parse import N, SolError

STUBS = {
    "forge-std/Test.sol": None,
    "InterfaceVerifier/IVerifier.sol": """
interface ISigVerifier {
    function setKey(bytes memory pubkey) external returns (bytes memory);
    function verify(bytes calldata pubkey, bytes32 digest, bytes calldata sig) external view returns (bytes4);
}
""",
}
TEST_STUB = """
library console { }
library vm { }
abstract contract Test {
    function assertTrue(bool a) internal pure { require(a, "assertTrue"); }
    function assertTrue(bool a, string memory m) internal pure { require(a, m); }
    function assertFalse(bool a) internal pure { require(!a, "assertFalse"); }
    function assertEq(uint256 a, uint256 b) internal pure { require(a == b, "assertEq"); }
    function assertEq(uint256 a, uint256 b, string memory m) internal pure { require(a == b, m); }
    function assertEq(bytes32 a, bytes32 b) internal pure { require(a == b, "assertEq"); }
    function assertEq(bool a, bool b) internal pure { require(a == b, "assertEq"); }
    function assertEq(address a, address b) internal pure { require(a == b, "assertEq"); }
    function assertEq(bytes memory a, bytes memory b) internal pure { require(keccak256(a) == keccak256(b), "assertEq"); }
}
"""


class Unsupported(Exception):
    pass


class Ty:
    __slots__ = ("k", "n", "base", "loc", "ref", "x")

    def __init__(self, k, n=None, base=None, loc=None, ref=None, x=None):
        self.k, self.n, self.base, self.loc, self.ref, self.x = k, n, base, loc, ref, x

    def key(self):
        if self.k == "array":
            return ("array", self.n, self.base.key())
        if self.k in ("struct", "contract", "enum"):
            return (self.k, id(self.ref))
        if self.k == "mapping":
            return ("mapping", self.x.key(), self.base.key())
        if self.k == "tuple":
            return ("tuple",) + tuple(t.key() if t else None for t in self.x)
        return (self.k, self.n)

    def same(self, o):
        return self.key() == o.key()

    def isref(self):
        return self.k in ("array", "struct", "bytes", "string", "mapping")

    def at(self, loc):
        if not self.isref() or self.k == "mapping":
            return self
        return Ty(self.k, self.n, self.base.at(loc) if self.base else None, loc, self.ref, self.x)

    def __repr__(self):
        return "%s%s%s%s" % (self.k, "" if self.n is None else self.n, "<%r>" % self.base if self.base else "",
                             "@" + self.loc if self.loc else "")


U256 = Ty("uint", 256)
BOOL = Ty("bool")
ADDR = Ty("address")
BYTES = Ty("bytes", loc="memory")
STRING = Ty("string", loc="memory")
B32 = Ty("bytesN", 32)


def lit(v):
    return Ty("lit", v)


def elem_type(name):
    if name == "uint":
        return Ty("uint", 256)
    if name == "int":
        return Ty("int", 256)
    if name.startswith("uint"):
        return Ty("uint", int(name[4:]))
    if name.startswith("int"):
        return Ty("int", int(name[3:]))
    if name == "bytes":
        return Ty("bytes")
    if name == "byte":
        return Ty("bytesN", 1)
    if name.startswith("bytes"):
        return Ty("bytesN", int(name[5:]))
    return Ty(name)


class V:
    __slots__ = ("ty", "c", "lv")

    def __init__(self, ty, c=(), lv=None):
        self.ty = ty
        self.c = [c] if isinstance(c, str) else list(c)
        self.lv = lv

    @property
    def e(self):
        return self.c[0]


class File:
    def __init__(self, path):
        self.path = path
        self.syms = {}
        self.own = {}
        self.imports = []
        self.usings = []


class CDef:
    def __init__(self, node, file):
        self.node, self.file = node, file
        self.name = node.name
        self.kind = node.kind
        self.funcs = []
        self.vars = []
        self.types = {}
        self.mods = {}
        self.ctor = None
        self.errors = {}
        self.usings = []
        self.lin = None
        self.fallback = None
        self.receive = None


class FDef:
    def __init__(self, node, file, contract):
        self.node, self.file, self.contract = node, file, contract
        self.name = node.name
        self._sig = None


class VarDef:
    def __init__(self, node, file, contract):
        self.node, self.file, self.contract = node, file, contract
        self.name = node.name


class SDef:
    def __init__(self, node, file, contract):
        self.node, self.file, self.contract = node, file, contract
        self.name = node.name
        self.members = None


def clit(v):
    v &= (1 << 256) - 1
    if v < (1 << 64):
        return "((W)0x%xULL)" % v
    return "((W)0x%xuwb)" % v


def bits_needed(v):
    if v >= 0:
        return max(8, (v.bit_length() + 7) // 8 * 8)
    return max(8, ((-v - 1).bit_length() + 1 + 7) // 8 * 8)


class Program:
    def __init__(self, root, overlay=None):
        self.root = root
        self.files = {}
        self.overlay = overlay or {}
        self.contracts = []
        self.out = []          # function bodies
        self.protos = []
        self.tds = {}
        self.tdout = []
        self.tabs = []
        self.done = {}
        self.queue = []
        self.uid = 0
        self.hooks = []
        self.notes = []

    # ---- loading ----
    def resolve_import(self, frm, path):
        for k in STUBS:
            if path.endswith(k):
                return k
        if path.endswith("forge-std/src/Script.sol") or path.endswith("forge-std/Script.sol"):
            return "forge-std/Test.sol"
        if path.startswith("."):
            return os.path.normpath(os.path.join(os.path.dirname(frm), path))
        if path.startswith("sstore2/"):
            return os.path.normpath("lib/sstore2/contracts/" + path[8:])
        for pre in ("", "src/", "lib/"):
            if os.path.exists(os.path.join(self.root, pre + path)):
                return os.path.normpath(pre + path)
        raise SolError("%s: cannot find import %r" % (frm, path))

    def load(self, path):
        if path in self.files:
            return self.files[path]
        f = File(path)
        self.files[path] = f
        if path in STUBS:
            src = STUBS[path] if STUBS[path] is not None else TEST_STUB
        elif path in self.overlay:
            src = self.overlay[path]
        else:
            with open(os.path.join(self.root, path), encoding="utf-8") as h:
                src = h.read()
        units = parse.parse(src, path)
        for u in units:
            if u.k == "import":
                f.imports.append((u, self.load(self.resolve_import(path, u.path))))
        for u in units:
            if u.k == "contract":
                c = CDef(u, f)
                f.own[u.name] = [("contract", c)]
                self.contracts.append(c)
                self.fill(c)
            elif u.k == "function":
                f.own.setdefault(u.name, []).append(("func", FDef(u, f, None)))
            elif u.k == "statevar":
                f.own[u.name] = [("const", VarDef(u, f, None))]
            elif u.k == "struct":
                f.own[u.name] = [("struct", SDef(u, f, None))]
            elif u.k == "enum":
                f.own[u.name] = [("enum", SDef(u, f, None))]
            elif u.k == "error":
                f.own[u.name] = [("error", SDef(u, f, None))]
            elif u.k == "udvt":
                f.own[u.name] = [("udvt", SDef(u, f, None))]
            elif u.k == "event":
                f.own[u.name] = [("event", SDef(u, f, None))]
            elif u.k == "using":
                f.usings.append(u)
        return f

    def fill(self, c):
        for m in c.node.items:
            if m.k == "function":
                fd = FDef(m, c.file, c)
                if m.kind == "constructor":
                    c.ctor = fd
                elif m.kind == "fallback":
                    c.fallback = fd
                elif m.kind == "receive":
                    c.receive = fd
                else:
                    c.funcs.append(fd)
            elif m.k == "statevar":
                c.vars.append(VarDef(m, c.file, c))
            elif m.k in ("struct", "enum", "udvt"):
                c.types[m.name] = (m.k, SDef(m, c.file, c))
            elif m.k == "error":
                c.errors[m.name] = SDef(m, c.file, c)
            elif m.k == "event":
                c.errors.setdefault(m.name, SDef(m, c.file, c))
            elif m.k == "modifier":
                c.mods[m.name] = FDef(m, c.file, c)
            elif m.k == "using":
                c.usings.append(m)

    def link(self):
        """Compute visible symbols of every file."""
        def exported(f, seen):
            if f.path in seen:
                return {}
            seen = seen | {f.path}
            d = dict(f.own)
            for u, g in f.imports:
                if u.alias:
                    d.setdefault(u.alias, [("module", g)])
                elif u.names is not None:
                    e = exported(g, seen)
                    for a, b in u.names:
                        if a in e:
                            d.setdefault(b, e[a])
                else:
                    for k, v in exported(g, seen).items():
                        if k not in d:
                            d[k] = v
                        elif v and d[k] is not v and v[0][0] == "func" and d[k][0][0] == "func":
                            d[k] = d[k] + [x for x in v if x not in d[k]]
            return d
        for f in self.files.values():
            f.syms = exported(f, frozenset())
        for c in self.contracts:
            self.linear(c)

    def linear(self, c):
        if c.lin is not None:
            return c.lin
        bases = []
        for p, _a in c.node.bases:
            e = self.path_entity(p, c.file, None)
            if not e or e[0][0] != "contract":
                raise SolError("%s: unknown base %s" % (c.name, ".".join(p)))
            bases.append(e[0][1])
        seqs = [list(self.linear(b)) for b in reversed(bases)] + [list(reversed(bases))]
        out = [c]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                h = s[0]
                if not any(h in t[1:] for t in seqs):
                    break
            else:
                raise SolError("linearisation of %s" % c.name)
            out.append(h)
            seqs = [[x for x in t if x is not h] for t in seqs]
            seqs = [s for s in seqs if s]
        c.lin = out
        return out

    # ---- entities ----
    def path_entity(self, path, file, contract):
        e = None
        if contract is not None:
            for c in self.linear(contract):
                if path[0] in c.types:
                    e = [c.types[path[0]]]
                    break
                if path[0] in c.errors:
                    e = [("error", c.errors[path[0]])]
                    break
        if e is None:
            e = file.syms.get(path[0])
        for p in path[1:]:
            if not e:
                return None
            k, d = e[0]
            if k == "module":
                e = d.syms.get(p)
            elif k == "contract":
                e = None
                for c in self.linear(d):
                    if p in c.types:
                        e = [c.types[p]]
                        break
                    if p in c.errors:
                        e = [("error", c.errors[p])]
                        break
            else:
                return None
        return e

    def type(self, t, file, contract, loc=None):
        if t.k == "telem":
            ty = elem_type(t.name)
            return ty.at(loc) if loc else ty
        if t.k == "tmap":
            return Ty("mapping", base=self.type(t.val, file, contract, "storage"), x=self.type(t.key, file, contract),
                      loc="storage")
        if t.k == "tarr":
            n = None
            if t.len is not None:
                n = self.ceval(t.len, file, contract)
            b = self.type(t.base, file, contract, loc)
            return Ty("array", n, b, loc)
        if t.k == "tuser":
            e = self.path_entity(t.path, file, contract)
            if not e:
                raise Unsupported("unknown type %s" % ".".join(t.path))
            k, d = e[0]
            if k == "struct":
                return Ty("struct", loc=loc, ref=d)
            if k == "contract":
                return Ty("contract", ref=d)
            if k == "enum":
                return Ty("enum", ref=d)
            if k == "udvt":
                return self.type(d.node.ty, d.file, d.contract)
            raise Unsupported("%s is not a type" % ".".join(t.path))
        raise Unsupported("type")

    def members(self, s, loc):
        if s.members is None:
            s.members = [(m, self.type(t, s.file, s.contract, "memory")) for m, t in s.node.members]
        return [(m, t.at(loc)) for m, t in s.members]

    # ---- constants ----
    def ceval(self, e, file, contract):
        k = e.k
        if k == "num":
            return e.v
        if k == "bool":
            return int(e.v)
        if k == "paren":
            return self.ceval(e.a, file, contract)
        if k == "tuple" and len(e.items) == 1:
            return self.ceval(e.items[0], file, contract)
        if k == "un":
            a = self.ceval(e.a, file, contract)
            return -a if e.op == "-" else ~a
        if k == "bin":
            return fold(e.op, self.ceval(e.a, file, contract), self.ceval(e.b, file, contract))
        if k == "id":
            v = self.find_const(e.name, file, contract)
            if v is not None:
                r = self.ceval(v.node.init, v.file, v.contract)
                t = self.type(v.node.ty, v.file, v.contract)
                if t.k == "bytesN" and v.node.init.k == "str":
                    return r
                if t.k == "bytesN" and v.node.init.k == "num":
                    return r << (256 - 8 * t.n)
                return r
        if k == "str":
            return int.from_bytes(e.v.ljust(32, b"\0"), "big")
        if k == "call" and e.f.k == "telemx" and len(e.args) == 1:
            t = self.type(e.f.ty, file, contract)
            v = self.ceval(e.args[0], file, contract)
            if t.k == "uint":
                return v & ((1 << t.n) - 1)
            if t.k == "int":
                v &= (1 << t.n) - 1
                return v - (1 << t.n) if v >> (t.n - 1) else v
            if t.k == "bytesN" and t.n == 32:
                return v
            if t.k == "address":
                return v
        if k == "call" and e.f.k == "id" and e.f.name == "keccak256" and e.args[0].k == "str":
            from vp.model import keccak256
            return int.from_bytes(keccak256(e.args[0].v), "big")
        if k == "member" and e.a.k == "typeof":
            t = self.type(e.a.ty, file, contract)
            if t.k == "uint":
                return (1 << t.n) - 1 if e.name == "max" else 0
            if t.k == "int":
                return (1 << (t.n - 1)) - 1 if e.name == "max" else -(1 << (t.n - 1))
        raise Unsupported("not a constant expression (line %d)" % e.line)

    def find_const(self, name, file, contract):
        if contract is not None:
            for c in self.linear(contract):
                for v in c.vars:
                    if v.name == name:
                        return v if v.node.const else None
        e = file.syms.get(name)
        if e and e[0][0] == "const":
            return e[0][1]
        return None

    # ---- signatures ----
    def canon(self, t):
        k = t.k
        if k in ("uint", "int"):
            return "%s%d" % (k, t.n)
        if k == "bytesN":
            return "bytes%d" % t.n
        if k in ("bool", "bytes", "string", "address"):
            return k
        if k == "contract":
            return "address"
        if k == "enum":
            return "uint8"
        if k == "array":
            return "%s[%s]" % (self.canon(t.base), "" if t.n is None else t.n)
        if k == "struct":
            return "(%s)" % ",".join(self.canon(m) for _, m in self.members(t.ref, "memory"))
        raise Unsupported("no ABI type for %r" % t)

    def ptypes(self, f):
        if f._sig is None:
            f._sig = ([self.type(p.ty, f.file, f.contract, p.loc or ("memory" if self.ismem(p, f) else None))
                       for p in f.node.params],
                      [self.type(p.ty, f.file, f.contract, p.loc or ("memory" if self.ismem(p, f) else None))
                       for p in getattr(f.node, "rets", [])])
        return f._sig

    def ismem(self, p, f):
        return self.type(p.ty, f.file, f.contract).isref()

    def sig(self, f):
        return "%s(%s)" % (f.name, ",".join(self.canon(t) for t in self.ptypes(f)[0]))

    def selector(self, s):
        from vp.model import keccak256
        return int.from_bytes(keccak256(s.encode())[:4], "big")

    # ---- descriptors ----
    def td(self, t):
        k = t.key()
        if k in self.tds:
            return self.tds[k]
        name = "TD_%d" % len(self.tds)
        self.tds[k] = "(&%s)" % name
        kk = t.k
        if kk == "uint":
            s = "{T_UINT,%d,0,0,0}" % t.n
        elif kk == "int":
            s = "{T_INT,%d,0,0,0}" % t.n
        elif kk == "bool":
            s = "{T_BOOL,0,0,0,0}"
        elif kk in ("address", "contract"):
            s = "{T_ADDR,0,0,0,0}"
        elif kk == "enum":
            s = "{T_UINT,8,0,0,0}"
        elif kk == "bytesN":
            s = "{T_BYTESN,%d,0,0,0}" % t.n
        elif kk in ("bytes", "string"):
            s = "{T_BYTES,0,0,0,0}"
        elif kk == "mapping":
            s = "{T_UINT,256,0,0,0}"
        elif kk == "array":
            b = self.td(t.base)
            s = "{%s,0,%d,%s,0}" % ("T_ARR" if t.n is None else "T_SARR", t.n or 0, b)
        elif kk == "struct":
            ms = [self.td(m) for _, m in self.members(t.ref, "memory")]
            self.tdout.append("static const TD *const %s_m[] = {%s};" % (name, ",".join(ms) or "0"))
            s = "{T_STRUCT,%d,0,0,%s_m}" % (len(ms), name)
        else:
            raise Unsupported("no layout for %r" % t)
        self.tdout.append("static const TD %s = %s;" % (name, s))
        return self.tds[k]

    def slots(self, t):
        if t.k == "array" and t.n is not None:
            return t.n * self.slots(t.base)
        if t.k == "struct":
            return max(1, sum(self.slots(m) for _, m in self.members(t.ref, "storage")))
        return 1

    def tdlist(self, ts):
        key = tuple(t.key() for t in ts)
        nm = self.tds.get(("list", key))
        if nm is None:
            nm = "TL_%d" % len(self.tds)
            self.tds[("list", key)] = nm
            body = ",".join(self.td(t) for t in ts) or "0"
            self.tdout.append("static const TD *const %s[] = {%s};" % (nm, body))
        return nm

    def layout(self, c):
        """slot of every state variable of the most derived contract c"""
        if not hasattr(c, "_layout"):
            d = {}
            s = 0
            for b in reversed(self.linear(c)):
                for v in b.vars:
                    if v.node.const:
                        continue
                    try:
                        t = self.type(v.node.ty, v.file, v.contract, "storage")
                        d[id(v)] = (s, t)
                        s += self.slots(t)
                    except Unsupported:
                        s += 1
            c._layout = d
        return c._layout

    # ---- functions ----
    def fname(self, f, ctx):
        """C name of function f compiled for most-derived contract ctx; schedules it."""
        if f.contract is None or f.contract.kind == "library":
            ctx = None
        k = (id(f), id(ctx) if ctx else 0)
        if k not in self.done:
            self.uid += 1
            nm = "F_%s_%d" % ("".join(ch if ch.isalnum() else "_" for ch in f.name), self.uid)
            self.done[k] = nm
            ps, rs = self.ptypes(f)
            self.protos.append("static void %s(%s);" % (nm, self.cparams(ps, rs)))
            self.queue.append((nm, f, ctx))
        return self.done[k]

    def width(self, t):
        return 2 if t.isref() and t.loc == "calldata" and (t.k in ("bytes", "string") or
                                                             (t.k == "array" and t.n is None)) else 1

    def cparams(self, ps, rs):
        a = []
        for i, t in enumerate(ps):
            a += ["W a%d_%d" % (i, j) for j in range(self.width(t))]
        for i, t in enumerate(rs):
            a += ["W *r%d_%d" % (i, j) for j in range(self.width(t))]
        return ", ".join(a) or "void"

    def drain(self):
        while self.queue:
            nm, f, ctx = self.queue.pop()
            ps, rs = self.ptypes(f)
            head = "static void %s(%s) {" % (nm, self.cparams(ps, rs))
            try:
                g = Gen(self, f, ctx)
                body = g.function(ps, rs)
            except Unsupported as e:
                msg = "%s:%s: %s" % (f.file.path, f.name, e)
                self.notes.append(msg)
                body = ["rt_unsupported(%s);" % cstr(msg)]
            self.out.append("\n".join([head] + body + ["}"]))

    def wrapper(self, f, ctx, cname):
        """entry that decodes calldata (after 4 bytes), calls f and encodes the result"""
        ps, rs = self.ptypes(f)
        for t in ps + rs:
            if t.isref() and t.loc == "storage" or t.k == "mapping":
                raise Unsupported("storage parameter")
        fn = self.fname(f, ctx)
        L = ["static void %s(void) {" % cname]
        w = sum(self.width(t) for t in ps)
        L.append("W in[%d]; Src s = {fr->cd + 4, fr->cdlen < 4 ? 0 : fr->cdlen - 4};" % max(1, w))
        if ps:
            fl = ",".join("1" if t.isref() and t.loc == "calldata" else "0" for t in ps)
            L.append("static const uint8_t fl[] = {%s};" % fl)
            L.append("rt_abi_dec(%s, fl, %d, s, 4, in);" % (self.tdlist(ps), len(ps)))
        nr = sum(self.width(t) for t in rs)
        L.append("W out[%d];" % max(1, nr))
        L.append("%s(%s);" % (fn, ", ".join(["in[%d]" % i for i in range(w)] + ["&out[%d]" % i for i in range(nr)])))
        if any(self.width(t) == 2 or (t.isref() and t.loc == "calldata") for t in rs):
            k = 0
            L.append("W o2[%d];" % len(rs))
            for i, t in enumerate(rs):
                if t.isref() and t.loc == "calldata":
                    L.append("o2[%d] = rt_cd2mem(%s, out[%d], %s);" % (i, self.td(t), k, "out[%d]" % (k + 1) if
                                                                       self.width(t) == 2 else "0"))
                else:
                    L.append("o2[%d] = out[%d];" % (i, k))
                k += self.width(t)
            L.append("rt_return_enc(%s, %d, o2);" % (self.tdlist(rs), len(rs)))
        else:
            L.append("rt_return_enc(%s, %d, out);" % (self.tdlist(rs), len(rs)))
        L.append("}")
        return L

    def visible(self, c):
        """functions of contract c by signature, most derived first"""
        out = {}
        for b in self.linear(c):
            for f in b.funcs:
                try:
                    s = self.sig(f)
                except Unsupported:
                    continue
                if s not in out:
                    out[s] = f
        return out

    def contract(self, c, idx):
        L = []
        ents = []
        vis = self.visible(c)
        for s, f in vis.items():
            if f.node.body is None:
                continue
            self.uid += 1
            nm = "W_%s_%d" % (f.name, self.uid)
            try:
                L += self.wrapper(f, c, nm)
            except Unsupported:
                continue
            ents.append((s, f, nm))
            self.hooks.append(("%s.%s" % (c.name, s), nm))
        for b in self.linear(c):
            for v in b.vars:
                if v.node.vis == "public":
                    g = self.getter(v, c)
                    if g:
                        s, nm, lines = g
                        if any(s == e[0] for e in ents):
                            continue
                        L += lines
                        ents.append((s, None, nm))
        L.append("static void disp_%d(void) {" % idx)
        L.append("if (fr->cdlen >= 4) { u64 sel = (u64)(y_calldataload(0) >> 224); switch (sel) {")
        seen = set()
        for s, f, nm in ents:
            if f is None or f.node.vis in ("external", "public"):
                sel = self.selector(s)
                if sel in seen:
                    continue
                seen.add(sel)
                L.append("case 0x%08x: %s(); return; /* %s */" % (sel, nm, s))
        L.append("} }")
        fb = next((b.fallback for b in self.linear(c) if b.fallback), None)
        rc = next((b.receive for b in self.linear(c) if b.receive), None)
        for d, cond in ((rc, "fr->cdlen == 0"), (fb, "1")):
            if d is not None:
                ps, rs = self.ptypes(d)
                if not ps and not rs:
                    L.append("if (%s) { %s(); rt_setret(0, 0); return; }" % (cond, self.fname(d, c)))
                else:
                    L.append('rt_unsupported("fallback with parameters");')
        L.append("rt_revert0(); }")
        # constructor
        L.append("static void ctor_%d(const uint8_t *args, u64 n) {" % idx)
        try:
            if c.kind == "contract" and not c.node.abstract:
                L += CtorGen(self, c).emit()
        except Unsupported as e:
            L.append("rt_unsupported(%s);" % cstr("constructor of %s: %s" % (c.name, e)))
        L.append("}")
        return L

    def getter(self, v, c):
        try:
            if v.node.const:
                t = self.type(v.node.ty, v.file, v.contract)
                if t.isref():
                    return None
                g = Gen(self, None, c, v.file, v.contract)
                val = g.conv(g.ex(v.node.init), t)
                pre = g.L
                self.uid += 1
                nm = "G_%s_%d" % (v.name, self.uid)
                return ("%s()" % v.name, nm, ["static void %s(void) {" % nm] + pre + [
                    "W o = %s; rt_return_enc(%s, 1, &o); }" % (val.e, self.tdlist([t]))])
            slot, t = self.layout(c)[id(v)]
            ins = []
            L = ["W s = %s;" % clit(slot)]
            body = []
            while t.k in ("mapping", "array"):
                i = len(ins)
                if t.k == "mapping":
                    if t.x.isref():
                        return None
                    ins.append(t.x)
                    body.append("s = rt_mapslot(in[%d], s);" % i)
                elif t.n is None:
                    ins.append(U256)
                    body.append("if (in[%d] >= y_sload(s)) rt_revert0(); s = slot_kec(s) + in[%d] * %d;" % (
                        i, i, self.slots(t.base)))
                else:
                    ins.append(U256)
                    body.append("if (in[%d] >= %d) rt_revert0(); s = s + in[%d] * %d;" % (i, t.n, i,
                                                                                           self.slots(t.base)))
                t = t.base
            if t.k == "struct":
                return None
            self.uid += 1
            nm = "G_%s_%d" % (v.name, self.uid)
            L = ["static void %s(void) {" % nm] + L
            if ins:
                L.append("W in[%d]; Src cs = {fr->cd + 4, fr->cdlen - 4}; rt_abi_dec(%s, 0, %d, cs, 4, in);" % (
                    len(ins), self.tdlist(ins), len(ins)))
            L += body
            L.append("W o = rt_sto2mem(%s, s); rt_return_enc(%s, 1, &o); }" % (self.td(t), self.tdlist([t])))
            return ("%s(%s)" % (v.name, ",".join(self.canon(x) for x in ins)), nm, L)
        except Unsupported:
            return None

    def build(self, roots, skip=()):
        for r in roots:
            self.load(r)
        self.link()
        tail = []
        self.index = {}
        cs = [c for c in self.contracts]
        for i, c in enumerate(cs):
            self.index[id(c)] = i
        rootset = set(roots)
        for i, c in enumerate(cs):
            if c.kind == "library" or c.kind == "interface" or c.file.path in STUBS:
                # library functions can be hooked
                tail.append("static void disp_%d(void) { rt_revert0(); } static void ctor_%d(const uint8_t *a, u64 n) { rt_revert0(); }" % (i, i))
                if c.kind == "library" and c.file.path not in STUBS:
                    for f in c.funcs:
                        tail += self.hook("%s." % c.name, f)
                continue
            tail += self.contract(c, i)
        for f in self.files.values():
            if f.path in STUBS:
                continue
            for name, es in f.own.items():
                for k, d in es:
                    if k == "func":
                        tail += self.hook("%s:" % f.path, d)
        self.drain()
        C = ['#include "rt.h"']
        C += self.tabs_early()
        C += self.tdout
        C += self.tabs
        C += self.protos
        C += self.out
        C += tail
        C.append("const Contract CONTRACTS[] = {%s {0,0,0}};" % "".join(
            '{"%s", disp_%d, ctor_%d},' % (c.name, i, i) for i, c in enumerate(cs)))
        C.append("const int NCONTRACTS = %d;" % len(cs))
        C.append("const Hook HOOKS[] = {%s {0,0}};" % "".join("{%s, %s}," % (cstr(a), b) for a, b in self.hooks))
        C.append("const int NHOOKS = %d;" % len(self.hooks))
        return "\n".join(C) + "\n"

    def tabs_early(self):
        return []

    def hook(self, prefix, f):
        try:
            s = self.sig(f)
            self.uid += 1
            nm = "H_%s_%d" % (f.name, self.uid)
            L = self.wrapper(f, None, nm)
        except Unsupported:
            return []
        self.hooks.append((prefix + s, nm))
        return L


def cstr(s):
    return '"' + "".join(ch if 32 <= ord(ch) < 127 and ch not in '"\\?' else "\\%03o" % (ord(ch) & 255) for ch in s) + '"'


def fold(op, a, b):
    if op == "+":
        return a + b
    if op == "-":
        return a - b
    if op == "*":
        return a * b
    if op == "/":
        if b == 0:
            raise Unsupported("constant division by zero")
        r = Fraction(a) / Fraction(b)
        return int(r) if r.denominator == 1 else r
    if op == "%":
        return a % b if a >= 0 else -((-a) % b)
    if op == "**":
        if abs(b) > 4096:
            raise Unsupported("constant too large")
        r = Fraction(a) ** b
        return int(r) if r.denominator == 1 else r
    if op == "<<":
        return a << b
    if op == ">>":
        return a >> b
    if op == "&":
        return a & b
    if op == "|":
        return a | b
    if op == "^":
        return a ^ b
    if op in ("<", ">", "<=", ">=", "==", "!="):
        return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
    raise Unsupported("constant operator " + op)


from .body import Gen, CtorGen  # noqa: E402
