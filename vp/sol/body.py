"""Function bodies: Solidity statements, expressions and inline assembly to C."""
from .gen import (ADDR, B32, BOOL, BYTES, STRING, U256, CDef, Ty, Unsupported, V, VarDef, bits_needed, clit, cstr, fold,
                  lit)
from .parse import N

YPURE = {
    "add": 2, "sub": 2, "mul": 2, "div": 2, "sdiv": 2, "mod": 2, "smod": 2, "exp": 2, "not": 1, "lt": 2, "gt": 2,
    "slt": 2, "sgt": 2, "eq": 2, "iszero": 1, "and": 2, "or": 2, "xor": 2, "byte": 2, "shl": 2, "shr": 2, "sar": 2,
    "addmod": 3, "mulmod": 3, "signextend": 2, "mload": 1, "sload": 1, "calldataload": 1, "calldatasize": 0,
    "address": 0, "caller": 0, "callvalue": 0, "gas": 0, "codesize": 0, "extcodesize": 1, "extcodehash": 1,
    "returndatasize": 0, "msize": 0, "keccak256": 2,
}
YZERO = {"timestamp": 0, "number": 0, "chainid": 0, "origin": 0, "gasprice": 0, "coinbase": 0, "gaslimit": 0,
         "basefee": 0, "prevrandao": 0, "difficulty": 0, "selfbalance": 0, "balance": 1, "blockhash": 1}
YVALUE = {"create": 3, "create2": 4, "call": 7, "staticcall": 6}
YVOID = {"mstore": 2, "mstore8": 2, "sstore": 2, "calldatacopy": 3, "codecopy": 3, "extcodecopy": 4,
         "returndatacopy": 3, "mcopy": 3, "revert": 2, "return": 2, "stop": 0, "invalid": 0}


class Gen:
    def __init__(self, prog, f, ctx, file=None, contract=None):
        self.p = prog
        self.f = f
        self.ctx = ctx
        self.file = file or f.file
        self.contract = contract if f is None else f.contract
        self.L = []
        self.scopes = [{}]
        self.unchecked = False
        self.loops = []
        self.cnt = 0
        self.rets = []
        self.retlabels = []
        self.yfuncs = []
        self.placeholder = None

    # ---- small helpers ----
    def o(self, s):
        self.L.append(s)

    def new(self, hint="t"):
        self.cnt += 1
        return "%s_%d" % ("".join(c if c.isalnum() else "_" for c in hint), self.cnt)

    def t(self, expr):
        n = self.new()
        self.o("W %s = %s;" % (n, expr))
        return n

    def type(self, t, loc=None):
        return self.p.type(t, self.file, self.contract, loc)

    def declare(self, name, ty, init=None):
        w = self.p.width(ty)
        cs = []
        for j in range(w):
            c = self.new("v" + (name or "") + ("_len" if j else ""))
            self.o("W %s = %s;" % (c, init[j] if init else "0"))
            cs.append(c)
        if name:
            self.scopes[-1][name] = (ty, cs)
        return cs

    def default(self, ty):
        if ty.isref():
            if ty.loc == "memory":
                return ["rt_default(%s)" % self.p.td(ty)]
            return ["((W)0)"] * self.p.width(ty)
        return ["((W)0)"]

    # ---- function ----
    def function(self, ps, rs):
        n = self.f.node
        for i, (p, t) in enumerate(zip(n.params, ps)):
            self.declare(p.name, t, ["a%d_%d" % (i, j) for j in range(self.p.width(t))])
        for i, (p, t) in enumerate(zip(n.rets, rs)):
            self.rets.append((t, self.declare(p.name, t, self.default(t))))
        lab = self.new("Lret")
        self.retlabels.append(lab)
        if n.body is None:
            raise Unsupported("function without body")
        self.with_mods(list(n.mods), n.body)
        self.o("%s:;" % lab)
        for i, (t, cs) in enumerate(self.rets):
            for j, c in enumerate(cs):
                self.o("*r%d_%d = %s;" % (i, j, c))
        return self.L

    def find_mod(self, path):
        c = self.ctx or self.contract
        if c is None:
            return None
        for b in self.p.linear(c):
            if path[-1] in b.mods:
                return b.mods[path[-1]]
        return None

    def with_mods(self, mods, body):
        while mods and self.find_mod(mods[0][0]) is None:
            mods = mods[1:]     # base constructor call
        if not mods:
            self.stmt(body)
            return
        path, args = mods[0]
        m = self.find_mod(path)
        vals = [self.ex(a) for a in (args or [])]
        tys = self.p.ptypes(m)[0]
        self.o("{")
        saved = (self.scopes, self.file, self.contract, self.placeholder, self.retlabels)
        self.scopes = [{}]
        for p, t, v in zip(m.node.params, tys, vals):
            self.declare(p.name, t, self.conv(v, t).c)
        self.file, self.contract = m.file, m.contract
        mscopes = self.scopes
        lab = self.new("Lmod")
        self.retlabels = [lab]

        def run():
            cur = (self.scopes, self.file, self.contract, self.placeholder, self.retlabels, self.unchecked)
            self.scopes, self.file, self.contract, self.placeholder, _ = saved
            il = self.new("Lbody")
            self.retlabels = [il]
            self.unchecked = False
            self.o("{")
            self.with_mods(mods[1:], body)
            self.o("%s:; }" % il)
            self.scopes, self.file, self.contract, self.placeholder, self.retlabels, self.unchecked = cur
        self.placeholder = run
        if m.node.body is None:
            raise Unsupported("modifier without body")
        self.stmt(m.node.body)
        self.o("%s:;" % lab)
        self.scopes, self.file, self.contract, self.placeholder, self.retlabels = saved
        del mscopes
        self.o("}")

    # ---- statements ----
    def stmt(self, s):
        getattr(self, "s_" + s.k)(s)

    def s_block(self, s):
        self.o("{")
        self.scopes.append({})
        u = self.unchecked
        if s.unchecked:
            self.unchecked = True
        for x in s.body:
            self.stmt(x)
        self.unchecked = u
        self.scopes.pop()
        self.o("}")

    def s_bad(self, s):
        raise Unsupported(s.msg)

    def cond(self, e):
        return self.conv(self.ex(e), BOOL).e

    def s_if(self, s):
        self.o("{")
        c = self.cond(s.cond)
        self.o("if (%s) {" % c)
        self.scoped(s.a)
        self.o("}")
        if s.b is not None:
            self.o("else {")
            self.scoped(s.b)
            self.o("}")
        self.o("}")

    def scoped(self, s):
        self.scopes.append({})
        self.stmt(s)
        self.scopes.pop()

    def loop(self, cond, post, body, first=True):
        b, c = self.new("Lb"), self.new("Lc")
        self.o("for (;;) { rt_loop();")
        if cond is not None and first:
            self.o("{")
            self.o("if (!(%s)) goto %s; }" % (self.cond(cond), b))
        self.loops.append((b, c))
        self.scoped(body)
        self.loops.pop()
        self.o("%s:;" % c)
        if post is not None:
            self.o("{")
            self.ex(post)
            self.o("}")
        if cond is not None and not first:
            self.o("{")
            self.o("if (!(%s)) goto %s; }" % (self.cond(cond), b))
        self.o("} %s:;" % b)

    def s_while(self, s):
        self.loop(s.cond, None, s.body)

    def s_do(self, s):
        self.loop(s.cond, None, s.body, first=False)

    def s_for(self, s):
        self.o("{")
        self.scopes.append({})
        if s.init is not None:
            self.stmt(s.init)
        # the loop counter increment of a plain `i++` may be unchecked in newer compilers: same result
        self.loop(s.cond, s.post, s.body)
        self.scopes.pop()
        self.o("}")

    def s_break(self, s):
        self.o("goto %s;" % self.loops[-1][0])

    def s_continue(self, s):
        self.o("goto %s;" % self.loops[-1][1])

    def s_placeholder(self, s):
        if self.placeholder is None:
            raise Unsupported("placeholder outside a modifier")
        self.placeholder()

    def s_return(self, s):
        if s.e is not None and self.rets:
            v = self.ex(s.e)
            if len(self.rets) == 1:
                self.o("{")
                v = self.conv(v, self.rets[0][0])
                for c, x in zip(self.rets[0][1], v.c):
                    self.o("%s = %s;" % (c, x))
                self.o("}")
            else:
                if v.ty.k != "tuple" or len(v.c) != len(self.rets):
                    raise Unsupported("return arity")
                vs = [self.conv(x, t) for x, (t, _) in zip(v.c, self.rets)]
                for x, (t, cs) in zip(vs, self.rets):
                    for c, y in zip(cs, x.c):
                        self.o("%s = %s;" % (c, y))
        self.o("goto %s;" % self.retlabels[-1])

    def s_expr(self, s):
        self.o("{")
        self.ex(s.e)
        self.o("}")

    def s_emit(self, s):
        self.o("{")
        for a in s.e.args:
            self.ex(a)
        self.o("}")

    def s_reverterr(self, s):
        self.o("{")
        self.revert_error(s.e)
        self.o("}")

    def revert_error(self, call):
        if call.k != "call":
            raise Unsupported("revert form")
        p = self.epath(call.f)
        e = self.p.path_entity(p, self.file, self.contract) if p else None
        if not e or e[0][0] != "error":
            raise Unsupported("unknown error")
        d = e[0][1]
        tys = [self.p.type(x.ty, d.file, d.contract, "memory" if self.p.type(x.ty, d.file, d.contract).isref()
                           else None) for x in d.node.params]
        args = call.args
        if call.names:
            order = {n: a for n, a in zip(call.names, args)}
            args = [order[x.name] for x in d.node.params]
        vs = [self.conv(self.ex(a), t) for a, t in zip(args, tys)]
        sel = self.p.selector("%s(%s)" % (d.name, ",".join(self.p.canon(t) for t in tys)))
        m = self.encode(tys, vs, "((W)0x%08x << 224)" % sel)
        self.o("y_revert(%s + 32, y_mload(%s));" % (m, m))

    def epath(self, e):
        if e.k == "id":
            return [e.name]
        if e.k == "member":
            p = self.epath(e.a)
            return p + [e.name] if p else None
        return None

    def s_decl(self, s):
        if not s.tup:
            v = s.vars[0]
            ty = self.type(v.ty, v.loc)
            if s.init is None:
                self.declare(v.name, ty, self.default(ty) if ty.loc != "storage" else ["0"])
            else:
                x = self.conv(self.ex(s.init), ty)
                self.declare(v.name, ty, x.c)
            return
        x = self.ex(s.init)
        if x.ty.k != "tuple" or len(x.c) != len(s.vars):
            raise Unsupported("tuple declaration arity")
        todo = []
        for v, y in zip(s.vars, x.c):
            if v is not None:
                ty = self.type(v.ty, v.loc)
                todo.append((v.name, ty, self.conv(y, ty).c))
        for nm, ty, c in todo:
            self.declare(nm, ty, c)

    # ---- conversions ----
    def mobile(self, v):
        """concrete type of a literal"""
        if v.ty.k == "lit":
            n = v.ty.n
            if not isinstance(n, int):
                raise Unsupported("fraction")
            return Ty("uint", bits_needed(n)) if n >= 0 else Ty("int", bits_needed(n))
        if v.ty.k == "str":
            return STRING
        return v.ty

    def can(self, v, to):
        """cost of the implicit conversion of v to type `to`, or None"""
        a = v.ty
        if a.k == "lit":
            n = a.n
            if not isinstance(n, int):
                return None
            if to.k == "uint":
                return (1 + (to.n != 256)) if 0 <= n < (1 << to.n) else None
            if to.k == "int":
                return 2 if -(1 << (to.n - 1)) <= n < (1 << (to.n - 1)) else None
            if to.k == "bytesN":
                return 3 if n == 0 or True else None
            if to.k == "address":
                return 3
            return None
        if a.k == "str":
            if to.k in ("bytes", "string"):
                return 1 if to.loc != "storage" else 2
            if to.k == "bytesN":
                return 2 if len(a.n) <= to.n else None
            return None
        if a.k == "tuple" or to.k == "tuple":
            return None
        if a.isref() or to.isref():
            if a.k == "array" and to.k == "array" and v.ty.x == "literal":
                if to.n is not None and to.n != a.n:
                    return None
                x = V(a.base, "0")
                if a.base.isref():
                    return 1 if a.base.k == to.base.k else None
                return self.can(x, to.base) is not None and 1 or (1 if a.base.k == to.base.k else None)
            if not a.same(to):
                return None
            if to.loc == "storage" and a.loc != "storage":
                return None
            if to.loc == "calldata" and a.loc != "calldata":
                return None
            return 0 if a.loc == to.loc else 1
        if a.same(to):
            return 0
        if a.k == to.k and a.k in ("uint", "int", "bytesN"):
            return 1 if a.n <= to.n else None
        if a.k == "uint" and to.k == "int":
            return 2 if to.n > a.n else None
        if a.k == "contract" and to.k == "contract":
            return 1 if to.ref in self.p.linear(a.ref) else None
        if a.k == "contract" and to.k == "address":
            return 2
        return None

    def clean(self, c, ty):
        if ty.k == "uint" and ty.n < 256:
            return "(%s & MAXU(%d))" % (c, ty.n)
        if ty.k == "int" and ty.n < 256:
            return "sx(%s, %d)" % (c, ty.n)
        if ty.k == "bool":
            return "((W)(%s != 0))" % c
        if ty.k in ("address", "contract"):
            return "(%s & MAXU(160))" % c
        if ty.k == "enum":
            return "(%s & 0xff)" % c
        if ty.k == "bytesN" and ty.n < 32:
            return "(%s & ~MAXU(%d))" % (c, 256 - 8 * ty.n)
        return c

    def conv(self, v, to, explicit=False):
        a = v.ty
        if a.k == "lit":
            n = a.n
            if not isinstance(n, int):
                raise Unsupported("fractional constant")
            if to.k == "uint":
                if not 0 <= n < (1 << to.n):
                    if not explicit:
                        raise Unsupported("constant does not fit")
                    n &= (1 << to.n) - 1
                return V(to, clit(n))
            if to.k == "int":
                return V(to, clit(n))
            if to.k == "bytesN":
                return V(to, clit(n << (256 - 8 * to.n)))
            if to.k in ("address", "contract"):
                return V(to, clit(n & ((1 << 160) - 1)))
            if to.k == "enum":
                return V(to, clit(n))
            raise Unsupported("constant to %r" % to)
        if a.k == "str":
            if to.k in ("bytes", "string"):
                return V(to, self.bytes_lit(a.n))
            if to.k == "bytesN":
                return V(to, clit(int.from_bytes(a.n[:to.n].ljust(32, b"\0"), "big")))
            raise Unsupported("string to %r" % to)
        if a.k == "codeof":
            return self.conv(V(BYTES, self.t("rt_code(%s)" % v.e)), to if to.k != "codeof" else BYTES, explicit)
        if a.k == "tuple":
            if len(v.c) == 1:
                return self.conv(v.c[0], to, explicit)
            raise Unsupported("tuple conversion")
        if a.isref():
            if to.k == "bytesN" and a.k in ("bytes", "string"):
                m = self.conv(v, a.at("memory")).e
                return V(to, self.t("(y_mload(%s) >= %d ? y_mload(%s + 32) : (y_mload(%s) == 0 ? (W)0 : y_mload(%s + 32) "
                                    "& ~(~(W)0 >> (unsigned)(8 * y_mload(%s))))) & ~MAXU(%d)" % (
                                        m, to.n, m, m, m, m, 256 - 8 * to.n)))
            if not to.isref():
                raise Unsupported("conversion %r to %r" % (a, to))
            if a.k in ("bytes", "string") and to.k in ("bytes", "string"):
                a = Ty(to.k, loc=a.loc)
            elif not a.same(to) and not (a.x == "literal" and a.k == "array" and to.k == "array"):
                raise Unsupported("conversion %r to %r" % (a, to))
            if to.loc is None or a.loc == to.loc:
                return V(to.at(a.loc), v.c)
            if to.loc == "memory":
                if a.loc == "calldata":
                    return V(to, self.t("rt_cd2mem(%s, %s, %s)" % (self.p.td(a), v.c[0],
                                                                   v.c[1] if len(v.c) > 1 else "0")))
                if a.loc == "storage":
                    return V(to, self.t("rt_sto2mem(%s, %s)" % (self.p.td(a), v.e)))
            raise Unsupported("conversion %r to %r" % (a, to))
        if a.same(to):
            return V(to, v.c)
        c = v.e
        if to.k in ("uint", "int"):
            if a.k in ("uint", "int"):
                if a.k == to.k and to.n >= a.n:
                    return V(to, c)
                return V(to, self.t(self.clean(c, to)))
            if a.k == "bytesN" and explicit:
                return V(to, self.t(self.clean("(%s >> %d)" % (c, 256 - 8 * a.n), to)))
            if a.k in ("address", "contract", "enum") and explicit:
                return V(to, self.t(self.clean(c, to)))
        if to.k == "bytesN":
            if a.k == "bytesN":
                return V(to, self.t(self.clean(c, to)) if to.n < a.n else c)
            if a.k == "uint" and explicit:
                return V(to, self.t("(%s << %d)" % (c, 256 - 8 * to.n)) if to.n < 32 else c)
            if a.k == "address" and explicit:
                return V(to, self.t("(%s << 96)" % c))
        if to.k in ("address", "contract"):
            if a.k in ("address", "contract"):
                return V(to, c)
            if a.k == "uint" and explicit:
                return V(to, self.t(self.clean(c, ADDR)))
            if a.k == "bytesN" and a.n == 20 and explicit:
                return V(to, self.t("(%s >> 96)" % c))
        if to.k == "enum" and explicit and a.k == "uint":
            self.o("if (%s >= %d) rt_panic(0x21);" % (c, len(to.ref.node.members)))
            return V(to, c)
        raise Unsupported("conversion %r to %r" % (a, to))

    def bytes_lit(self, b):
        return self.t("rt_bytes((const uint8_t *)%s, %d)" % (cstr_bytes(b), len(b)))

    # ---- lvalues ----
    def lv(self, e):
        k = e.k
        if k == "paren":
            return self.lv(e.a)
        if k == "id":
            for s in reversed(self.scopes):
                if e.name in s:
                    ty, cs = s[e.name]
                    return ("loc", cs, ty)
            sv = self.statevar(e.name)
            if sv:
                return ("sto", sv[0], sv[1])
            raise Unsupported("cannot assign to %s" % e.name)
        if k == "tuple":
            return ("tuple", [self.lv(x) if x is not None else None for x in e.items])
        if k == "index":
            if e.i is None:
                raise Unsupported("index")
            b = self.ex(e.a)
            return self.index_lv(b, e.i)
        if k == "member":
            b = self.ex(e.a)
            if b.ty.k == "struct":
                return self.member_lv(b, e.name)
            if b.ty.k == "mod" and isinstance(b.ty.ref, CDef) and self.ctx:
                sv = self.statevar(e.name)
                if sv:
                    return ("sto", sv[0], sv[1])
        if k == "call":
            v = self.ex(e)
            if v.ty.isref() and v.ty.loc == "storage":
                return ("sto", v.e, v.ty)
            if v.lv:
                return v.lv
        raise Unsupported("assignment target (line %d)" % e.line)

    def statevar(self, name):
        c = self.ctx
        if c is None:
            return None
        for b in self.p.linear(c):
            for v in b.vars:
                if v.name == name and not v.node.const:
                    lay = self.p.layout(c).get(id(v))
                    if lay is None:
                        raise Unsupported("state variable %s" % name)
                    return clit(lay[0]), lay[1]
        return None

    def member_cd(self, b, name):
        off = 0
        for m, t in self.p.members(b.ty.ref, b.ty.loc):
            if m == name:
                if not t.isref():
                    return V(t, self.t("dec_clean(%s, y_calldataload(%s + %d))" % (self.p.td(t), b.c[0], off)))
                t = t.at("calldata")
                if self.p.width(t) == 2:
                    a = self.t("%s + y_calldataload(%s + %d)" % (b.c[0], b.c[0], off))
                    return V(t, [self.t("%s + 32" % a), self.t("y_calldataload(%s)" % a)])
                raise Unsupported("calldata struct member %s" % name)
            if t.isref():
                if self.p.width(t.at("calldata")) != 2:
                    raise Unsupported("calldata struct member %s" % name)
            off += 32
        raise Unsupported("member %s" % name)

    def member_lv(self, b, name):
        ms = self.p.members(b.ty.ref, b.ty.loc)
        off = 0
        for i, (m, t) in enumerate(ms):
            if m == name:
                if b.ty.loc == "memory":
                    return ("mem", self.t("%s + %d" % (b.e, 32 * i)), t)
                if b.ty.loc == "storage":
                    return ("sto", self.t("%s + %d" % (b.e, off)), t)
                raise Unsupported("calldata struct member")
            off += self.p.slots(t)
        raise Unsupported("member %s" % name)

    def index_lv(self, b, ie):
        ty = b.ty
        if ty.k == "mapping":
            k = self.conv(self.ex(ie), ty.x if not ty.x.isref() else ty.x.at("memory"))
            if ty.x.isref():
                x = self.t("rt_abi_packed(%s, 2, (W[]){%s, %s})" % (self.p.tdlist([ty.x, U256]), k.e, b.e))
                return ("sto", self.t("y_keccak256(%s + 32, y_mload(%s))" % (x, x)), ty.base)
            return ("sto", self.t("rt_mapslot(%s, %s)" % (k.e, b.e)), ty.base)
        i = self.conv(self.ex(ie), U256).e
        if ty.k in ("bytes", "string"):
            if ty.loc == "memory":
                self.o("if (%s >= y_mload(%s)) rt_panic(0x32);" % (i, b.e))
                return ("memb", self.t("%s + 32 + %s" % (b.e, i)), Ty("bytesN", 1))
            raise Unsupported("indexing %r" % ty)
        if ty.k != "array":
            raise Unsupported("indexing %r" % ty)
        if ty.loc == "memory":
            if ty.n is None:
                self.o("if (%s >= y_mload(%s)) rt_panic(0x32);" % (i, b.e))
                return ("mem", self.t("%s + 32 + 32 * %s" % (b.e, i)), ty.base)
            self.o("if (%s >= %d) rt_panic(0x32);" % (i, ty.n))
            return ("mem", self.t("%s + 32 * %s" % (b.e, i)), ty.base)
        if ty.loc == "storage":
            k = self.p.slots(ty.base)
            if ty.n is None:
                self.o("if (%s >= y_sload(%s)) rt_panic(0x32);" % (i, b.e))
                return ("sto", self.t("slot_kec(%s) + %s * %d" % (b.e, i, k)), ty.base)
            self.o("if (%s >= %d) rt_panic(0x32);" % (i, ty.n))
            return ("sto", self.t("%s + %s * %d" % (b.e, i, k)), ty.base)
        raise Unsupported("assignment to calldata")

    def load(self, lv):
        k = lv[0]
        if k == "loc":
            ty = lv[2]
            if ty.isref():
                return V(ty, [self.t(c) for c in lv[1]])
            return V(ty, self.t(self.clean(lv[1][0], ty)))
        if k == "mem":
            ty = lv[2]
            return V(ty, self.t(self.clean("y_mload(%s)" % lv[1], ty) if not ty.isref() else "y_mload(%s)" % lv[1]))
        if k == "memb":
            return V(lv[2], self.t("y_mload(%s) & ~MAXU(248)" % lv[1]))
        if k == "sto":
            ty = lv[2]
            if ty.isref():
                return V(ty if ty.k == "mapping" else ty.at("storage"), lv[1])
            return V(ty, self.t(self.clean("y_sload(%s)" % lv[1], ty)))
        raise Unsupported("load")

    def store(self, lv, v):
        k = lv[0]
        if k == "tuple":
            if v.ty.k != "tuple" or len(v.c) != len(lv[1]):
                raise Unsupported("tuple assignment arity")
            vs = []
            for l, x in zip(lv[1], v.c):
                vs.append(None if l is None else (self.conv(x, l[2]) if l[0] in ("loc", "mem", "memb") else x))
            for l, x in reversed(list(zip(lv[1], vs))):
                if l is not None:
                    self.store(l, x)
            return
        ty = lv[2]
        if k == "loc":
            v = self.conv(v, ty)
            for c, x in zip(lv[1], v.c):
                self.o("%s = %s;" % (c, x))
        elif k == "mem":
            v = self.conv(v, ty)
            self.o("y_mstore(%s, %s);" % (lv[1], v.e))
        elif k == "memb":
            v = self.conv(v, ty)
            self.o("y_mstore8(%s, %s >> 248);" % (lv[1], v.e))
        elif k == "sto":
            if ty.isref():
                if v.ty.k == "str":
                    v = self.conv(v, BYTES)
                if v.ty.loc == "storage" and v.e == lv[1]:
                    return
                if v.ty.loc != "memory":
                    v = self.conv(v, v.ty.at("memory"))
                if not v.ty.same(ty) and not (v.ty.k == "array" and ty.k == "array" and
                                              self.can(V(v.ty.base, "0"), ty.base) is not None) \
                        and not (v.ty.k in ("bytes", "string") and ty.k in ("bytes", "string")):
                    raise Unsupported("storage assignment %r to %r" % (v.ty, ty))
                self.o("rt_mem2sto(%s, %s, %s, %s);" % (self.p.td(v.ty), self.p.td(ty), v.e, lv[1]))
            else:
                v = self.conv(v, ty)
                self.o("y_sstore(%s, %s);" % (lv[1], v.e))

    # ---- expressions ----
    def ex(self, e):
        m = getattr(self, "e_" + e.k, None)
        if m is None:
            raise Unsupported("expression %s (line %d)" % (e.k, e.line))
        return m(e)

    def e_num(self, e):
        return V(lit(e.v), "0")

    def e_bool(self, e):
        return V(BOOL, "((W)%d)" % e.v)

    def e_str(self, e):
        return V(Ty("str", e.v), "0")

    def e_paren(self, e):
        return self.ex(e.a)

    def e_tuple(self, e):
        return V(Ty("tuple"), [self.ex(x) if x is not None else None for x in e.items])

    def e_telemx(self, e):
        return V(Ty("typ", base=self.type(e.ty)), "0")

    def e_typeof(self, e):
        return V(Ty("meta", base=self.type(e.ty)), "0")

    def e_arrlit(self, e):
        if not e.items:
            raise Unsupported("empty array literal")
        # large constant tables
        vals = []
        base = None
        for x in e.items:
            if x.k == "num" and isinstance(x.v, int):
                vals.append(x.v)
            elif x.k == "call" and x.f.k == "telemx" and len(x.args) == 1 and x.args[0].k == "num":
                t = self.type(x.f.ty)
                if t.k != "uint":
                    vals = None
                    break
                base = base or t
                vals.append(x.args[0].v)
            else:
                vals = None
                break
        if vals is not None and len(vals) > 4:
            if base is None:
                base = Ty("uint", max(bits_needed(v) for v in vals))
            nm = "TAB_%d" % len(self.p.tabs)
            if all(v < (1 << 64) for v in vals):
                self.p.tabs.append("static const u64 %s[] = {%s};" % (nm, ",".join("%dULL" % v for v in vals)))
                c = self.t("rt_tab64(%s, %d)" % (nm, len(vals)))
            else:
                self.p.tabs.append("static const W %s[] = {%s};" % (nm, ",".join(clit(v) for v in vals)))
                c = self.t("rt_tabW(%s, %d)" % (nm, len(vals)))
            return V(Ty("array", len(vals), base, "memory", x="literal"), c)
        vs = [self.ex(x) for x in e.items]
        base = None
        for v in vs:
            t = self.mobile(v)
            if base is None or (t.k == base.k and t.k in ("uint", "int", "bytesN") and t.n > base.n):
                base = t
        base = base.at("memory")
        p = self.t("rt_alloc(%d)" % (32 * len(vs)))
        for i, v in enumerate(vs):
            self.o("y_mstore(%s + %d, %s);" % (p, 32 * i, self.conv(v, base).e))
        return V(Ty("array", len(vs), base, "memory", x="literal"), p)

    def e_id(self, e):
        nm = e.name
        for s in reversed(self.scopes):
            if nm in s:
                ty, cs = s[nm]
                return self.load(("loc", cs, ty))
        sv = self.statevar(nm)
        if sv:
            return self.load(("sto", sv[0], sv[1]))
        if nm == "this":
            return V(Ty("contract", ref=self.ctx), self.t("fr->self"))
        if nm == "super":
            return V(Ty("super"), "0")
        c = self.ctx or self.contract
        if c is not None:
            fs = self.funcs_named(c, nm)
            if fs:
                return V(Ty("func", x=fs), "0")
            for b in self.p.linear(c):
                for v in b.vars:
                    if v.name == nm and v.node.const:
                        return self.const(v)
                if nm in b.types:
                    return self.entity([b.types[nm]])
                if nm in b.errors:
                    return V(Ty("error", ref=b.errors[nm]), "0")
        es = self.file.syms.get(nm)
        if es:
            return self.entity(es)
        if nm in ("abi", "msg", "block", "tx", "bytes", "string"):
            return V(Ty("magic", nm), "0")
        return V(Ty("builtin", nm), "0")

    def funcs_named(self, c, nm):
        fs = []
        sigs = set()
        for b in self.p.linear(c):
            for f in b.funcs:
                if f.name == nm:
                    try:
                        s = self.p.sig(f)
                    except Unsupported:
                        s = id(f)
                    if s not in sigs:
                        sigs.add(s)
                        fs.append(f)
        return fs

    def entity(self, es):
        k, d = es[0]
        if k == "func":
            return V(Ty("func", x=[x[1] for x in es if x[0] == "func"]), "0")
        if k == "const":
            return self.const(d)
        if k == "struct":
            return V(Ty("typ", base=Ty("struct", ref=d)), "0")
        if k == "enum":
            return V(Ty("typ", base=Ty("enum", ref=d)), "0")
        if k == "contract":
            return V(Ty("mod", ref=d), "0")
        if k == "module":
            return V(Ty("mod", ref=d), "0")
        if k == "error":
            return V(Ty("error", ref=d), "0")
        if k == "udvt":
            return V(Ty("typ", base=self.p.type(d.node.ty, d.file, d.contract)), "0")
        raise Unsupported("entity " + k)

    def const(self, v):
        t = self.p.type(v.node.ty, v.file, v.contract, None)
        if t.isref():
            t = t.at("memory")
        saved = (self.file, self.contract, self.scopes)
        self.file, self.contract, self.scopes = v.file, v.contract, [{}]
        try:
            if v.node.init is None:
                raise Unsupported("constant without value")
            x = self.ex(v.node.init)
            # implicit conversion also checks that a literal fits
            return self.conv(x, t)
        finally:
            self.file, self.contract, self.scopes = saved

    def e_index(self, e):
        if e.i is None:
            v = self.ex(e.a)
            if v.ty.k == "typ":
                return V(Ty("typ", base=Ty("array", None, v.ty.base)), "0")
            if v.ty.k == "mod":
                return V(Ty("typ", base=Ty("array", None, Ty("contract", ref=v.ty.ref))), "0")
            raise Unsupported("index")
        b = self.ex(e.a)
        if b.ty.k == "typ":
            n = self.p.ceval(e.i, self.file, self.contract)
            return V(Ty("typ", base=Ty("array", n, b.ty.base)), "0")
        if b.ty.k == "str":
            b = self.conv(b, STRING)
        if b.ty.isref() and b.ty.loc == "calldata":
            i = self.conv(self.ex(e.i), U256).e
            if b.ty.k in ("bytes", "string"):
                self.o("if (%s >= %s) rt_panic(0x32);" % (i, b.c[1]))
                return V(Ty("bytesN", 1), self.t("y_calldataload(%s + %s) & ~MAXU(248)" % (b.c[0], i)))
            if b.ty.k == "array" and not b.ty.base.isref():
                self.o("if (%s >= %s) rt_panic(0x32);" % (i, b.c[1] if b.ty.n is None else "%d" % b.ty.n))
                return V(b.ty.base, self.t("dec_clean(%s, y_calldataload(%s + 32 * %s))" % (self.p.td(b.ty.base),
                                                                                          b.c[0], i)))
            raise Unsupported("nested calldata array")
        if b.ty.k == "bytesN":
            i = self.conv(self.ex(e.i), U256).e
            self.o("if (%s >= %d) rt_panic(0x32);" % (i, b.ty.n))
            return V(Ty("bytesN", 1), self.t("y_byte(%s, %s) << 248" % (i, b.e)))
        lv = self.index_lv(b, e.i)
        r = self.load(lv)
        r.lv = lv
        return r

    def e_slice(self, e):
        b = self.ex(e.a)
        if not (b.ty.isref() and b.ty.loc == "calldata" and self.p.width(b.ty) == 2):
            raise Unsupported("slice of %r" % b.ty)
        lo = self.conv(self.ex(e.lo), U256).e if e.lo is not None else "((W)0)"
        hi = self.conv(self.ex(e.hi), U256).e if e.hi is not None else b.c[1]
        self.o("if (%s > %s || %s > %s) rt_revert0();" % (lo, hi, hi, b.c[1]))
        st = 1 if b.ty.k != "array" else 32
        return V(b.ty, [self.t("%s + %s * %d" % (b.c[0], lo, st)), self.t("%s - %s" % (hi, lo))])

    def e_member(self, e):
        nm = e.name
        if e.a.k == "typeof":
            t = self.type(e.a.ty)
            if t.k in ("uint", "int") and nm in ("max", "min"):
                if t.k == "uint":
                    v = (1 << t.n) - 1 if nm == "max" else 0
                else:
                    v = (1 << (t.n - 1)) - 1 if nm == "max" else -(1 << (t.n - 1))
                return V(t, clit(v))
            if t.k == "contract" and nm == "interfaceId":
                x = 0
                for f in t.ref.funcs:
                    x ^= self.p.selector(self.p.sig(f))
                return V(Ty("bytesN", 4), clit(x << 224))
            if t.k == "contract" and nm == "name":
                return V(Ty("str", t.ref.name.encode()), "0")
            raise Unsupported("type(...).%s" % nm)
        b = self.ex(e.a)
        k = b.ty.k
        if k == "magic":
            if b.ty.n == "msg":
                if nm == "sender":
                    return V(ADDR, self.t("fr->caller"))
                if nm == "value":
                    return V(U256, self.t("fr->value"))
                if nm == "data":
                    return V(Ty("bytes", loc="calldata"), ["((W)0)", self.t("(W)fr->cdlen")])
                if nm == "sig":
                    return V(Ty("bytesN", 4), self.t("y_calldataload(0) & ~MAXU(224)"))
            if b.ty.n in ("block", "tx"):
                return V(ADDR if nm in ("origin", "coinbase") else U256, "((W)0)")
            return V(Ty("builtin", b.ty.n + "." + nm), "0")
        if k == "typ" and b.ty.base.k in ("bytes", "string") and nm == "concat":
            return V(Ty("builtin", "bytes.concat"), "0")
        if k == "typ" and b.ty.base.k == "enum":
            ms = b.ty.base.ref.node.members
            if nm in ms:
                return V(b.ty.base, clit(ms.index(nm)))
        if k == "typ" and nm in ("wrap", "unwrap"):
            return V(Ty("typ", base=b.ty.base), "0")
        if k == "builtin":
            return V(Ty("builtin", b.ty.n + "." + nm), "0")
        if k == "mod":
            d = b.ty.ref
            if isinstance(d, CDef):
                fs = self.funcs_named(d, nm)
                if fs:
                    return V(Ty("func", x=fs, ref=("static", d)), "0")
                for c in self.p.linear(d):
                    if nm in c.types:
                        return self.entity([c.types[nm]])
                    if nm in c.errors:
                        return V(Ty("error", ref=c.errors[nm]), "0")
                    for v in c.vars:
                        if v.name == nm:
                            if v.node.const:
                                return self.const(v)
                            sv = self.statevar(nm)
                            if sv:
                                return self.load(("sto", sv[0], sv[1]))
                return V(Ty("builtin", d.name + "." + nm), "0")
            es = d.syms.get(nm)
            if es:
                return self.entity(es)
            raise Unsupported("module member " + nm)
        if k == "super":
            c = self.ctx
            lin = self.p.linear(c)
            rest = lin[lin.index(self.contract) + 1:]
            fs, sigs = [], set()
            for x in rest:
                for f in x.funcs:
                    if f.name == nm and f.node.body is not None and self.p.sig(f) not in sigs:
                        sigs.add(self.p.sig(f))
                        fs.append(f)
            return V(Ty("func", x=fs, ref=("super",)), "0")
        if k == "func" and nm == "selector":
            if len(b.ty.x) != 1:
                raise Unsupported("ambiguous selector")
            return V(Ty("bytesN", 4), clit(self.p.selector(self.p.sig(b.ty.x[0])) << 224))
        if k == "func" and nm == "address" and b.ty.ref and b.ty.ref[0] == "ext":
            return V(ADDR, b.ty.ref[1])
        if k == "error" and nm == "selector":
            d = b.ty.ref
            s = "%s(%s)" % (d.name, ",".join(self.p.canon(self.p.type(x.ty, d.file, d.contract)) for x in d.node.params))
            return V(Ty("bytesN", 4), clit(self.p.selector(s) << 224))
        if k == "contract":
            fs = [f for f in self.funcs_named(b.ty.ref, nm) if f.node.vis in ("external", "public")]
            if fs:
                return V(Ty("func", x=fs, ref=("ext", b.e)), "0")
            for c in self.p.linear(b.ty.ref):
                for v in c.vars:
                    if v.name == nm and v.node.vis == "public":
                        return V(Ty("func", x=[("getter", v)], ref=("ext", b.e)), "0")
        if nm == "length":
            if k in ("bytes", "string") or k == "array":
                if b.ty.k == "array" and b.ty.n is not None:
                    return V(U256, clit(b.ty.n))
                if b.ty.loc == "memory":
                    return V(U256, self.t("y_mload(%s)" % b.e))
                if b.ty.loc == "calldata":
                    return V(U256, b.c[1])
                if k == "array":
                    return V(U256, self.t("y_sload(%s)" % b.e))
                return V(U256, self.t("(y_sload(%s) & 1) ? y_sload(%s) >> 1 : (y_sload(%s) & 0xff) >> 1" % (
                    b.e, b.e, b.e)))
            if k == "bytesN":
                return V(Ty("uint", 8), clit(b.ty.n))
            if k == "codeof":
                return V(U256, self.t("y_extcodesize(%s)" % b.e))
        if k == "struct" and any(m == nm for m, _ in self.p.members(b.ty.ref, b.ty.loc)):
            if b.ty.loc == "calldata":
                return self.member_cd(b, nm)
            lv = self.member_lv(b, nm)
            r = self.load(lv)
            r.lv = lv
            return r
        if k in ("address", "contract"):
            if nm == "code":
                return V(Ty("codeof"), b.e)
            if nm == "codehash":
                return V(B32, self.t("y_extcodehash(%s)" % b.e))
            if nm == "balance":
                return V(U256, "((W)0)")
            if nm in ("call", "staticcall"):
                return V(Ty("builtin", "addr.call"), b.e)
        if k == "array" and b.ty.loc == "storage" and b.ty.n is None and nm in ("push", "pop"):
            return V(Ty("builtin", "array." + nm, base=b.ty), b.e)
        # using ... for
        fs = self.bound(b, nm)
        if fs:
            return V(Ty("func", x=fs, ref=("bound", b)), "0")
        raise Unsupported("member .%s of %r (line %d)" % (nm, b.ty, e.line))

    def bound(self, b, nm):
        us = [(u, self.file, None) for u in self.file.usings]
        c = self.contract
        if c is not None:
            for x in self.p.linear(c):
                us += [(u, x.file, x) for u in x.usings]
        fs = []
        for u, fl, ct in us:
            if u.lib is not None:
                es = self.p.path_entity(u.lib, fl, ct)
                if es and es[0][0] == "contract":
                    fs += [f for f in es[0][1].funcs if f.name == nm]
            for p, _op in u.funcs:
                if p[-1] == nm:
                    es = self.p.path_entity(p[:1], fl, ct)
                    if es and es[0][0] == "func":
                        fs += [x[1] for x in es]
                    elif es and es[0][0] == "contract":
                        fs += [f for f in es[0][1].funcs if f.name == nm]
        out = []
        for f in fs:
            ps = self.p.ptypes(f)[0]
            if ps and self.can(b, ps[0]) is not None and f not in out:
                out.append(f)
        return out

    def e_cond(self, e):
        c = self.cond(e.c)
        # types first: evaluate both branches separately, then merge
        save = self.L
        self.L = []
        a = self.ex(e.a)
        la, self.L = self.L, []
        b = self.ex(e.b)
        lb, self.L = self.L, save
        if a.ty.k == "tuple":
            raise Unsupported("conditional tuple")
        ta, tb = self.mobile(a), self.mobile(b)
        if ta.isref():
            ty = ta if ta.loc == tb.loc else ta.at("memory")
        elif self.can(V(ta, "0"), tb) is not None:
            ty = tb
        elif self.can(V(tb, "0"), ta) is not None:
            ty = ta
        else:
            raise Unsupported("conditional types")
        names = [self.new("c") for _ in range(self.p.width(ty))]
        for n in names:
            self.o("W %s;" % n)
        for cnd, lines, v in (("if (%s) {" % c, la, a), ("else {", lb, b)):
            self.o(cnd)
            self.L += lines
            v = self.conv(v, ty)
            for n, x in zip(names, v.c):
                self.o("%s = %s;" % (n, x))
            self.o("}")
        return V(ty, names)

    def e_un(self, e):
        if e.op in ("++", "--"):
            return self.incdec(e, True)
        v = self.ex(e.a)
        if e.op == "!":
            return V(BOOL, self.t("(W)(%s == 0)" % self.conv(v, BOOL).e))
        if v.ty.k == "lit":
            return V(lit(-v.ty.n if e.op == "-" else ~v.ty.n), "0")
        if e.op == "~":
            return V(v.ty, self.t(self.clean("(~%s)" % v.e, v.ty)))
        if e.op == "-" and v.ty.k == "int":
            if self.unchecked:
                return V(v.ty, self.t("sx(-%s, %d)" % (v.e, v.ty.n)))
            return V(v.ty, self.t("c_ssub(0, %s, %d)" % (v.e, v.ty.n)))
        raise Unsupported("unary %s on %r" % (e.op, v.ty))

    def e_post(self, e):
        return self.incdec(e, False)

    def incdec(self, e, pre):
        lv = self.lv(e.a)
        old = self.load(lv)
        nv = self.arith("+" if e.op == "++" else "-", old, V(old.ty, "((W)1)"), old.ty)
        self.store(lv, nv)
        return nv if pre else old

    def e_delete(self, e):
        lv = self.lv(e.a)
        if lv[0] == "sto":
            self.o("rt_stoclear(%s, %s);" % (self.p.td(lv[2]), lv[1]))
        elif lv[0] == "memb":
            self.o("y_mstore8(%s, 0);" % lv[1])
        elif lv[0] == "mem":
            self.o("y_mstore(%s, %s);" % (lv[1], self.default(lv[2].at("memory"))[0]))
        else:
            for c, d in zip(lv[1], self.default(lv[2])):
                self.o("%s = %s;" % (c, d))
        return V(Ty("tuple"), [])

    def arith(self, op, a, b, ty):
        x, y, n = a.e, b.e, ty.n
        if ty.k == "uint":
            if self.unchecked and op in "+-*":
                return V(ty, self.t(self.clean({"+": "(%s + %s)", "-": "(%s - %s)", "*": "y_mul(%s, %s)"}[op] % (x, y),
                                               ty)))
            f = {"+": "c_add(%s, %s, {n})", "-": "c_sub(%s, %s)", "*": "c_mul(%s, %s, {n})", "/": "c_div(%s, %s)",
                 "%": "c_mod(%s, %s)"}[op]
            return V(ty, self.t(f.replace("{n}", str(n)) % (x, y)))
        if ty.k == "int":
            if self.unchecked and op in "+-*":
                return V(ty, self.t("sx(%s %s %s, %d)" % (x, op, y, n)))
            if op == "/":
                return V(ty, self.t("c_sdiv(%s, %s, %d, %d)" % (x, y, n, 0 if self.unchecked else 1)))
            if op == "%":
                return V(ty, self.t("c_smod(%s, %s)" % (x, y)))
            return V(ty, self.t("%s(%s, %s, %d)" % ({"+": "c_sadd", "-": "c_ssub", "*": "c_smul"}[op], x, y, n)))
        raise Unsupported("arithmetic on %r" % ty)

    def common(self, a, b):
        if a.ty.k == "lit" and b.ty.k == "lit":
            raise Unsupported("literals")
        if a.ty.k == "lit":
            if self.can(a, b.ty) is not None:
                return b.ty
            return self.common(V(self.mobile(a), "0"), b)
        if b.ty.k == "lit":
            if self.can(b, a.ty) is not None:
                return a.ty
            return self.common(a, V(self.mobile(b), "0"))
        if a.ty.k == "str":
            return b.ty
        if b.ty.k == "str":
            return a.ty
        if self.can(a, b.ty) is not None:
            return b.ty
        if self.can(b, a.ty) is not None:
            return a.ty
        raise Unsupported("no common type of %r and %r" % (a.ty, b.ty))

    def e_bin(self, e):
        op = e.op
        if op in ("&&", "||"):
            r = self.new("b")
            self.o("W %s;" % r)
            a = self.cond(e.a)
            self.o("%s = %s; if (%s%s) {" % (r, a, "" if op == "&&" else "!", r))
            b = self.cond(e.b)
            self.o("%s = %s; }" % (r, b))
            return V(BOOL, r)
        a = self.ex(e.a)
        b = self.ex(e.b)
        return self.binop(op, a, b)

    def binop(self, op, a, b, compound=None):
        if a.ty.k == "lit" and b.ty.k == "lit" and compound is None:
            r = fold(op, a.ty.n, b.ty.n)
            if isinstance(r, bool):
                return V(BOOL, "((W)%d)" % r)
            return V(lit(r), "0")
        if op in ("<<", ">>"):
            if a.ty.k == "lit":
                a = self.conv(a, U256 if a.ty.n >= 0 else Ty("int", 256))
            s = self.conv(b, self.mobile(b)).e
            if self.mobile(b).k != "uint":
                raise Unsupported("shift by signed amount")
            ty = a.ty
            if op == "<<":
                return V(ty, self.t(self.clean("y_shl(%s, %s)" % (s, a.e), ty)))
            if ty.k == "int":
                return V(ty, self.t("y_sar(%s, %s)" % (s, a.e)))
            return V(ty, self.t(self.clean("y_shr(%s, %s)" % (s, a.e), ty)))
        if op == "**":
            if a.ty.k == "lit":
                a = self.conv(a, U256 if a.ty.n >= 0 else Ty("int", 256))
            b = self.conv(b, self.mobile(b))
            ty = a.ty
            if ty.k != "uint":
                raise Unsupported("signed power")
            if self.unchecked:
                return V(ty, self.t(self.clean("y_exp(%s, %s)" % (a.e, b.e), ty)))
            return V(ty, self.t("c_exp(%s, %s, %d)" % (a.e, b.e, ty.n)))
        ty = self.common(a, b)
        if ty.isref():
            raise Unsupported("operator on references")
        a = self.conv(a, ty)
        b = self.conv(b, ty)
        if op in ("==", "!="):
            return V(BOOL, self.t("(W)(%s %s %s)" % (a.e, op, b.e)))
        if op in ("<", ">", "<=", ">="):
            if ty.k == "int":
                return V(BOOL, self.t("(W)((SW)%s %s (SW)%s)" % (a.e, op, b.e)))
            return V(BOOL, self.t("(W)(%s %s %s)" % (a.e, op, b.e)))
        if op in ("&", "|", "^"):
            return V(ty, self.t("%s %s %s" % (a.e, op, b.e)))
        return self.arith(op, a, b, ty)

    def e_assign(self, e):
        if e.op == "":
            r = self.ex(e.b)
            l = self.lv(e.a)
            if l[0] == "tuple" and r.ty.k == "tuple" and len(l[1]) == 1:
                l, r = l[1][0], r.c[0]
            self.store(l, r)
            if l[0] in ("loc", "mem", "memb", "sto"):
                return self.load(l)
            return V(Ty("tuple"), [])
        r = self.ex(e.b)
        l = self.lv(e.a)
        old = self.load(l)
        op = e.op
        if op in ("<<", ">>"):
            nv = self.binop(op, old, r, compound=True)
        else:
            nv = self.binop(op, old, self.conv(r, old.ty), compound=True)
        self.store(l, nv)
        return self.load(l)

    def e_new(self, e):
        return V(Ty("newty", x=e.ty), "0")

    def e_opts(self, e):
        v = self.ex(e.a)
        opts = {k: self.ex(x) for k, x in e.opts.items()}
        return V(Ty("opts", base=v.ty, x=(v, opts)), v.c)

    # ---- calls ----
    def to_type(self, e):
        v = self.ex(e)
        if v.ty.k == "typ":
            return v.ty.base
        if v.ty.k == "mod" and isinstance(v.ty.ref, CDef):
            return Ty("contract", ref=v.ty.ref)
        raise Unsupported("type expected (line %d)" % e.line)

    def e_call(self, e):
        if e.f.k == "member" and e.f.a.k == "id" and e.f.a.name == "abi" and e.f.name == "decode":
            return self.abi_decode(e)
        f = self.ex(e.f)
        opts = {}
        if f.ty.k == "opts":
            f, opts = f.ty.x
        k = f.ty.k
        if k == "typ":
            t = f.ty.base
            if t.k == "struct":
                return self.make_struct(t, e)
            if len(e.args) != 1:
                raise Unsupported("conversion arity")
            return self.conv_explicit(self.ex(e.args[0]), t)
        if k == "mod" and isinstance(f.ty.ref, CDef):
            return self.conv_explicit(self.ex(e.args[0]), Ty("contract", ref=f.ty.ref))
        if k == "newty":
            return self.new_obj(f.ty.x, e, opts)
        if k == "builtin":
            return self.builtin(f, e)
        if k == "error":
            raise Unsupported("error call")
        if k == "func":
            return self.call_funcs(f, e)
        raise Unsupported("call of %r (line %d)" % (f.ty, e.line))

    def conv_explicit(self, v, t):
        if t.k in ("bytes", "string"):
            if v.ty.k == "str":
                return self.conv(v, t.at("memory"))
            if v.ty.k in ("bytes", "string"):
                return V(Ty(t.k, loc=v.ty.loc), v.c)
        return self.conv(v, t, True)

    def make_struct(self, t, e):
        t = t.at("memory")
        ms = self.p.members(t.ref, "memory")
        args = e.args
        if e.names:
            d = dict(zip(e.names, args))
            args = [d[m] for m, _ in ms]
        if len(args) != len(ms):
            raise Unsupported("struct arity")
        vs = [self.conv(self.ex(a), mt) for a, (_, mt) in zip(args, ms)]
        p = self.t("rt_alloc(%d)" % (32 * len(ms)))
        for i, v in enumerate(vs):
            self.o("y_mstore(%s + %d, %s);" % (p, 32 * i, v.e))
        return V(t, p)

    def new_obj(self, ty, e, opts):
        t = self.type(ty, "memory")
        if t.k == "contract":
            c = t.ref
            ps = self.p.ptypes(c.ctor)[0] if c.ctor else []
            ps = [x.at("memory") for x in ps]
            vs = [self.conv(self.ex(a), x) for a, x in zip(e.args, ps)]
            salt = "0"
            if "salt" in opts:
                salt = self.conv(opts["salt"], B32).e
            r = self.t("rt_new(%d, %s, %d, %s, %d, %s)" % (self.p.index[id(c)], self.p.tdlist(ps), len(ps),
                                                       self.arr(vs), int("salt" in opts), salt))
            return V(t, r)
        n = self.conv(self.ex(e.args[0]), U256).e
        return V(t, self.t("rt_newdyn(%s, %s)" % (self.p.td(t), n)))

    def arr(self, vs):
        return "(W[]){%s}" % (", ".join(v.e for v in vs) or "0")

    def encode(self, tys, vs, sel=None):
        return self.t("rt_abi_encode(%s, %d, %s, %d, %s)" % (self.p.tdlist(tys), len(tys), self.arr(vs),
                                                         int(sel is not None), sel or "0"))

    def abi_args(self, args, packed=False):
        vs, ts = [], []
        for a in args:
            v = self.ex(a)
            if v.ty.k == "lit":
                t = U256 if not packed else self.mobile(v)
            elif v.ty.k == "str":
                t = BYTES
            else:
                t = v.ty.at("memory")
            vs.append(self.conv(v, t))
            ts.append(t)
        return ts, vs

    def abi_decode(self, e):
        d = self.ex(e.args[0])
        te = e.args[1]
        items = te.items if te.k == "tuple" else [te.a if te.k == "paren" else te]
        ts = [self.to_type(x) for x in items]
        ts = [t.at("memory") for t in ts]
        out = self.new("d")
        self.o("W %s[%d];" % (out, max(1, len(ts))))
        if d.ty.loc == "calldata":
            self.o("{ Src s_ = {fr->cd + (u64)%s, (u64)%s}; rt_abi_dec(%s, 0, %d, s_, 0, %s); }" % (
                d.c[0], d.c[1], self.p.tdlist(ts), len(ts), out))
        else:
            d = self.conv(d, BYTES)
            self.o("{ W n_ = y_mload(%s); u64 o_ = rt_range(%s + 32, n_); uint8_t *c_ = MEM + o_; Src s_ = {c_, (u64)n_};"
                   " rt_abi_dec(%s, 0, %d, s_, 0, %s); }" % (d.e, d.e, self.p.tdlist(ts), len(ts), out))
        vs = [V(t, "%s[%d]" % (out, i)) for i, t in enumerate(ts)]
        return vs[0] if len(vs) == 1 else V(Ty("tuple"), vs)

    def pick(self, fs, vs, bound):
        best = None
        for f in fs:
            ps = self.p.ptypes(f)[0] if not isinstance(f, tuple) else []
            off = 1 if bound else 0
            if len(ps) - off != len(vs):
                continue
            cost = 0
            for v, t in zip(vs, ps[off:]):
                c = self.can(v, t)
                if c is None:
                    cost = None
                    break
                cost += c
            if cost is not None and (best is None or cost < best[0]):
                best = (cost, f)
        if best is None:
            raise Unsupported("no matching function %s" % [getattr(f, "name", "?") for f in fs][:1])
        return best[1]

    def call_funcs(self, f, e):
        fs = f.ty.x
        kind = f.ty.ref[0] if f.ty.ref else None
        args = e.args
        if e.names:
            cand = [g for g in fs if not isinstance(g, tuple) and
                    [p.name for p in g.node.params] and set(p.name for p in g.node.params) == set(e.names)]
            if not cand:
                raise Unsupported("named arguments")
            d = dict(zip(e.names, args))
            args = [d[p.name] for p in cand[0].node.params]
            fs = cand
        vs = [self.ex(a) for a in args]
        if kind == "ext":
            fs = [g for g in fs]
            ext = []
            for g in fs:
                ext.append(g)
            return self.external(f.ty.ref[1], ext, vs)
        bound = f.ty.ref[1] if kind == "bound" else None
        g = self.pick(fs, vs, bound is not None)
        if g.contract is not None and g.contract.kind == "interface":
            raise Unsupported("call of an interface function")
        if g.contract is not None and g.contract.kind != "library" and self.ctx is None:
            raise Unsupported("contract function without contract")
        if g.node.body is None:
            raise Unsupported("call of a function without body")
        ps, rs = self.p.ptypes(g)
        if bound is not None:
            vs = [bound] + vs
        cs = []
        for v, t in zip(vs, ps):
            cs += self.conv(v, t).c
        fn = self.p.fname(g, self.ctx)
        outs = []
        names = []
        for t in rs:
            ns = [self.new("r") for _ in range(self.p.width(t))]
            for n in ns:
                self.o("W %s;" % n)
            names += ns
            outs.append(V(t, ns))
        self.o("%s(%s);" % (fn, ", ".join(cs + ["&" + n for n in names])))
        if len(outs) == 1:
            return outs[0]
        return V(Ty("tuple"), outs)

    def external(self, addr, fs, vs):
        if isinstance(fs[0], tuple):
            v = fs[0][1]
            t = self.p.type(v.node.ty, v.file, v.contract)
            ins = []
            while t.k in ("mapping", "array"):
                ins.append(t.x if t.k == "mapping" else U256)
                t = t.base
            name, ps, rs, sig = v.name, ins, [t], "%s(%s)" % (v.name, ",".join(self.p.canon(x) for x in ins))
        else:
            # calldata parameters accept memory arguments in external calls
            best = None
            for g in fs:
                ps0 = [t.at("memory") for t in self.p.ptypes(g)[0]]
                if len(ps0) != len(vs):
                    continue
                cost = 0
                for v, t in zip(vs, ps0):
                    c = self.can(v, t)
                    if c is None:
                        cost = None
                        break
                    cost += c
                if cost is not None and (best is None or cost < best[0]):
                    best = (cost, g)
            if best is None:
                raise Unsupported("no matching external function")
            g = best[1]
            ps, rs = self.p.ptypes(g)
            sig = self.p.sig(g)
        ps = [t.at("memory") for t in ps]
        rs = [t.at("memory") for t in rs]
        cs = [self.conv(v, t) for v, t in zip(vs, ps)]
        self.o("rt_extcall(%s, %s, %d, %s, (W)0x%08x << 224, %d);" % (
            addr, self.p.tdlist(ps), len(ps), self.arr(cs), self.p.selector(sig), 1 if not rs else 1))
        out = self.new("x")
        self.o("W %s[%d];" % (out, max(1, len(rs))))
        self.o("rt_extret(%s, %d, %s);" % (self.p.tdlist(rs), len(rs), out))
        res = [V(t, "%s[%d]" % (out, i)) for i, t in enumerate(rs)]
        return res[0] if len(res) == 1 else V(Ty("tuple"), res)

    def builtin(self, f, e):
        nm = f.ty.n
        A = e.args
        none = V(Ty("tuple"), [])
        if nm == "keccak256":
            v = self.ex(A[0])
            if v.ty.k == "str":
                v = self.conv(v, BYTES)
            v = self.conv(v, Ty(v.ty.k, loc="memory"))
            return V(B32, self.t("y_keccak256(%s + 32, y_mload(%s))" % (v.e, v.e)))
        if nm == "require":
            c = self.cond(A[0])
            self.o("if (!(%s)) {" % c)
            if len(A) == 1:
                self.o("rt_revert0();")
            elif A[1].k == "call":
                self.revert_error(A[1])
            else:
                self.revert_str(A[1])
            self.o("}")
            return none
        if nm == "assert":
            self.o("if (!(%s)) rt_panic(0x01);" % self.cond(A[0]))
            return none
        if nm == "revert":
            if A:
                self.revert_str(A[0])
            else:
                self.o("rt_revert0();")
            return none
        if nm in ("addmod", "mulmod"):
            a, b, c = (self.conv(self.ex(x), U256).e for x in A)
            self.o("if (%s == 0) rt_panic(0x12);" % c)
            return V(U256, self.t("y_%s(%s, %s, %s)" % (nm, a, b, c)))
        if nm in ("abi.encode", "abi.encodePacked"):
            ts, vs = self.abi_args(A, nm == "abi.encodePacked")
            if nm == "abi.encode":
                return V(BYTES, self.encode(ts, vs))
            return V(BYTES, self.t("rt_abi_packed(%s, %d, %s)" % (self.p.tdlist(ts), len(ts), self.arr(vs))))
        if nm in ("abi.encodeWithSelector", "abi.encodeWithSignature"):
            s = self.ex(A[0])
            if nm == "abi.encodeWithSelector":
                sel = self.conv(s, Ty("bytesN", 4)).e
            elif s.ty.k == "str":
                sel = "((W)0x%08x << 224)" % self.p.selector(s.ty.n.decode())
            else:
                b = self.conv(s, STRING).e
                sel = self.t("y_keccak256(%s + 32, y_mload(%s)) & ~MAXU(224)" % (b, b))
            ts, vs = self.abi_args(A[1:])
            return V(BYTES, self.encode(ts, vs, sel))
        if nm == "abi.encodeCall":
            g = self.ex(A[0])
            if g.ty.k != "func" or len(g.ty.x) != 1:
                raise Unsupported("encodeCall")
            ps = [t.at("memory") for t in self.p.ptypes(g.ty.x[0])[0]]
            items = A[1].items if A[1].k == "tuple" else [A[1]]
            vs = [self.conv(self.ex(a), t) for a, t in zip(items, ps)]
            return V(BYTES, self.encode(ps, vs, "((W)0x%08x << 224)" % self.p.selector(self.p.sig(g.ty.x[0]))))
        if nm == "bytes.concat":
            ts, vs = self.abi_args(A, True)
            return V(BYTES, self.t("rt_abi_packed(%s, %d, %s)" % (self.p.tdlist(ts), len(ts), self.arr(vs))))
        if nm == "array.push":
            b = f.e
            t = f.ty.base
            n = self.t("y_sload(%s)" % b)
            self.o("y_sstore(%s, %s + 1);" % (b, n))
            lv = ("sto", self.t("slot_kec(%s) + %s * %d" % (b, n, self.p.slots(t.base))), t.base)
            if A:
                self.store(lv, self.ex(A[0]))
                return none
            r = self.load(lv)
            r.lv = lv
            return r
        if nm == "array.pop":
            b = f.e
            t = f.ty.base
            n = self.t("y_sload(%s)" % b)
            self.o("if (%s == 0) rt_panic(0x31);" % n)
            self.o("rt_stoclear(%s, slot_kec(%s) + (%s - 1) * %d); y_sstore(%s, %s - 1);" % (
                self.p.td(t.base), b, n, self.p.slots(t.base), b, n))
            return none
        if nm == "addr.call":
            d = self.conv(self.ex(A[0]), BYTES).e
            r = self.new("q")
            self.o("W %s;" % r)
            ok = self.t("rt_lowcall(%s, %s, &%s)" % (f.e, d, r))
            return V(Ty("tuple"), [V(BOOL, ok), V(BYTES, r)])
        if nm.startswith("console."):
            for a in A:
                self.ex(a)
            return none
        if nm == "vm.readFile":
            v = self.ex(A[0])
            b = self.conv(v, STRING).e
            return V(STRING, self.t("rt_readfile(%s)" % b))
        if nm == "vm.etch":
            a = self.conv(self.ex(A[0]), ADDR).e
            b = self.conv(self.ex(A[1]), BYTES).e
            self.o("{ W n_ = y_mload(%s); u64 o_ = rt_range(%s + 32, n_); rt_newacct(%s, -1, MEM + o_, (u64)n_); }" % (
                b, b, a))
            return none
        if nm in ("gasleft",):
            return V(U256, "((W)1000000000)")
        if nm == "blockhash":
            return V(B32, "((W)0)")
        raise Unsupported("builtin %s (line %d)" % (nm, e.line))

    def revert_str(self, a):
        v = self.ex(a)
        if v.ty.k == "str":
            self.o("rt_error(%s, %d);" % (cstr_bytes(v.ty.n), len(v.ty.n)))
        else:
            m = self.encode([STRING], [self.conv(v, STRING)], "((W)0x08c379a0 << 224)")
            self.o("y_revert(%s + 32, y_mload(%s));" % (m, m))

    # ---- assembly ----
    def s_asm(self, s):
        self.ys = [{}]
        self.yblock(s.body)

    def yblock(self, b, own=True):
        self.o("{")
        if own:
            self.ys.append({})
        # functions are visible in the whole block
        for st in b.body:
            if st.k == "yfun":
                self.yfun_declare(st)
        for st in b.body:
            self.ystmt(st)
        if own:
            self.ys.pop()
        self.o("}")

    def yfun_declare(self, st):
        self.p.uid += 1
        nm = "Y_%s_%d" % ("".join(c if c.isalnum() else "_" for c in st.name), self.p.uid)
        self.ys[-1][st.name] = ("fun", nm, len(st.params), len(st.rets), st)

    def ylookup(self, name):
        for s in reversed(self.ys):
            if name in s:
                return s[name]
        return None

    def yfun_emit(self, st):
        ent = self.ylookup(st.name)
        g = Gen(self.p, self.f, self.ctx, self.file, self.contract)
        g.scopes = []           # no access to Solidity locals
        g.noloc = True
        funs = {}
        for s in self.ys:
            for k, v in s.items():
                if v[0] == "fun":
                    funs[k] = v
        g.ys = [funs, {}]
        ps = []
        for i, a in enumerate(st.params):
            c = g.new("y" + a)
            ps.append("W " + c)
            g.ys[-1][a] = ("var", c)
        rs = []
        for i, a in enumerate(st.rets):
            c = g.new("y" + a)
            g.o("W %s = 0;" % c)
            g.ys[-1][a] = ("var", c)
            rs.append(c)
        g.leave = g.new("Lleave")
        g.yblock(st.body)
        g.o("%s:;" % g.leave)
        for i, c in enumerate(rs):
            g.o("*o%d = %s;" % (i, c))
        sig = "static void %s(%s)" % (ent[1], ", ".join(ps + ["W *o%d" % i for i in range(len(rs))]) or "void")
        self.p.protos.append(sig + ";")
        self.p.out.append("\n".join([sig + " {"] + g.L + ["}"]))

    def ystmt(self, s):
        k = s.k
        if k == "yblock":
            self.yblock(s)
        elif k == "yfun":
            self.yfun_emit(s)
        elif k == "ylet":
            if len(s.names) == 1:
                v = self.yx(s.e) if s.e is not None else "0"
                c = self.new("y" + s.names[0])
                self.o("W %s = %s;" % (c, v))
                self.ys[-1][s.names[0]] = ("var", c)
            else:
                vals = self.ymulti(s.e, len(s.names)) if s.e is not None else ["0"] * len(s.names)
                for n, v in zip(s.names, vals):
                    c = self.new("y" + n)
                    self.o("W %s = %s;" % (c, v))
                    self.ys[-1][n] = ("var", c)
        elif k == "yassign":
            if len(s.names) == 1:
                v = self.yx(s.e)
                self.o("%s = %s;" % (self.yvar(s.names[0]), v))
            else:
                vals = self.ymulti(s.e, len(s.names))
                for n, v in zip(s.names, vals):
                    self.o("%s = %s;" % (self.yvar(n), v))
        elif k == "yexpr":
            self.o("{")
            self.yvoid(s.e)
            self.o("}")
        elif k == "yif":
            self.o("{")
            self.o("if (%s) {" % self.yx(s.c))
            self.yblock(s.body)
            self.o("} }")
        elif k == "yswitch":
            self.o("{")
            c = self.t(self.yx(s.c))
            first = True
            for v, b in s.cases:
                self.o("%sif (%s == %s) {" % ("" if first else "else ", c, self.yx(v)))
                self.yblock(b)
                self.o("}")
                first = False
            if s.dflt is not None:
                self.o("{" if first else "else {")
                self.yblock(s.dflt)
                self.o("}")
            self.o("}")
        elif k == "yfor":
            b, c = self.new("Lb"), self.new("Lc")
            self.o("{")
            self.ys.append({})
            for st in s.init.body:
                if st.k == "yfun":
                    raise Unsupported("function in loop initialiser")
                self.ystmt(st)
            self.o("for (;;) { rt_loop(); {")
            self.o("if (!(%s)) goto %s; }" % (self.yx(s.c), b))
            self.loops.append((b, c))
            self.yblock(s.body)
            self.loops.pop()
            self.o("%s:;" % c)
            self.yblock(s.post)
            self.o("} %s:;" % b)
            self.ys.pop()
            self.o("}")
        elif k == "ybreak":
            self.o("goto %s;" % self.loops[-1][0])
        elif k == "ycontinue":
            self.o("goto %s;" % self.loops[-1][1])
        elif k == "yleave":
            self.o("goto %s;" % self.leave)
        else:
            raise Unsupported("assembly statement " + k)

    def yvar(self, name):
        v = self.ylookup(name)
        if v:
            if v[0] != "var":
                raise Unsupported("assignment to " + name)
            return v[1]
        base, _, suf = name.partition(".")
        for s in reversed(self.scopes):
            if base in s:
                ty, cs = s[base]
                if suf == "length" and len(cs) == 2:
                    return cs[1]
                if suf == "offset" and len(cs) == 2:
                    return cs[0]
                if not suf:
                    return cs[0]
                if suf == "slot" and ty.loc == "storage":
                    return cs[0]
        raise Unsupported("assembly variable " + name)

    def yx(self, e):
        """assembly expression with one value; returns a C expression evaluated at once (temporaries for effects)"""
        if e.k == "ynum":
            return clit(e.v)
        if e.k == "yid":
            return self.yid(e)
        # call
        v = self.ylookup(e.name)
        if v and v[0] == "fun":
            return self.ymulti(e, 1)[0]
        n = e.name
        if n in YPURE:
            if len(e.args) != YPURE[n]:
                raise Unsupported("assembly arity " + n)
            return "y_%s(%s)" % (n, ", ".join(self.yargs(e.args)))
        if n in YZERO:
            return "y_zero%d(%s)" % (YZERO[n], ", ".join(self.yargs(e.args)))
        if n in YVALUE:
            return self.t("y_%s(%s)" % (n, ", ".join(self.yargs(e.args, True))))
        raise Unsupported("assembly function " + n)

    def pure(self, e):
        if e.k != "ycall":
            return True
        return e.name in YPURE and not self.ylookup(e.name) and all(self.pure(a) for a in e.args)

    def yargs(self, args, force=False):
        if all(self.pure(a) for a in args):
            return [self.yx(a) for a in args]
        vals = [self.t(self.yx(a)) for a in reversed(args)]
        return list(reversed(vals))

    def ymulti(self, e, n):
        v = self.ylookup(e.name) if e.k == "ycall" else None
        if not v or v[0] != "fun":
            raise Unsupported("assembly multiple values")
        if v[3] != n or v[2] != len(e.args):
            raise Unsupported("assembly function arity")
        a = self.yargs(e.args)
        outs = []
        for i in range(n):
            o = self.new("z")
            self.o("W %s;" % o)
            outs.append(o)
        self.o("%s(%s);" % (v[1], ", ".join(a + ["&" + o for o in outs])))
        return outs

    def yid(self, e):
        n = e.name
        v = self.ylookup(n)
        if v:
            if v[0] != "var":
                raise Unsupported("function as value")
            return v[1]
        base, _, suf = n.partition(".")
        for s in reversed(self.scopes):
            if base in s:
                return self.yvar(n)
        sv = self.statevar(base)
        if sv:
            if suf == "slot":
                return sv[0]
            if suf == "offset":
                return "((W)0)"
            raise Unsupported("state variable in assembly")
        c = self.p.find_const(base, self.file, self.contract or self.ctx)
        if c is not None and not suf:
            x = self.p.ceval(N("id", e.line, name=base), self.file, self.contract or self.ctx)
            if not isinstance(x, int):
                raise Unsupported("fraction")
            return clit(x)
        raise Unsupported("unknown assembly name " + n)

    def yvoid(self, e):
        if e.k != "ycall":
            raise Unsupported("assembly expression statement")
        v = self.ylookup(e.name)
        if v and v[0] == "fun":
            self.ymulti(e, v[3])
            return
        n = e.name
        if n in YVOID:
            if len(e.args) != YVOID[n]:
                raise Unsupported("assembly arity " + n)
            self.o("y_%s(%s);" % (n, ", ".join(self.yargs(e.args))))
            return
        if n == "pop":
            self.o("(void)(%s);" % self.yx(e.args[0]))
            return
        if n.startswith("log") and n[3:].isdigit():
            for a in self.yargs(e.args):
                self.o("(void)(%s);" % a)
            return
        raise Unsupported("assembly function " + n)


class CtorGen:
    def __init__(self, prog, c):
        self.p = prog
        self.c = c

    def emit(self):
        p, c = self.p, self.c
        g = Gen(p, None, c, c.file, c)
        lin = p.linear(c)
        args = {}
        if c.ctor:
            ps = [t.at("memory") for t in p.ptypes(c.ctor)[0]]
            if ps:
                g.o("W in[%d]; Src s = {args, n};" % len(ps))
                g.o("rt_abi_dec(%s, 0, %d, s, 0, in);" % (p.tdlist(ps), len(ps)))
            args[id(c)] = [V(t, "in[%d]" % i) for i, t in enumerate(ps)]
        scopes = {}
        # arguments of base constructors, most derived first
        for b in lin:
            sc = {}
            if b.ctor:
                vals = args.get(id(b))
                ps = p.ptypes(b.ctor)[0]
                if vals is None:
                    if ps:
                        raise Unsupported("base constructor arguments of %s" % b.name)
                    vals = []
                g.scopes = [sc]
                for prm, t, v in zip(b.ctor.node.params, ps, vals):
                    g.declare(prm.name, t, g.conv(v, t).c)
            scopes[id(b)] = sc
            g.file, g.contract, g.scopes = b.file, b, [sc]
            specs = list(b.node.bases) + ([(m, a) for m, a in b.ctor.node.mods] if b.ctor else [])
            for path, a in specs:
                if a is None:
                    continue
                e = p.path_entity(path, b.file, b)
                if e and e[0][0] == "contract":
                    args[id(e[0][1])] = [g.ex(x) for x in a]
        for b in reversed(lin):
            g.file, g.contract = b.file, b
            g.scopes = [{}]
            lay = p.layout(c)
            for v in b.vars:
                if v.node.const or v.node.init is None:
                    continue
                if id(v) not in lay:
                    raise Unsupported("state variable " + v.name)
                slot, t = lay[id(v)]
                g.o("{")
                g.store(("sto", clit(slot), t), g.ex(v.node.init))
                g.o("}")
            if b.ctor:
                g.scopes = [scopes[id(b)]]
                lab = g.new("Lret")
                g.retlabels = [lab]
                g.o("{")
                g.with_mods([m for m in b.ctor.node.mods], b.ctor.node.body)
                g.o("%s:; }" % lab)
        g.o("rt_setret(0, 0);")
        return g.L


def cstr_bytes(b):
    return '"' + "".join(chr(x) if 32 <= x < 127 and chr(x) not in '"\\?' else "\\%03o" % x for x in b) + '"'
