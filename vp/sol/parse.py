"""Lexer and recursive-descent parser for Solidity 0.8 and its inline assembly.

Produces plain N nodes; no name resolution here."""
import re


class SolError(Exception):
    pass


class N:
    __slots__ = ("k", "line", "__dict__")

    def __init__(self, k, line, **kw):
        self.k = k
        self.line = line
        self.__dict__.update(kw)

    def __repr__(self):
        return "N(%s@%s %s)" % (self.k, self.line, {a: b for a, b in self.__dict__.items() if a not in ("k", "line")})


TOK = re.compile(r"""
 (?P<ws>\s+|//[^\n]*|/\*.*?\*/)
|(?P<hexs>\bhex\s*(?:"[0-9a-fA-F_]*"|'[0-9a-fA-F_]*'))
|(?P<str>(?:\bunicode)?"(?:\\.|[^"\\\n])*"|(?:\bunicode)?'(?:\\.|[^'\\\n])*')
|(?P<num>0[xX][0-9a-fA-F_]+|(?:\d[\d_]*)?\.?\d[\d_]*(?:[eE]-?\d+)?)
|(?P<id>[A-Za-z_$][\w$]*)
|(?P<op>>>>=|>>>|<<=|>>=|\*\*|=>|->|:=|\+\+|--|\+=|-=|\*=|/=|%=|\|=|&=|\^=|==|!=|<=|>=|&&|\|\||<<|>>|[-+*/%&|^~!<>=?:;,.(){}\[\]])
""", re.X | re.S)

ELEM = re.compile(r"^(u?int(\d+)?|bytes(\d+)|bytes|string|bool|address|byte)$")


class Tok:
    __slots__ = ("t", "v", "line")

    def __init__(self, t, v, line):
        self.t, self.v, self.line = t, v, line

    def __repr__(self):
        return "%s:%r@%d" % (self.t, self.v, self.line)


def unescape(s):
    out = bytearray()
    i = 0
    while i < len(s):
        c = s[i]
        if c != "\\":
            out += c.encode("utf-8")
            i += 1
            continue
        e = s[i + 1]
        if e == "x":
            out.append(int(s[i + 2:i + 4], 16))
            i += 4
        elif e == "u":
            out += chr(int(s[i + 2:i + 6], 16)).encode("utf-8")
            i += 6
        elif e == "\n":
            i += 2
        else:
            out += {"n": b"\n", "r": b"\r", "t": b"\t", "\\": b"\\", "'": b"'", '"': b'"', "b": b"\b", "f": b"\f",
                    "v": b"\v", "0": b"\0"}[e]
            i += 2
    return bytes(out)


def lex(src):
    toks = []
    pos = 0
    line = 1
    n = len(src)
    while pos < n:
        m = TOK.match(src, pos)
        if not m:
            raise SolError("line %d: cannot read %r" % (line, src[pos:pos + 20]))
        t = m.lastgroup
        v = m.group()
        if t != "ws":
            if t == "hexs":
                v = bytes.fromhex(v[v.index(v[-1]) + 1:-1].replace("_", ""))
                t = "hex"
            elif t == "str":
                if v.startswith("unicode"):
                    v = v[7:]
                v = unescape(v[1:-1])
            toks.append(Tok(t, v, line))
        line += m.group().count("\n")
        pos = m.end()
    toks.append(Tok("eof", "", line))
    return toks


def num(v):
    v = v.replace("_", "")
    if v[:2] in ("0x", "0X"):
        return int(v, 16)
    from fractions import Fraction
    if "e" in v or "E" in v:
        a, b = re.split("[eE]", v)
        f = Fraction(a) * Fraction(10) ** int(b)
    else:
        f = Fraction(v)
    return int(f) if f.denominator == 1 else f


UNITS = {"wei": 1, "gwei": 10 ** 9, "ether": 10 ** 18, "seconds": 1, "minutes": 60, "hours": 3600, "days": 86400,
         "weeks": 604800}
BIN = [["||"], ["&&"], ["==", "!="], ["<", ">", "<=", ">="], ["|"], ["^"], ["&"], ["<<", ">>"], ["+", "-"],
       ["*", "/", "%"]]
ASG = {"=", "+=", "-=", "*=", "/=", "%=", "|=", "&=", "^=", "<<=", ">>="}
LOCS = ("memory", "storage", "calldata")


class P:
    def __init__(self, src, name="?"):
        self.t = lex(src)
        self.i = 0
        self.name = name

    # helpers
    @property
    def c(self):
        return self.t[self.i]

    def la(self, k=1):
        return self.t[min(self.i + k, len(self.t) - 1)]

    def err(self, what):
        raise SolError("%s:%d: expected %s, found %r" % (self.name, self.c.line, what, self.c.v))

    def isop(self, v, k=0):
        t = self.la(k)
        return t.t == "op" and t.v == v

    def isid(self, v, k=0):
        t = self.la(k)
        return t.t == "id" and t.v == v

    def acc(self, v):
        if self.c.t in ("op", "id") and self.c.v == v:
            self.i += 1
            return True
        return False

    def exp(self, v):
        if not self.acc(v):
            self.err(repr(v))

    def ident(self):
        if self.c.t != "id":
            self.err("identifier")
        v = self.c.v
        self.i += 1
        return v

    # source
    def source(self):
        out = []
        while self.c.t != "eof":
            out.append(self.unit())
        return [x for x in out if x is not None]

    def unit(self):
        ln = self.c.line
        if self.isid("pragma"):
            while not self.isop(";"):
                self.i += 1
            self.exp(";")
            return None
        if self.isid("import"):
            return self.imp()
        if self.c.v in ("contract", "library", "interface", "abstract"):
            return self.contract()
        if self.isid("struct"):
            return self.struct()
        if self.isid("enum"):
            return self.enum()
        if self.isid("error") and self.la().t == "id":
            return self.error()
        if self.isid("event"):
            return self.event()
        if self.isid("using"):
            return self.using()
        if self.isid("type"):
            self.i += 1
            nm = self.ident()
            self.exp("is")
            ty = self.type()
            self.exp(";")
            return N("udvt", ln, name=nm, ty=ty)
        if self.isid("function"):
            return self.function()
        return self.statevar()

    def imp(self):
        ln = self.c.line
        self.exp("import")
        if self.c.t == "str":
            path = self.c.v.decode()
            self.i += 1
            alias = None
            if self.acc("as"):
                alias = self.ident()
            self.exp(";")
            return N("import", ln, path=path, names=None, alias=alias)
        if self.acc("*"):
            self.exp("as")
            alias = self.ident()
            self.exp("from")
            path = self.c.v.decode()
            self.i += 1
            self.exp(";")
            return N("import", ln, path=path, names=None, alias=alias)
        self.exp("{")
        names = []
        while not self.isop("}"):
            a = self.ident()
            b = a
            if self.acc("as"):
                b = self.ident()
            names.append((a, b))
            if not self.acc(","):
                break
        self.exp("}")
        self.exp("from")
        path = self.c.v.decode()
        self.i += 1
        self.exp(";")
        return N("import", ln, path=path, names=names, alias=None)

    def contract(self):
        ln = self.c.line
        abstract = self.acc("abstract")
        kind = self.ident()
        name = self.ident()
        bases = []
        if self.acc("is"):
            while True:
                p = self.path()
                args = None
                if self.isop("("):
                    args = self.args()[0]
                bases.append((p, args))
                if not self.acc(","):
                    break
        self.exp("{")
        items = []
        while not self.acc("}"):
            items.append(self.member())
        return N("contract", ln, kind=kind, name=name, bases=bases, items=[x for x in items if x], abstract=abstract)

    def path(self):
        p = [self.ident()]
        while self.isop(".") and self.la().t == "id":
            self.i += 1
            p.append(self.ident())
        return p

    def member(self):
        v = self.c.v if self.c.t == "id" else None
        if v == "struct":
            return self.struct()
        if v == "enum":
            return self.enum()
        if v == "error" and self.la().t == "id" and self.isop("(", 2):
            return self.error()
        if v == "event":
            return self.event()
        if v == "using":
            return self.using()
        if v == "modifier":
            return self.modifier()
        if v == "type" and self.la().t == "id" and self.isid("is", 2):
            return self.unit()
        if v in ("function", "constructor", "fallback", "receive") and (v != "function" or self.la().t == "id"):
            return self.function()
        return self.statevar()

    def struct(self):
        ln = self.c.line
        self.exp("struct")
        nm = self.ident()
        self.exp("{")
        ms = []
        while not self.acc("}"):
            ty = self.type()
            m = self.ident()
            self.exp(";")
            ms.append((m, ty))
        return N("struct", ln, name=nm, members=ms)

    def enum(self):
        ln = self.c.line
        self.exp("enum")
        nm = self.ident()
        self.exp("{")
        ms = []
        while not self.isop("}"):
            ms.append(self.ident())
            if not self.acc(","):
                break
        self.exp("}")
        return N("enum", ln, name=nm, members=ms)

    def error(self):
        ln = self.c.line
        self.exp("error")
        nm = self.ident()
        ps = self.params()
        self.exp(";")
        return N("error", ln, name=nm, params=ps)

    def event(self):
        ln = self.c.line
        self.exp("event")
        nm = self.ident()
        while not self.isop(";"):
            self.i += 1
        self.exp(";")
        return N("event", ln, name=nm)

    def using(self):
        ln = self.c.line
        self.exp("using")
        fs = []
        lib = None
        if self.acc("{"):
            while not self.isop("}"):
                p = self.path()
                op = None
                if self.acc("as"):
                    op = self.c.v
                    self.i += 1
                fs.append((p, op))
                if not self.acc(","):
                    break
            self.exp("}")
        else:
            lib = self.path()
        self.exp("for")
        ty = None
        if not self.acc("*"):
            ty = self.type()
        glob = self.acc("global")
        self.exp(";")
        return N("using", ln, lib=lib, funcs=fs, ty=ty, glob=glob)

    def modifier(self):
        ln = self.c.line
        self.exp("modifier")
        nm = self.ident()
        ps = self.params() if self.isop("(") else []
        while self.c.v in ("virtual", "override"):
            self.i += 1
            if self.isop("("):
                self.skipparen()
        body = None
        if not self.acc(";"):
            body = self.body()
        return N("modifier", ln, name=nm, params=ps, body=body)

    def skipparen(self):
        d = 0
        while True:
            if self.isop("("):
                d += 1
            if self.isop(")"):
                d -= 1
            self.i += 1
            if d == 0:
                return

    def params(self):
        self.exp("(")
        ps = []
        while not self.isop(")"):
            ty = self.type()
            loc = None
            nm = None
            while self.c.t == "id":
                if self.c.v in LOCS:
                    loc = self.ident()
                elif self.c.v in ("indexed", "payable"):
                    self.i += 1
                else:
                    nm = self.ident()
                    break
            ps.append(N("param", self.c.line, name=nm, ty=ty, loc=loc))
            if not self.acc(","):
                break
        self.exp(")")
        return ps

    def function(self):
        ln = self.c.line
        kind = self.ident()
        nm = kind
        if kind == "function":
            nm = self.ident()
            kind = "function"
        ps = self.params()
        vis = None
        mut = None
        mods = []
        rets = []
        virt = False
        while True:
            if self.c.t != "id":
                break
            v = self.c.v
            if v in ("external", "public", "internal", "private"):
                vis = v
                self.i += 1
            elif v in ("pure", "view", "payable", "constant"):
                mut = v
                self.i += 1
            elif v == "virtual":
                virt = True
                self.i += 1
            elif v == "override":
                self.i += 1
                if self.isop("("):
                    self.skipparen()
            elif v == "returns":
                self.i += 1
                rets = self.params()
            else:
                p = self.path()
                args = None
                if self.isop("("):
                    args = self.args()[0]
                mods.append((p, args))
        body = None
        if not self.acc(";"):
            body = self.body()
        return N("function", ln, kind=kind, name=nm, params=ps, vis=vis, mut=mut, mods=mods, rets=rets, body=body,
                 virtual=virt)

    def statevar(self):
        ln = self.c.line
        ty = self.type()
        vis = None
        const = False
        immut = False
        while self.c.t == "id" and (self.c.v in ("public", "private", "internal", "constant", "immutable", "override",
                                                 "transient")):
            v = self.ident()
            if v == "constant":
                const = True
            elif v == "immutable":
                immut = True
            elif v == "override":
                if self.isop("("):
                    self.skipparen()
            elif v != "transient":
                vis = v
        nm = self.ident()
        init = None
        if self.acc("="):
            init = self.expr()
        self.exp(";")
        return N("statevar", ln, name=nm, ty=ty, vis=vis, const=const, immut=immut, init=init)

    # types
    def type(self):
        ln = self.c.line
        if self.isid("mapping"):
            self.i += 1
            self.exp("(")
            k = self.type()
            if self.c.t == "id":
                self.i += 1
            self.exp("=>")
            v = self.type()
            if self.c.t == "id":
                self.i += 1
            self.exp(")")
            t = N("tmap", ln, key=k, val=v)
        elif self.isid("function"):
            self.i += 1
            self.skipparen()
            while self.c.v in ("internal", "external", "public", "private", "pure", "view", "payable"):
                self.i += 1
            if self.acc("returns"):
                self.skipparen()
            t = N("tuser", ln, path=["function type"])
        elif self.c.t == "id" and ELEM.match(self.c.v):
            v = self.ident()
            if v == "address" and self.isid("payable"):
                self.i += 1
            t = N("telem", ln, name=v)
        else:
            t = N("tuser", ln, path=self.path())
        while self.isop("["):
            self.i += 1
            ln2 = None
            if not self.isop("]"):
                ln2 = self.expr()
            self.exp("]")
            t = N("tarr", ln, base=t, len=ln2)
        return t

    # statements
    def body(self):
        s, ln = self.i, self.c.line
        try:
            return self.block()
        except SolError as e:       # the rest of the file may still be understood
            self.i = s
            d = 0
            while True:
                if self.isop("{"):
                    d += 1
                elif self.isop("}"):
                    d -= 1
                elif self.c.t == "eof":
                    raise
                self.i += 1
                if d == 0:
                    return N("bad", ln, msg=str(e))

    def block(self):
        ln = self.c.line
        self.exp("{")
        ss = []
        while not self.acc("}"):
            ss.append(self.stmt())
        return N("block", ln, body=ss, unchecked=False)

    def stmt(self):
        ln = self.c.line
        t = self.c
        if self.isop("{"):
            return self.block()
        if t.t == "id":
            v = t.v
            if v == "unchecked" and self.isop("{", 1):
                self.i += 1
                b = self.block()
                b.unchecked = True
                return b
            if v == "if":
                self.i += 1
                self.exp("(")
                c = self.expr()
                self.exp(")")
                a = self.stmt()
                b = None
                if self.acc("else"):
                    b = self.stmt()
                return N("if", ln, cond=c, a=a, b=b)
            if v == "while":
                self.i += 1
                self.exp("(")
                c = self.expr()
                self.exp(")")
                return N("while", ln, cond=c, body=self.stmt())
            if v == "do":
                self.i += 1
                b = self.stmt()
                self.exp("while")
                self.exp("(")
                c = self.expr()
                self.exp(")")
                self.exp(";")
                return N("do", ln, cond=c, body=b)
            if v == "for":
                self.i += 1
                self.exp("(")
                init = None
                if not self.acc(";"):
                    init = self.simple()
                    self.exp(";")
                c = None
                if not self.isop(";"):
                    c = self.expr()
                self.exp(";")
                post = None
                if not self.isop(")"):
                    post = self.expr()
                self.exp(")")
                return N("for", ln, init=init, cond=c, post=post, body=self.stmt())
            if v == "return":
                self.i += 1
                e = None
                if not self.isop(";"):
                    e = self.expr()
                self.exp(";")
                return N("return", ln, e=e)
            if v in ("break", "continue"):
                self.i += 1
                self.exp(";")
                return N(v, ln)
            if v == "_" and self.isop(";", 1):
                self.i += 2
                return N("placeholder", ln)
            if v == "emit":
                self.i += 1
                e = self.expr()
                self.exp(";")
                return N("emit", ln, e=e)
            if v == "assembly":
                self.i += 1
                if self.c.t == "str":
                    self.i += 1
                if self.isop("("):
                    self.skipparen()
                return N("asm", ln, body=self.yblock())
            if v == "revert" and self.la().t == "id":
                self.i += 1
                e = self.expr()
                self.exp(";")
                return N("reverterr", ln, e=e)
            if v == "try":
                raise SolError("%s:%d: try is not supported" % (self.name, ln))
        s = self.simple()
        self.exp(";")
        return s

    def isdecl(self):
        """Does a variable declaration start here?"""
        s = self.i
        try:
            if self.c.t != "id" or self.c.v in ("delete", "new"):
                return False
            if self.isid("mapping"):
                return True
            try:
                self.type()
            except SolError:
                return False
            return self.c.t == "id" and self.c.v not in UNITS
        finally:
            self.i = s

    def simple(self):
        ln = self.c.line
        if self.isop("("):
            s = self.i
            d = self.tupledecl()
            if d is not None:
                return d
            self.i = s
        elif self.isdecl():
            ty = self.type()
            loc = None
            if self.c.v in LOCS:
                loc = self.ident()
            nm = self.ident()
            init = None
            if self.acc("="):
                init = self.expr()
            return N("decl", ln, vars=[N("param", ln, name=nm, ty=ty, loc=loc)], init=init, tup=False)
        return N("expr", ln, e=self.expr())

    def tupledecl(self):
        ln = self.c.line
        try:
            self.exp("(")
            vs = []
            while True:
                if self.isop(",") or self.isop(")"):
                    vs.append(None)
                else:
                    if not self.isdecl():
                        return None
                    ty = self.type()
                    loc = None
                    if self.c.v in LOCS:
                        loc = self.ident()
                    vs.append(N("param", ln, name=self.ident(), ty=ty, loc=loc))
                if self.acc(","):
                    continue
                break
            self.exp(")")
            if not any(vs) or not self.acc("="):
                return None
        except SolError:
            return None
        return N("decl", ln, vars=vs, init=self.expr(), tup=True)

    # expressions
    def expr(self):
        ln = self.c.line
        a = self.tern()
        if self.c.t == "op" and self.c.v in ASG:
            op = self.c.v
            self.i += 1
            b = self.expr()
            return N("assign", ln, op=op[:-1], a=a, b=b)
        return a

    def tern(self):
        ln = self.c.line
        c = self.bin(0)
        if self.acc("?"):
            a = self.expr()
            self.exp(":")
            b = self.expr()
            return N("cond", ln, c=c, a=a, b=b)
        return c

    def bin(self, lv):
        if lv == len(BIN):
            return self.pow()
        a = self.bin(lv + 1)
        while self.c.t == "op" and self.c.v in BIN[lv]:
            ln = self.c.line
            op = self.c.v
            self.i += 1
            b = self.bin(lv + 1)
            a = N("bin", ln, op=op, a=a, b=b)
        return a

    def pow(self):
        a = self.unary()
        if self.isop("**"):
            ln = self.c.line
            self.i += 1
            b = self.pow()
            return N("bin", ln, op="**", a=a, b=b)
        return a

    def unary(self):
        ln = self.c.line
        if self.c.t == "op" and self.c.v in ("!", "~", "-", "++", "--"):
            op = self.c.v
            self.i += 1
            return N("un", ln, op=op, a=self.unary())
        if self.isid("delete"):
            self.i += 1
            return N("delete", ln, a=self.unary())
        return self.postfix()

    def postfix(self):
        e = self.primary()
        while True:
            ln = self.c.line
            if self.acc("."):
                e = N("member", ln, a=e, name=self.ident())
            elif self.isop("["):
                self.i += 1
                a = b = None
                sl = False
                if not self.isop("]"):
                    if not self.isop(":"):
                        a = self.expr()
                    if self.acc(":"):
                        sl = True
                        if not self.isop("]"):
                            b = self.expr()
                self.exp("]")
                e = N("slice", ln, a=e, lo=a, hi=b) if sl else N("index", ln, a=e, i=a)
            elif self.isop("("):
                args, names = self.args()
                e = N("call", ln, f=e, args=args, names=names)
            elif self.isop("{") and self.la().t == "id" and self.isop(":", 2) and e.k in ("member", "new", "call"):
                self.i += 1
                opts = {}
                while not self.isop("}"):
                    k = self.ident()
                    self.exp(":")
                    opts[k] = self.expr()
                    if not self.acc(","):
                        break
                self.exp("}")
                e = N("opts", ln, a=e, opts=opts)
            elif self.isop("++") or self.isop("--"):
                op = self.c.v
                self.i += 1
                e = N("post", ln, op=op, a=e)
            else:
                return e

    def args(self):
        self.exp("(")
        out = []
        names = None
        if self.isop("{"):
            self.i += 1
            names = []
            while not self.isop("}"):
                names.append(self.ident())
                self.exp(":")
                out.append(self.expr())
                if not self.acc(","):
                    break
            self.exp("}")
            self.exp(")")
            return out, names
        while not self.isop(")"):
            out.append(self.expr())
            if not self.acc(","):
                break
        self.exp(")")
        return out, names

    def primary(self):
        t = self.c
        ln = t.line
        if t.t == "num":
            self.i += 1
            v = num(t.v)
            if self.c.t == "id" and self.c.v in UNITS:
                v *= UNITS[self.ident()]
            return N("num", ln, v=v, hexlen=len(t.v) - 2 if t.v[:2] in ("0x", "0X") else None)
        if t.t in ("str", "hex"):
            v = b""
            while self.c.t == t.t:
                v += self.c.v
                self.i += 1
            return N("str", ln, v=v)
        if self.acc("("):
            items = []
            comma = False
            while True:
                if self.isop(")"):
                    if comma:
                        items.append(None)
                    break
                if self.isop(","):
                    items.append(None)
                else:
                    items.append(self.expr())
                if self.acc(","):
                    comma = True
                    continue
                break
            self.exp(")")
            if len(items) == 1 and not comma:
                return N("paren", ln, a=items[0])
            return N("tuple", ln, items=items)
        if self.acc("["):
            items = []
            while not self.isop("]"):
                items.append(self.expr())
                if not self.acc(","):
                    break
            self.exp("]")
            return N("arrlit", ln, items=items)
        if t.t == "id":
            if t.v == "new":
                self.i += 1
                return N("new", ln, ty=self.type())
            if t.v in ("true", "false"):
                self.i += 1
                return N("bool", ln, v=t.v == "true")
            if t.v == "type" and self.isop("(", 1):
                self.i += 2
                ty = self.type()
                self.exp(")")
                return N("typeof", ln, ty=ty)
            if t.v == "payable" and self.isop("(", 1):
                self.i += 1
                return N("telemx", ln, ty=N("telem", ln, name="address"))
            if ELEM.match(t.v):
                self.i += 1
                ty = N("telem", ln, name=t.v)
                while self.isop("[") and (self.isop("]", 1)):
                    self.i += 2
                    ty = N("tarr", ln, base=ty, len=None)
                if self.isop("[") and self.la().t in ("num", "id") and self.isop("]", 2):
                    # uint256[32] as a type expression
                    self.i += 1
                    e = self.expr()
                    self.exp("]")
                    ty = N("tarr", ln, base=ty, len=e)
                return N("telemx", ln, ty=ty)
            self.i += 1
            return N("id", ln, name=t.v)
        self.err("expression")

    # assembly
    def yblock(self):
        ln = self.c.line
        self.exp("{")
        ss = []
        while not self.acc("}"):
            ss.append(self.ystmt())
        return N("yblock", ln, body=ss)

    def ystmt(self):
        ln = self.c.line
        if self.isop("{"):
            return self.yblock()
        v = self.c.v if self.c.t == "id" else None
        if v == "let":
            self.i += 1
            names = [self.yname()]
            while self.acc(","):
                names.append(self.yname())
            e = None
            if self.acc(":="):
                e = self.yexpr()
            return N("ylet", ln, names=names, e=e)
        if v == "if":
            self.i += 1
            c = self.yexpr()
            return N("yif", ln, c=c, body=self.yblock())
        if v == "switch":
            self.i += 1
            c = self.yexpr()
            cases = []
            dflt = None
            while self.acc("case"):
                val = self.yexpr()
                cases.append((val, self.yblock()))
            if self.acc("default"):
                dflt = self.yblock()
            return N("yswitch", ln, c=c, cases=cases, dflt=dflt)
        if v == "for":
            self.i += 1
            a = self.yblock()
            c = self.yexpr()
            b = self.yblock()
            return N("yfor", ln, init=a, c=c, post=b, body=self.yblock())
        if v in ("break", "continue", "leave"):
            self.i += 1
            return N("y" + v, ln)
        if v == "function":
            self.i += 1
            nm = self.yname()
            self.exp("(")
            ps = []
            while not self.isop(")"):
                ps.append(self.yname())
                if not self.acc(","):
                    break
            self.exp(")")
            rs = []
            if self.acc("->"):
                rs.append(self.yname())
                while self.acc(","):
                    rs.append(self.yname())
            return N("yfun", ln, name=nm, params=ps, rets=rs, body=self.yblock())
        if self.c.t == "id" and not self.isop("(", 1):
            names = [self.yname()]
            while self.acc(","):
                names.append(self.yname())
            self.exp(":=")
            return N("yassign", ln, names=names, e=self.yexpr())
        return N("yexpr", ln, e=self.yexpr())

    def yname(self):
        n = self.ident()
        while self.isop(".") and self.la().t == "id":
            self.i += 1
            n += "." + self.ident()
        return n

    def yexpr(self):
        ln = self.c.line
        t = self.c
        if t.t == "num":
            self.i += 1
            return N("ynum", ln, v=num(t.v))
        if t.t in ("str", "hex"):
            self.i += 1
            if len(t.v) > 32:
                raise SolError("%s:%d: assembly literal too long" % (self.name, ln))
            return N("ynum", ln, v=int.from_bytes(t.v.ljust(32, b"\0"), "big"))
        if t.t == "id":
            if t.v in ("true", "false"):
                self.i += 1
                return N("ynum", ln, v=int(t.v == "true"))
            nm = self.yname()
            if self.acc("("):
                args = []
                while not self.isop(")"):
                    args.append(self.yexpr())
                    if not self.acc(","):
                        break
                self.exp(")")
                return N("ycall", ln, name=nm, args=args)
            return N("yid", ln, name=nm)
        self.err("assembly expression")


def parse(src, name="?"):
    return P(src, name).source()
