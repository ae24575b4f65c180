"""Abstract interpretation of the C kernels that the package generates.

The text of a kernel is a value of the Python analysis; its meaning is decided here,
over symbolic memory: cells of 4-byte words (as in pynp), concrete control flow."""
import re
from . import terms as tm
from .terms import T
from .cxxeval import Undecided
from .pynp import D, DT, W, Bits, get, put, oarr


class CBug(Exception):
    """behaviour C does not define (or that does not compile)"""


class CStop(Exception):
    pass


TOK = re.compile(r"""\s+|//[^\n]*|/\*.*?\*/|(?P<num>(?:0[xX][0-9a-fA-F]+|(?:\d+\.\d*|\.\d+|\d+)(?:[eE][+-]?\d+)?)[fFlLuU]*)|(?P<id>[A-Za-z_]\w*)|(?P<str>"[^"\n]*")|(?P<op><<=|>>=|\+\+|--|\+=|-=|\*=|/=|%=|==|!=|<=|>=|&&|\|\||->|<<|>>|[-+*/%=<>!&|^~?:;,.(){}\[\]])""", re.S)
BASE = {"void", "double", "float", "int", "long", "bool", "_Bool", "uint8_t", "uint64_t", "int32_t", "int64_t", "ptrdiff_t", "size_t", "char", "unsigned", "signed", "short", "_Complex"}
QUAL = {"const", "static", "restrict", "extern", "inline", "register", "volatile", "__restrict", "__restrict__"}


def lex(text):
    text = re.sub(r"^[ \t]*#[^\n]*(?:\\\n[^\n]*)*", "", text, flags=re.M)
    out, p = [], 0
    while p < len(text):
        m = TOK.match(text, p)
        if not m:
            raise CBug("not C: %r" % text[p : p + 30])
        p = m.end()
        for k in ("num", "id", "str", "op"):
            if m.group(k) is not None:
                out.append((k, m.group(k)))
    out.append(("end", ""))
    return out


class Ty:
    """base type, pointer depth, array extents"""

    __slots__ = ("b", "p", "dims")

    def __init__(self, b, p=0, dims=()):
        self.b, self.p, self.dims = b, p, tuple(dims)

    @property
    def nw(self):
        return 1 if self.p or self.b not in D else D[self.b].nw

    @property
    def isint(self):
        return not self.p and self.b in ("i4", "i8", "u1", "u8", "bool", "i1", "u4", "i2", "u2")

    def __repr__(self):
        return self.b + "*" * self.p + "".join("[%s]" % d for d in self.dims)


def basety(words):
    w = [x for x in words if x not in QUAL]
    cx = "_Complex" in w
    w = [x for x in w if x != "_Complex"]
    k = " ".join(w)
    t = {"void": "void", "double": "f8", "float": "f4", "int": "i4", "long": "i8", "long int": "i8", "long long": "i8", "bool": "bool", "_Bool": "bool", "uint8_t": "u1", "uint64_t": "u8", "int32_t": "i4", "int64_t": "i8", "ptrdiff_t": "i8", "size_t": "u8", "char": "i1", "unsigned": "u4", "unsigned int": "u4", "unsigned long": "u8", "unsigned char": "u1"}.get(k)
    if t is None:
        raise Undecided("C type %s" % k)
    return {"f8": "c16", "f4": "c8"}[t] if cx else t


class Mem:
    """an object in memory: words (4 bytes), or one cell per element for pointers and small integers"""

    __slots__ = ("name", "w", "dead", "ro")

    def __init__(self, name, n, ro=False):
        self.name, self.dead, self.ro = name, False, ro
        self.w = oarr((n,))


class Ptr:
    __slots__ = ("m", "o", "ty")

    def __init__(self, m, o, ty):
        self.m, self.o, self.ty = m, o, ty  # ty: type pointed to

    def __repr__(self):
        return "&%s+%d(%s)" % (self.m.name if self.m else "NULL", self.o, self.ty)


NULL = None


# --------------------------------------------------------------------- parser
class Parser:
    def __init__(self, text):
        self.t, self.i = lex(text), 0
        self.funcs, self.protos, self.other = {}, {}, []

    def pk(self, k=0):
        return self.t[min(self.i + k, len(self.t) - 1)][1]

    def nx(self):
        t = self.t[self.i]
        self.i += 1
        return t

    def ex(self, s):
        t = self.nx()
        if t[1] != s:
            raise CBug("syntax: %r expected, %r found" % (s, " ".join(x[1] for x in self.t[max(0, self.i - 6) : self.i + 3])))

    def istype(self, k=0):
        return self.pk(k) in BASE or self.pk(k) in QUAL

    def specs(self):
        w = []
        while self.istype():
            w.append(self.nx()[1])
        return w

    def program(self):
        while self.pk() or self.i < len(self.t) - 1:
            s = self.i
            if self.istype():
                words = self.specs()
                p = self.stars()
                name = self.nx()[1]
                if self.pk() == "(":
                    args = self.params()
                    if self.pk() == ";":
                        self.nx()
                        self.protos[name] = [t[1] for t in self.t[s : self.i - 1]]
                        continue
                    if self.pk() == "{":
                        if name in self.funcs:
                            raise CBug("redefinition of %s" % name)
                        ret = Ty(basety(words), p)
                        # the body is parsed with the prototypes known before it
                        self.funcs[name] = (ret, args, self.block(), self.i)
                        continue
                    raise CBug("syntax after %s(...)" % name)
            # any other declaration
            self.i = s
            depth = 0
            txt = []
            while True:
                k, v = self.nx()
                txt.append(v)
                if k == "end":
                    break
                if v in "{(":
                    depth += 1
                if v in "})":
                    depth -= 1
                if v == ";" and depth == 0:
                    break
            self.other.append(txt)
        return self

    def stars(self):
        p = 0
        while self.pk() == "*":
            self.nx()
            p += 1
            while self.pk() in QUAL:
                self.nx()
        return p

    def params(self):
        self.ex("(")
        r = []
        while self.pk() != ")":
            if self.pk() == "void" and self.pk(1) == ")":
                self.nx()
                break
            w = self.specs()
            p = self.stars()
            name = None
            if self.t[self.i][0] == "id":
                name = self.nx()[1]
            while self.pk() == "[":
                while self.nx()[1] != "]":
                    pass
                p += 1
            r.append((Ty(basety(w), p), name))
            if self.pk() == ",":
                self.nx()
            elif self.pk() != ")":
                raise CBug("syntax in the parameters: %r" % self.pk())
        self.ex(")")
        return r

    def block(self):
        self.ex("{")
        b = []
        while self.pk() != "}":
            if self.t[self.i][0] == "end":
                raise CBug("unbalanced braces")
            b.append(self.stmt())
        self.ex("}")
        return ("block", b)

    def stmt(self):
        s = self.pk()
        if s == "{":
            return self.block()
        if s == ";":
            self.nx()
            return ("block", [])
        if s == "if":
            self.nx()
            self.ex("(")
            c = self.expr()
            self.ex(")")
            a = self.stmt()
            b = None
            if self.pk() == "else":
                self.nx()
                b = self.stmt()
            return ("if", c, a, b)
        if s == "for":
            self.nx()
            self.ex("(")
            init = self.decl() if self.istype() else ("e", self.expr() if self.pk() != ";" else ("num", 0))
            if init[0] == "e":
                self.ex(";")
            c = self.expr() if self.pk() != ";" else ("num", 1)
            self.ex(";")
            st = self.expr() if self.pk() != ")" else ("num", 0)
            self.ex(")")
            return ("for", init, c, st, self.stmt())
        if s == "while":
            self.nx()
            self.ex("(")
            c = self.expr()
            self.ex(")")
            return ("for", ("e", ("num", 0)), c, ("num", 0), self.stmt())
        if s == "return":
            self.nx()
            e = self.expr() if self.pk() != ";" else None
            self.ex(";")
            return ("return", e)
        if s in ("break", "continue"):
            self.nx()
            self.ex(";")
            return (s,)
        if self.istype():
            return self.decl()
        e = self.expr()
        self.ex(";")
        return ("e", e)

    def decl(self):
        w = self.specs()
        if not [x for x in w if x not in QUAL]:
            raise CBug("declaration without type near %r" % self.pk())
        b = basety(w)
        ro = "const" in w
        ds = []
        while True:
            p = self.stars()
            k, name = self.nx()
            if k != "id":
                raise CBug("syntax: name expected, %r found" % name)
            dims = []
            while self.pk() == "[":
                self.nx()
                dims.append(self.expr() if self.pk() != "]" else None)
                self.ex("]")
            init = None
            if self.pk() == "=":
                self.nx()
                init = self.init() if self.pk() == "{" else self.assign()
            ds.append((name, b, p, dims, init, ro))
            if self.pk() == ",":
                self.nx()
                continue
            self.ex(";")
            return ("decl", ds)

    def init(self):
        self.ex("{")
        r = []
        while self.pk() != "}":
            r.append(self.init() if self.pk() == "{" else self.assign())
            if self.pk() == ",":
                self.nx()
            elif self.pk() != "}":
                raise CBug("syntax in an initialiser: %r" % self.pk())
        self.ex("}")
        return ("init", r)

    def expr(self):
        e = self.assign()
        while self.pk() == ",":
            self.nx()
            e = ("comma", e, self.assign())
        return e

    def assign(self):
        l = self.tern()
        if self.pk() in ("=", "+=", "-=", "*=", "/=", "%="):
            op = self.nx()[1]
            return ("asg", op[:-1], l, self.assign())
        return l

    def tern(self):
        c = self.bin(0)
        if self.pk() == "?":
            self.nx()
            a = self.expr()
            self.ex(":")
            return ("tern", c, a, self.tern())
        return c

    PREC = [("||",), ("&&",), ("|",), ("^",), ("&",), ("==", "!="), ("<", ">", "<=", ">="), ("<<", ">>"), ("+", "-"), ("*", "/", "%")]

    def bin(self, l):
        if l == len(self.PREC):
            return self.unary()
        a = self.bin(l + 1)
        while self.pk() in self.PREC[l] and self.t[self.i][0] == "op":
            op = self.nx()[1]
            a = ("bin", op, a, self.bin(l + 1))
        return a

    def unary(self):
        s = self.pk()
        if s in ("-", "+", "!", "*", "&", "~"):
            self.nx()
            return ("un", s, self.unary())
        if s in ("++", "--"):
            self.nx()
            return ("asg", s[0], self.unary(), ("num", 1))
        if s == "(" and self.istype(1):
            self.nx()
            w = self.specs()
            p = self.stars()
            self.ex(")")
            return ("cast", Ty(basety(w), p), self.unary())
        if s == "sizeof":
            self.nx()
            self.ex("(")
            w = self.specs()
            p = self.stars()
            self.ex(")")
            return ("num", 4 * Ty(basety(w), p).nw * (2 if p else 1))
        return self.postfix()

    def postfix(self):
        k, v = self.nx()
        if k == "num":
            s = v.rstrip("lLuU")
            if re.fullmatch(r"\d+|0[xX][0-9a-fA-F]+", s):
                e = ("num", int(s, 0) if s[:2].lower() == "0x" else int(s))
            else:
                x = float(s.rstrip("fF"))
                e = ("flt", x)
        elif k == "id":
            e = ("id", v)
        elif v == "(":
            e = self.expr()
            self.ex(")")
        else:
            raise CBug("syntax: unexpected %r near %r" % (v, " ".join(x[1] for x in self.t[max(0, self.i - 6) : self.i + 4])))
        while True:
            s = self.pk()
            if s == "[":
                self.nx()
                i = self.expr()
                self.ex("]")
                e = ("idx", e, i)
            elif s == "(":
                self.nx()
                a = []
                while self.pk() != ")":
                    a.append(self.assign())
                    if self.pk() == ",":
                        self.nx()
                    elif self.pk() != ")":
                        raise CBug("syntax in a call: %r" % self.pk())
                self.ex(")")
                e = ("call", e, a)
            elif s in ("++", "--"):
                self.nx()
                e = ("post", s[0], e)
            else:
                return e


# ---------------------------------------------------------------- interpreter
class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cnt(Exception):
    pass


UNINIT = T("uninit")


class CInt:
    """interpreter of one translation unit"""

    def __init__(self, prog, models, max_steps=400000):
        self.P, self.models = prog, models
        self.steps, self.max = 0, max_steps
        self.table_hook = None  # (name, indices) -> value
        self.scopes = []

    # -- memory
    def load(self, p):
        if p is NULL or p.m is None:
            raise CBug("null pointer read")
        if p.m.dead:
            raise CBug("read through a pointer into memory released by the shim (%s)" % p.m.name)
        ty = p.ty
        if ty.dims:
            return p
        n = ty.nw
        if p.o < 0 or p.o + n > len(p.m.w):
            raise CBug("read outside of %s: word %d of %d" % (p.m.name, p.o, len(p.m.w)))
        ws = p.m.w[p.o : p.o + n]
        if ty.p or ty.b not in D:
            return UNINIT if ws[0] is None else ws[0]
        if any(x is None for x in ws):
            return UNINIT
        v = get(ws, D[ty.b])
        if isinstance(v, Bits):
            return T("bits", repr(v))
        return v

    def store(self, p, v):
        if p is NULL or p.m is None:
            raise CBug("null pointer written")
        if p.m.dead:
            raise CBug("write through a pointer into memory released by the shim (%s)" % p.m.name)
        if p.m.ro:
            raise CBug("write to %s" % p.m.name)
        ty = p.ty
        n = ty.nw
        if p.o < 0 or p.o + n > len(p.m.w):
            raise CBug("write outside of %s: word %d of %d" % (p.m.name, p.o, len(p.m.w)))
        if ty.p or ty.b not in D:
            p.m.w[p.o] = v
            return
        if isinstance(v, Ptr):
            raise CBug("pointer stored as %s" % ty)
        if ty.isint and isinstance(v, float):
            v = int(v)
        if ty.b == "bool" and not isinstance(v, T):
            v = int(bool(v))
        put(p.m.w[p.o : p.o + n], (), v, D[ty.b]) if True else None

    def var(self, name, ty, ro=False):
        n = ty.nw
        for d in ty.dims:
            n *= d
        m = Mem(name, n)
        if name in self.scopes[-1]:
            raise CBug("redefinition of %s" % name)
        self.scopes[-1][name] = Ptr(m, 0, ty)
        return self.scopes[-1][name]

    def find(self, name):
        for s in reversed(self.scopes):
            if name in s:
                return s[name]
        return None

    # -- execution
    def call(self, name, args):
        if name in self.P.funcs:
            ret, params, body, _ = self.P.funcs[name]
            if len(params) != len(args):
                raise CBug("%s called with %d arguments, it has %d" % (name, len(args), len(params)))
            saved, self.scopes = self.scopes, [{}]
            for (ty, nm), v in zip(params, args):
                if ty.p and isinstance(v, Ptr) and v.ty.b != ty.b and "void" not in (v.ty.b, ty.b):
                    raise CBug("%s: argument %s is a pointer to %s" % (name, nm, v.ty.b))
                self.store(self.var(nm or "_", ty), self.retype(v, ty))
            try:
                for s in body[1]:
                    self.run(s)
                r = None
            except Ret as e:
                r = e.v
            self.scopes = saved
            return r
        if name in self.models:
            return self.models[name](self, *args)
        raise CBug("call of %s, which is not declared" % name)

    def retype(self, v, ty):
        if ty.p and isinstance(v, Ptr):
            return Ptr(v.m, v.o, Ty(ty.b, ty.p - 1))
        if ty.p and v == 0 and not isinstance(v, T):
            return Ptr(None, 0, Ty(ty.b, ty.p - 1))
        return v

    def truth(self, v):
        if isinstance(v, Ptr):
            return v.m is not None
        if isinstance(v, T):
            if v.op == "uninit":
                raise CBug("branch on an uninitialised value")
            raise Undecided("branch on %s" % tm.show(v, 60))
        return bool(v)

    def run(self, s):
        self.steps += 1
        if self.steps > self.max:
            raise Undecided("step limit in the kernel")
        k = s[0]
        if k == "block":
            self.scopes.append({})
            try:
                for x in s[1]:
                    self.run(x)
            finally:
                self.scopes.pop()
        elif k == "e":
            self.ev(s[1])
        elif k == "decl":
            for name, b, p, dims, init, ro in s[1]:
                ds = []
                for d in dims:
                    n = self.ev(d) if d is not None else len(init[1])
                    if not isinstance(n, int):
                        raise Undecided("extent %s" % n)
                    ds.append(n)
                ty = Ty(b, p, ds)
                if init is not None and init[0] == "init":
                    q = self.var(name, ty)
                    self.fill(q, init)
                else:
                    v = self.ev(init) if init is not None else None
                    q = self.var(name, ty)
                    if init is not None:
                        self.store(q, self.cvt(v, ty))
                if ro and not p:
                    q.m.ro = True
        elif k == "if":
            if self.truth(self.ev(s[1])):
                self.run(s[2])
            elif s[3] is not None:
                self.run(s[3])
        elif k == "for":
            self.scopes.append({})
            try:
                self.run(s[1])
                while self.truth(self.ev(s[2])):
                    try:
                        self.run(s[4])
                    except Brk:
                        break
                    except Cnt:
                        pass
                    self.ev(s[3])
            finally:
                self.scopes.pop()
        elif k == "return":
            raise Ret(self.ev(s[1]) if s[1] is not None else None)
        elif k == "break":
            raise Brk()
        elif k == "continue":
            raise Cnt()
        else:
            raise Undecided("C statement " + k)

    def fill(self, q, init):
        """brace initialiser; missing entries are zero"""
        if q.ty.dims:
            d, rest = q.ty.dims[0], q.ty.dims[1:]
            n = q.ty.nw
            for x in rest:
                n *= x
            if len(init[1]) > d:
                raise CBug("too many initialisers of %s" % q.m.name)
            for i in range(d):
                r = Ptr(q.m, q.o + i * n, Ty(q.ty.b, q.ty.p, rest))
                if i < len(init[1]):
                    x = init[1][i]
                    if x[0] == "init":
                        self.fill(r, x)
                    elif rest:
                        raise Undecided("flat initialiser")
                    else:
                        self.store(r, self.ev(x))
                else:
                    self.fill(r, ("init", []))
        else:
            self.store(q, self.ev(init[1][0]) if init[1] else 0)

    def cvt(self, v, ty):
        if ty.p:
            return self.retype(v, ty)
        if ty.isint and isinstance(v, T) and v.op not in ("uninit",):
            return v
        if ty.isint and isinstance(v, float):
            return int(v)
        return v

    def lv(self, e):
        """pointer to an lvalue"""
        k = e[0]
        if k == "id":
            p = self.find(e[1])
            if p is None:
                raise CBug("%s is not declared" % e[1])
            return p
        if k == "idx":
            base = self.ev(e[1])
            i = self.ev(e[2])
            if isinstance(base, T) and base.op == "uninit":
                raise CBug("uninitialised pointer used")
            if not isinstance(base, Ptr):
                raise CBug("subscript of a value that is not a pointer")
            if isinstance(i, T):
                if i.op == "uninit":
                    raise CBug("uninitialised index")
                raise Undecided("index %s" % tm.show(i, 60))
            if not isinstance(i, int):
                raise CBug("index %r" % (i,))
            return self.at(base, i)
        if k == "un" and e[1] == "*":
            p = self.ev(e[2])
            if isinstance(p, T) and p.op == "uninit":
                raise CBug("uninitialised pointer used")
            if not isinstance(p, Ptr):
                raise CBug("dereference of a value that is not a pointer")
            return self.at(p, 0)
        if k == "cast":
            raise CBug("assignment to a cast")
        raise CBug("not an lvalue: %s" % k)

    def at(self, p, i):
        ty = p.ty
        n = ty.nw
        if ty.b == "void" and not ty.p:
            raise CBug("void pointer dereferenced")
        if ty.dims:  # p is an array that decays to a pointer to its elements
            if not 0 <= i < ty.dims[0]:
                raise CBug("index %d of %s, of extent %d" % (i, p.m.name, ty.dims[0]))
            for d in ty.dims[1:]:
                n *= d
            return Ptr(p.m, p.o + i * n, Ty(ty.b, ty.p, ty.dims[1:]))
        return Ptr(p.m, p.o + i * n, ty)

    def ev(self, e):
        self.steps += 1
        if self.steps > self.max:
            raise Undecided("step limit in the kernel")
        k = e[0]
        if k in ("num",):
            return e[1]
        if k == "flt":
            x = e[1]
            return x
        if k == "id":
            if e[1] in ("true", "false"):
                return int(e[1] == "true")
            if e[1] == "NULL":
                return 0
            p = self.find(e[1])
            if p is None:
                raise CBug("%s is not declared" % e[1])
            return self.load(p)
        if k == "idx":
            if self.table_hook:
                r = self.table_hook(self, e)
                if r is not None:
                    return r
            return self.load(self.lv(e))
        if k == "un":
            if e[1] == "&":
                return self.lv(e[2])
            if e[1] == "*":
                return self.load(self.lv(e))
            v = self.ev(e[2])
            if e[1] == "!":
                return int(not self.truth(v))
            if isinstance(v, Ptr):
                raise CBug("arithmetic on a pointer")
            if e[1] == "-":
                return tm.neg(v) if isinstance(v, T) else -v
            if e[1] == "+":
                return v
            raise Undecided("C operator " + e[1])
        if k == "cast":
            v = self.ev(e[2])
            ty = e[1]
            if ty.p:
                return self.retype(v, ty)
            if isinstance(v, Ptr):
                raise CBug("pointer cast to %s" % ty)
            if ty.isint and isinstance(v, float):
                return int(v)
            if ty.isint and isinstance(v, T) and v.op == "bits":
                raise CBug("integer read from data of another kind: %s" % v.args[0])
            return v
        if k == "asg":
            p = self.lv(e[2])
            r = self.ev(e[3])
            if e[1]:
                r = self.arith(e[1], self.load(p), r)
            self.store(p, self.cvt(r, p.ty))
            return r
        if k == "post":
            p = self.lv(e[2])
            v = self.load(p)
            self.store(p, self.arith(e[1], v, 1))
            return v
        if k == "bin":
            if e[1] == "&&":
                return int(self.truth(self.ev(e[2])) and self.truth(self.ev(e[3])))
            if e[1] == "||":
                return int(self.truth(self.ev(e[2])) or self.truth(self.ev(e[3])))
            return self.arith(e[1], self.ev(e[2]), self.ev(e[3]))
        if k == "tern":
            return self.ev(e[2] if self.truth(self.ev(e[1])) else e[3])
        if k == "comma":
            self.ev(e[1])
            return self.ev(e[2])
        if k == "call":
            if e[1][0] != "id":
                raise Undecided("indirect call")
            return self.call(e[1][1], [self.decay(self.ev(a)) for a in e[2]])
        raise Undecided("C expression " + k)

    def decay(self, v):
        if isinstance(v, Ptr) and v.ty.dims:
            return Ptr(v.m, v.o, Ty(v.ty.b, v.ty.p, v.ty.dims[1:]))
        return v

    def arith(self, op, a, b):
        a, b = self.decay(a), self.decay(b)
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if op == "+" and isinstance(b, Ptr):
                a, b = b, a
            if op in "+-" and isinstance(a, Ptr) and isinstance(b, int):
                n = a.ty.nw
                for d in a.ty.dims:
                    n *= d
                if a.m is None and b:
                    raise CBug("arithmetic on a null pointer")
                return Ptr(a.m, a.o + (b if op == "+" else -b) * n, a.ty)
            if op in ("==", "!=") and not isinstance(b, T):
                same = (isinstance(b, Ptr) and a.m is b.m and a.o == b.o) or (b == 0 and a.m is None)
                return int(same == (op == "=="))
            if isinstance(b, T) and b.op == "uninit":
                raise CBug("uninitialised offset of a pointer")
            raise CBug("arithmetic %s on pointers" % op)
        if isinstance(a, T) and a.op == "uninit" or isinstance(b, T) and b.op == "uninit":
            return UNINIT if op in "+-*/%" else T("cmp-uninit")
        sym = isinstance(a, T) or isinstance(b, T)
        if op == "+":
            return tm.add(a, b) if sym else a + b
        if op == "-":
            return tm.sub(a, b) if sym else a - b
        if op == "*":
            return tm.mul(a, b) if sym else a * b
        if op == "/":
            if sym:
                return tm.div(a, b)
            if b == 0:
                if isinstance(a, int) and isinstance(b, int):
                    raise CBug("division by zero")
                return UNINIT
            return (abs(a) // abs(b) * (1 if a * b >= 0 else -1)) if isinstance(a, int) and isinstance(b, int) else a / b
        if op == "%":
            if sym or b == 0:
                raise Undecided("remainder")
            return abs(a) % abs(b) * (1 if a >= 0 else -1)
        if op in ("<", ">", "<=", ">=", "==", "!="):
            if sym:
                return tm.cmp(op, a, b) if op in ("<", "<=") else T("cmp" + op, a, b)
            return int({"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[op])
        raise Undecided("C operator " + op)


MATH = {n: (lambda n: lambda ci, *a: tm.fn(n, *a) if any(isinstance(x, T) for x in a) else T("c:" + n, *a))(n) for n in ("sqrt", "exp", "log", "sin", "cos", "tan", "fabs", "pow")}
MATH["fabs"] = lambda ci, a: tm.fn("abs", a) if isinstance(a, T) else abs(a)
MATH["sqrt"] = lambda ci, a: tm.fn("sqrt", a) if isinstance(a, T) else a**0.5
