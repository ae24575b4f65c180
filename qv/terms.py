"""Hash-consed value terms (Herbrand domain) shared by the C++ and Python front ends.

A real/int value is either a plain Python number (int, Fraction, bool) or a T.
Terms are compared by an algebraic identity test on the terms (evaluation of both
terms at random points of the parameter space with a magnitude-scaled tolerance:
the "random interpretation" identity test of Gulwani & Necula).  The analysed
program is never executed; only the extracted terms are compared.
"""
import math, random
from fractions import Fraction
import numpy as np

NUM = (int, Fraction, float)


class T:
    __slots__ = ("op", "args", "_h", "uid", "_free")
    _tab = {}
    _n = 0

    def __new__(cls, op, *args):
        key = (op,) + tuple(a.uid if isinstance(a, T) else (type(a).__name__, a) for a in args)
        t = T._tab.get(key)
        if t is None:
            t = object.__new__(cls)
            t.op = op
            t.args = args
            T._n += 1
            t.uid = "#%d" % T._n
            t._free = None
            T._tab[key] = t
        return t

    def __repr__(self):
        return show(self, 60)

    def free(self):
        if self._free is None:
            if self.op == "sym":
                self._free = frozenset([self.args[0]])
            else:
                s = frozenset()
                for a in self.args:
                    if isinstance(a, T):
                        s |= a.free()
                self._free = s
        return self._free

    __hash__ = object.__hash__

    def __eq__(self, o):
        return self is o

    def __bool__(self):
        raise TypeError("symbolic term used as a Python truth value: " + show(self, 200))


def show(t, lim=400):
    def go(t, d):
        if not isinstance(t, T):
            if isinstance(t, Fraction):
                return str(t.numerator) if t.denominator == 1 else "%.6g" % float(t)
            return str(t)
        if t.op == "sym":
            return str(t.args[0])
        if d > 12:
            return "..."
        if t.op in ("+", "-", "*", "/", "<", "<=", "==", "%", "idiv", "and", "or") and len(t.args) == 2:
            return "(" + go(t.args[0], d + 1) + " " + t.op + " " + go(t.args[1], d + 1) + ")"
        return t.op + "(" + ", ".join(go(a, d + 1) for a in t.args) + ")"

    s = go(t, 0)
    return s if len(s) <= lim else s[:lim] + "..."


def sym(name):
    return T("sym", name)


def isnum(a):
    return isinstance(a, NUM) and not isinstance(a, bool) or isinstance(a, bool)


def N(a):
    if isinstance(a, bool):
        return int(a)
    if isinstance(a, float):
        if math.isinf(a) or math.isnan(a):
            return a
        return Fraction(a)
    return a


def _fin(*xs):
    return all(not (isinstance(x, float) and (math.isinf(x) or math.isnan(x))) for x in xs)


def add(a, b):
    a, b = N(a), N(b)
    if not isinstance(a, T) and not isinstance(b, T):
        return a + b if _fin(a, b) else float(a) + float(b)
    if not isinstance(a, T) and a == 0:
        return b
    if not isinstance(b, T) and b == 0:
        return a
    return T("+", a, b)


def sub(a, b):
    a, b = N(a), N(b)
    if not isinstance(a, T) and not isinstance(b, T):
        return a - b if _fin(a, b) else float(a) - float(b)
    if not isinstance(b, T) and b == 0:
        return a
    if a is b:
        return 0
    return T("-", a, b)


def mul(a, b):
    a, b = N(a), N(b)
    if not isinstance(a, T) and not isinstance(b, T):
        return a * b if _fin(a, b) else float(a) * float(b)
    for x, y in ((a, b), (b, a)):
        if not isinstance(x, T):
            if x == 0:
                return 0
            if x == 1:
                return y
    return T("*", a, b)


def div(a, b):
    a, b = N(a), N(b)
    if not isinstance(b, T):
        if b == 0:
            return T("/", a, b)
        if b == 1:
            return a
        if not isinstance(a, T):
            return Fraction(a) / Fraction(b) if _fin(a, b) else float(a) / float(b)
    if not isinstance(a, T) and a == 0:
        return 0
    return T("/", a, b)


def neg(a):
    a = N(a)
    return mul(-1, a) if isinstance(a, T) else -a


def powi(a, n):
    a = N(a)
    n = N(n)
    if isinstance(n, Fraction) and n.denominator == 1:
        n = n.numerator
    if isinstance(n, int) and not isinstance(a, T) and _fin(a) and (n >= 0 or a != 0):
        return Fraction(a) ** n if isinstance(a, Fraction) or n < 0 else a**n
    if isinstance(n, int) and n == 0:
        return 1
    if isinstance(n, int) and n == 1:
        return a
    return T("pow", a, n)


def fn(name, *a):
    a = tuple(N(x) for x in a)
    if all(not isinstance(x, T) for x in a):
        if name == "abs":
            return abs(a[0])
        if name == "max":
            return max(a)
        if name == "min":
            return min(a)
        if name == "sqrt" and a[0] >= 0:
            r = Fraction(a[0])
            n, d = math.isqrt(r.numerator), math.isqrt(r.denominator)
            if n * n == r.numerator and d * d == r.denominator:
                return Fraction(n, d)
        if name in ("sin",) and a[0] == 0:
            return 0
        if name in ("cos", "exp") and a[0] == 0:
            return 1
    return T(name, *a)


def ite(c, a, b):
    if not isinstance(c, T):
        return a if c else b
    if a is b or (isnum(a) and isnum(b) and a == b):
        return a
    return T("ite", c, a, b)


def cmp(op, a, b):
    a, b = N(a), N(b)
    if not isinstance(a, T) and not isinstance(b, T):
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
    if op == ">":
        return cmp("<", b, a)
    if op == ">=":
        return cmp("<=", b, a)
    if op == "!=":
        return lnot(cmp("==", a, b))
    if a is b:
        return op in ("<=", "==")
    return T(op, a, b)


def lnot(a):
    if not isinstance(a, T):
        return not a
    if a.op == "not":
        return a.args[0]
    return T("not", a)


def land(a, b):
    if not isinstance(a, T):
        return b if a else False
    if not isinstance(b, T):
        return a if b else False
    return T("and", a, b)


def lor(a, b):
    if not isinstance(a, T):
        return True if a else b
    if not isinstance(b, T):
        return True if b else a
    return T("or", a, b)


def idiv(a, b):
    if not isinstance(a, T) and not isinstance(b, T):
        if b == 0:
            return T("idiv", a, b)
        q = abs(a) // abs(b)
        return int(q if (a >= 0) == (b >= 0) else -q)
    if not isinstance(b, T) and b == 1:
        return a
    if not isinstance(a, T) and a == 0:
        return 0
    return T("idiv", a, b)


def imod(a, b):
    if not isinstance(a, T) and not isinstance(b, T):
        if b == 0:
            return T("imod", a, b)
        return a - b * idiv(a, b)
    return T("imod", a, b)


# ----------------------------------------------------------------- derivative
def diff(t, x, memo=None):
    """symbolic derivative of term t with respect to the symbol named x"""
    if memo is None:
        memo = {}

    def go(t):
        if not isinstance(t, T) or x not in t.free():
            return 0
        r = memo.get(t)
        if r is not None:
            return r
        o, a = t.op, t.args
        if o == "sym":
            r = 1
        elif o == "+":
            r = add(go(a[0]), go(a[1]))
        elif o == "-":
            r = sub(go(a[0]), go(a[1]))
        elif o == "*":
            r = add(mul(go(a[0]), a[1]), mul(a[0], go(a[1])))
        elif o == "/":
            r = div(sub(mul(go(a[0]), a[1]), mul(a[0], go(a[1]))), mul(a[1], a[1]))
        elif o == "pow":
            if isinstance(a[1], T):
                raise ValueError("diff pow")
            r = mul(mul(a[1], powi(a[0], a[1] - 1)), go(a[0]))
        elif o == "sin":
            r = mul(fn("cos", a[0]), go(a[0]))
        elif o == "cos":
            r = neg(mul(fn("sin", a[0]), go(a[0])))
        elif o == "exp":
            r = mul(t, go(a[0]))
        elif o == "log":
            r = div(go(a[0]), a[0])
        elif o == "sqrt":
            r = div(go(a[0]), mul(2, t))
        elif o == "tan":
            r = mul(add(1, mul(t, t)), go(a[0]))
        elif o == "abs":
            r = mul(ite(cmp("<", a[0], 0), -1, 1), go(a[0]))
        elif o == "max":
            r = ite(cmp("<", a[0], a[1]), go(a[1]), go(a[0]))
        elif o == "min":
            r = ite(cmp("<", a[1], a[0]), go(a[1]), go(a[0]))
        elif o == "ite":
            r = ite(a[0], go(a[1]), go(a[2]))
        elif o.startswith("uf:"):
            b, dirs = o.split("|")
            r = 0
            for k, y in enumerate(a):
                dy = go(y)
                r = add(r, mul(T(b + "|" + "".join(sorted(dirs + str(k))), *a), dy))
        else:
            raise ValueError("cannot differentiate " + o)
        memo[t] = r
        return r

    return go(N(t) if not isinstance(t, T) else t)


# ------------------------------------------------------------- identity test
class Env:
    """random sample of the parameter space: symbol name -> K values"""

    def __init__(self, seed=7, K=9, ranges=None):
        self.rng = np.random.RandomState(seed)
        self.K = K
        self.v = {}
        self.ranges = ranges or {}
        self.memo = {}
        self.keep = []

    def get(self, name):
        if name not in self.v:
            import zlib

            r = np.random.RandomState(zlib.crc32(repr(name).encode()) & 0x7FFFFFFF)
            lo, hi, integer = self.ranges.get(name) or self.ranges.get("*") or (0.35, 1.9, False)
            if integer:
                self.v[name] = r.randint(lo, hi + 1, size=self.K).astype(float)
            else:
                self.v[name] = r.uniform(lo, hi, size=self.K) * (1 if (self.ranges.get(name) or lo < 0) else 1)
        return self.v[name]


def evalt(t, env):
    """(value, magnitude) arrays of a term at the sample points"""
    K = env.K
    memo = env.memo

    def const(c):
        f = float(c)
        return (np.full(K, f), np.full(K, abs(f)))

    stack = [t]
    if not isinstance(t, T):
        return const(t)
    while stack:
        u = stack[-1]
        if not isinstance(u, T) or u.uid in memo:
            stack.pop()
            continue
        if u.op == "sym":
            v = env.get(u.args[0])
            memo[u.uid] = (v, np.abs(v))
            stack.pop()
            continue
        pend = [a for a in u.args if isinstance(a, T) and a.uid not in memo]
        if pend:
            stack.extend(pend)
            continue
        a = [memo[x.uid] if isinstance(x, T) else (const(x) if isnum(x) else x) for x in u.args]
        with np.errstate(all="ignore"):
            memo[u.uid] = _apply(u, a, env)
        env.keep.append(u)
        stack.pop()
    return memo[t.uid]


def _apply(u, a, env):
    o = u.op
    if o == "+":
        return a[0][0] + a[1][0], a[0][1] + a[1][1]
    if o == "-":
        return a[0][0] - a[1][0], a[0][1] + a[1][1]
    if o == "*":
        return a[0][0] * a[1][0], a[0][1] * a[1][1]
    if o == "/":
        v = a[0][0] / a[1][0]
        return v, np.maximum(np.abs(v), a[0][1] / np.abs(a[1][0]) * np.maximum(1, a[1][1] / np.abs(a[1][0])))
    if o == "pow":
        v = np.power(a[0][0], a[1][0])
        return v, np.power(np.maximum(a[0][1], 1e-300), a[1][0]) if np.all(a[1][0] >= 0) else np.abs(v)
    if o in ("sin", "cos"):
        v = getattr(np, o)(a[0][0])
        return v, np.maximum(1.0, a[0][1])
    if o in ("exp", "log", "sqrt", "tan"):
        v = getattr(np, o)(a[0][0])
        return v, np.maximum(np.abs(v), np.maximum(1.0, a[0][1]))
    if o == "abs":
        return np.abs(a[0][0]), a[0][1]
    if o == "max":
        return np.maximum(a[0][0], a[1][0]), np.maximum(a[0][1], a[1][1])
    if o == "min":
        return np.minimum(a[0][0], a[1][0]), np.maximum(a[0][1], a[1][1])
    if o == "ite":
        c = a[0][0] != 0
        return np.where(c, a[1][0], a[2][0]), np.where(c, a[1][1], a[2][1])
    if o in ("<", "<=", "=="):
        x, y = a[0][0], a[1][0]
        r = {"<": x < y, "<=": x <= y, "==": x == y}[o]
        return r.astype(float), np.ones(env.K)
    if o == "not":
        return 1.0 - (a[0][0] != 0), np.ones(env.K)
    if o == "and":
        return ((a[0][0] != 0) & (a[1][0] != 0)).astype(float), np.ones(env.K)
    if o == "or":
        return ((a[0][0] != 0) | (a[1][0] != 0)).astype(float), np.ones(env.K)
    if o == "idiv":
        v = np.trunc(a[0][0] / a[1][0])
        return v, np.maximum(np.abs(v), 1)
    if o == "imod":
        v = np.fmod(a[0][0], a[1][0])
        return v, np.maximum(np.abs(v), 1)
    if o == "trunc":
        return np.trunc(a[0][0]), a[0][1]
    if o == "cheb":
        v = 0.5 - 0.5 * np.cos(np.pi * a[0][0] / (a[1][0] - 1))
        return v, np.ones(env.K)
    # uninterpreted: a pseudo-random function of (op, argument values)
    import zlib, struct

    out = np.empty(env.K)
    for k in range(env.K):
        h = zlib.crc32(o.encode())
        for x in a:
            if isinstance(x, tuple):
                h = zlib.crc32(struct.pack("<q", int(round(float(x[0][k]) * 1e7)) if np.isfinite(x[0][k]) else 0), h)
            else:
                h = zlib.crc32(repr(x).encode(), h)
        out[k] = 0.3 + (h % 1000003) / 1000003.0
    return out, np.abs(out)


def equal(a, b, env=None, tol=1e-8):
    """identity test; returns (bool, detail)"""
    if a is b:
        return True, ""
    if isnum(a) and isnum(b):
        if abs(float(a) - float(b)) <= 1e-12 * max(1.0, abs(float(a))):
            return True, ""
        return False, "%s != %s" % (float(a), float(b))
    env = env or Env()
    va, ma = evalt(a, env)
    vb, mb = evalt(b, env)
    ok = np.isfinite(va) & np.isfinite(vb)
    if ok.sum() < max(3, env.K // 2):
        return None, "terms undefined at the sample points"
    d = np.abs(va - vb)[ok]
    s = (np.maximum(ma, mb)[ok]) + 1e-12
    bad = d > tol * s
    if not bad.any():
        return True, ""
    k = int(np.argmax(d / s))
    if (~bad).sum() > 0 and bad.sum() < 2:
        return None, "inconclusive identity test"
    return False, "difference %.3g at a sample point" % d[k]


# arithmetic notation on terms (used when writing specifications)
T.__add__ = lambda a, b: add(a, b)
T.__radd__ = lambda a, b: add(b, a)
T.__sub__ = lambda a, b: sub(a, b)
T.__rsub__ = lambda a, b: sub(b, a)
T.__mul__ = lambda a, b: mul(a, b)
T.__rmul__ = lambda a, b: mul(b, a)
T.__truediv__ = lambda a, b: div(a, b)
T.__rtruediv__ = lambda a, b: div(b, a)
T.__neg__ = lambda a: neg(a)
T.__pow__ = lambda a, n: powi(a, n)


def subst(t, m, memo=None):
    """replace symbols by terms"""
    memo = {} if memo is None else memo

    def go(t):
        if not isinstance(t, T):
            return t
        if not (t.free() & m.keys()):
            return t
        r = memo.get(t)
        if r is None:
            if t.op == "sym":
                r = m[t.args[0]]
            else:
                a = [go(x) for x in t.args]
                r = REB[t.op](*a) if t.op in REB and len(a) == REBN.get(t.op, 2) else T(t.op, *a)
            memo[t] = r
        return r

    return go(t)


REB = {"+": add, "-": sub, "*": mul, "/": div, "neg": neg, "pow": powi}
REBN = {"neg": 1}
