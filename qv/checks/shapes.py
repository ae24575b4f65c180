"""C03: the value of every named level-set function describes the documented shape."""
import re
from fractions import Fraction
from .. import terms as tm
from ..cxxsym import *
from ..report import wh
from .derivs import classes, overrider, instances, evaluator, abstract, symbolise

dot = lambda a, b: sum((x * y for x, y in zip(a, b)), 0)
minus = lambda a, b: [x - y for x, y in zip(a, b)]
sq = lambda a: a * a
sin = lambda x: tm.fn("sin", x)
cos = lambda x: tm.fn("cos", x)
PI = 3.14159265358979323846


def nrm(a):
    n = tm.fn("sqrt", dot(a, a))
    return [x / n for x in a]


def aff_of(p):
    """forward map of a symbolic affine transformation given by coefficients"""
    return p


def unaff(d, A, x):
    """x -> A^-1 (x - b) for row-major coefficients followed by the translation"""
    y = [x[i] - A[d * d + i] for i in range(d)]
    M = [[A[i * d + j] for j in range(d)] for i in range(d)]
    if d == 1:
        return [y[0] / M[0][0]]
    if d == 2:
        D = M[0][0] * M[1][1] - M[0][1] * M[1][0]
        return [(M[1][1] * y[0] - M[0][1] * y[1]) / D, (M[0][0] * y[1] - M[1][0] * y[0]) / D]
    c = [[M[(i + 1) % 3][(j + 1) % 3] * M[(i + 2) % 3][(j + 2) % 3] - M[(i + 1) % 3][(j + 2) % 3] * M[(i + 2) % 3][(j + 1) % 3] for j in range(3)] for i in range(3)]
    D = sum((M[0][j] * c[0][j] for j in range(3)), 0)
    return [sum((c[j][i] * y[j] for j in range(3)), 0) / D for i in range(3)]


def unit(d, k):
    return [1 if i == k else 0 for i in range(d)]


def affid(d):
    return [1 if i == j else 0 for i in range(d) for j in range(d)] + [0] * d


def sys_id(d):
    return {"o": [0] * d, "b": [unit(d, i) for i in range(d)]}


# parameter kinds: r real, v point, S ref. system, A affine transf., f function, n array of reals
def spec_sphere(d, x, r, c):
    return dot(minus(x, c), minus(x, c)) - r * r


def spec_cylinder(d, x, r, o, a):
    a = nrm(a)
    y = minus(x, o)
    return dot(y, y) - sq(dot(y, a)) - r * r


def spec_ellipsoid(d, x, s, S):
    y = minus(x, S["o"])
    return sum((sq(dot(S["b"][i], y) / s[i]) for i in range(d)), 0) - 1


def spec_annulus(d, x, ri, ro, c):
    s = dot(minus(x, c), minus(x, c))
    return (s - ri * ri) * (s - ro * ro)


def spec_torus(d, x, R, r, c, a):
    a = nrm(a)
    y = minus(x, c)
    return sq(dot(y, y) + R * R - r * r) - 4 * R * R * (dot(y, y) - sq(dot(y, a)))


def spec_plane(d, x, o, n):
    return dot(minus(x, o), n)


def spec_constant(d, x, c):
    return c


def spec_square(d, x, A):
    y = unaff(d, A, x)
    m = tm.fn("abs", y[0])
    for t in y[1:]:
        m = tm.fn("max", m, tm.fn("abs", t))
    return m - 1


def spec_dimlinear(d, x, c, A):
    y = unaff(d, A, x)
    r = 0
    for i in range(2**d):
        t = c[i]
        for k in range(d):
            t = t * (y[k] if i >> k & 1 else 1 - y[k])
        r = r + t
    return r


def spec_transformed(d, x, f, A):
    return uf(f, [], unaff(d, A, x))


TPMS = {
    "Schoen": lambda X, Y, Z: sin(X) * cos(Y) + sin(Y) * cos(Z) + sin(Z) * cos(X),
    "SchoenIWP": lambda X, Y, Z: 2 * (cos(X) * cos(Y) + cos(Y) * cos(Z) + cos(Z) * cos(X)) - cos(2 * X) - cos(2 * Y) - cos(2 * Z),
    "SchoenFRD": lambda X, Y, Z: 4 * cos(X) * cos(Y) * cos(Z) - cos(2 * X) * cos(2 * Y) - cos(2 * Y) * cos(2 * Z) - cos(2 * Z) * cos(2 * X),
    "FischerKochS": lambda X, Y, Z: cos(2 * X) * sin(Y) * cos(Z) + cos(X) * cos(2 * Y) * sin(Z) + sin(X) * cos(Y) * cos(2 * Z),
    "SchwarzDiamond": lambda X, Y, Z: cos(X) * cos(Y) * cos(Z) - sin(X) * sin(Y) * sin(Z),
    "SchwarzPrimitive": lambda X, Y, Z: cos(X) + cos(Y) + cos(Z),
}

SPEC = {
    # name: (spec, [(kind, default(d)), ...])
    "Sphere": (spec_sphere, [("r", None), ("v", lambda d: [0] * d)]),
    "Cylinder": (spec_cylinder, [("r", None), ("v", lambda d: [0] * 3), ("v", lambda d: [0, 0, 1])]),
    "Ellipsoid": (spec_ellipsoid, [("v", None), ("S", sys_id)]),
    "Annulus": (spec_annulus, [("r", None), ("r", None), ("v", lambda d: [0] * d)]),
    "Torus": (spec_torus, [("r", None), ("r", None), ("v", lambda d: [0] * 3), ("v", lambda d: [0, 0, 1])]),
    "Plane": (spec_plane, [("v", lambda d: [0] * d), ("v", lambda d: unit(d, 0))]),
    "Constant": (spec_constant, [("r", lambda d: Fraction(1, 2))]),
    "Square": (spec_square, [("A", affid)]),
    "DimLinear": (spec_dimlinear, [("n", None), ("A", affid)]),
    "TransformedFunction": (spec_transformed, [("f", None), ("A", None)]),
    "Negative": (lambda d, x, f: -uf(f, [], x), [("f", None)]),
    "AddFunctions": (lambda d, x, f, g: uf(f, [], x) + uf(g, [], x), [("f", None), ("f", None)]),
    "SubtractFunctions": (lambda d, x, f, g: uf(f, [], x) - uf(g, [], x), [("f", None), ("f", None)]),
}
EXACT = {"AddFunctions", "SubtractFunctions", "Negative", "TransformedFunction", "DimLinear", "Constant", "Sphere", "Plane"}


def kind_of(ty):
    if ty == "double":
        return "r"
    if uv_args(ty):
        return "v"
    if "RefSystem" in ty:
        return "S"
    if "AffineTransf" in ty:
        return "A"
    if "shared_ptr" in ty:
        return "f"
    if ty.startswith("std::array<double"):
        return "n"
    return None


def symval(kind, d, name, n=0):
    if kind == "r":
        return tm.sym(name)
    if kind == "v":
        return [tm.sym("%s%d" % (name, i)) for i in range(d)]
    if kind == "S":
        return {"o": [tm.sym("%so%d" % (name, i)) for i in range(d)], "b": [[tm.sym("%sb%d_%d" % (name, i, j)) for j in range(d)] for i in range(d)]}
    if kind == "A":
        return [tm.sym("%s%d" % (name, i)) for i in range(d * (d + 1))]
    if kind == "n":
        return [tm.sym("%s%d" % (name, i)) for i in range(2**d)]
    if kind == "f":
        return name


def compare(S, v, spec, d, pc, exact):
    """value describes the same zero set, same sign: v(x) = k(parameters) * spec(x), k > 0"""
    if exact:
        return S.same(v, spec, pc)
    m = {"x%d" % i: tm.sym("y%d" % i) for i in range(d)}
    vy, sy = tm.subst(v, m), tm.subst(spec, m)
    pc2 = dict(pc)
    for c, pol in pc.items():
        pc2[tm.subst(c, m)] = pol
    if isinstance(v, Undef):
        return False, "uninitialised value"
    ok, det = S.same(tm.mul(v, sy), tm.mul(vy, spec), pc2)
    if not ok:
        return ok, det
    reg = S.region(pc)
    a, _ = S.val(v)
    b, _ = S.val(spec)
    import numpy as np

    reg &= np.isfinite(a) & np.isfinite(b) & (np.abs(b) > 1e-6)
    if reg.sum() >= 3 and (a * b)[reg].min() <= 0:
        return False, "sign is opposite to the documented one: %s instead of %s" % (tm.show(v, 120), tm.show(spec, 120))
    return True, ""


def monomial_spec(x, sz, c, basis):
    d = len(sz)
    r, k = 0, 0
    import itertools, math

    for idx in itertools.product(*[range(n) for n in reversed(sz)]):
        idx = idx[::-1]  # first direction fastest
        t = c[k]
        for i in range(d):
            t = t * basis(x[i], sz[i] - 1, idx[i])
        r = r + t
        k += 1
    return r


def bern(x, p, i):
    import math

    r = math.comb(p, i)
    for _ in range(i):
        r = r * x
    for _ in range(p - i):
        r = r * (1 - x)
    return r


def mono(x, p, i):
    r = 1
    for _ in range(i):
        r = r * x
    return r


def run_C03(ctx):
    P = full()
    rule = "value describes the documented shape"
    found = set()
    for cls, d, rg, base in classes(P):
        if abstract(P, cls):
            continue
        short = cls.replace("qugar::impl::", "")
        nm = re.sub(r"<.*", "", short).split("::")[-1]
        core_nm = nm[:-3] if nm.endswith("Bzr") else nm
        Fv = overrider(P, cls, d, base, "operator()", False)
        if Fv is None:
            continue
        x = [tm.sym("x%d" % i) for i in range(d)]
        if nm in ("BezierTP", "MonomialsTP"):
            sizes = [t[1] for t in [(0, s) for s in ((2,), (4,), (3, 2), (2, 4), (2, 3, 2), (3, 2, 2)) if len(s) == d]]
            for (lab, mk), sz in zip(instances(P, cls, d, rg), sizes):

                def body(mk=mk, sz=sz):
                    for ev, out, v in paths(lambda: evaluator(P), lambda ev: ev.call(Fv, [svec("x", d)], mk(ev)), 16):
                        if out != "ok":
                            continue
                        S = Sampler(seed=ctx.seed)
                        n = 1
                        for s in sz:
                            n *= s
                        for c in range(rg):
                            cs = [tm.sym("c%d" % i) if rg == 1 else tm.sym("c%d_%d" % (i, c)) for i in range(n)]
                            ok, det = S.same(v if rg == 1 else v.d[c], monomial_spec(x, sz, cs, bern if nm == "BezierTP" else mono), ev.pc)
                            if not ok:
                                return ok, det
                    return True, ""

                ctx.attempt("polynomial value = sum of coefficients times basis", "%s %s" % (short, lab), body, wh(Fv))
            continue
        if core_nm in TPMS:
            found.add(nm)

            ctors = [(F, [F.tu.types[p["t"]] for p in F.params]) for F in find_ctor(P, cls)]
            ctors = [(F, ts) for F, ts in ctors if ts == (["algoim::uvector<double, %d>" % d, "double"] if d == 2 else ["algoim::uvector<double, 3>"])]
            if not ctors:
                ctx.ob(rule, short, None, wh(Fv), "no constructor from periods")
            for F in [f for f, _ in ctors]:

                def body(F=F):
                    def ev_(ev):
                        if F is None:
                            o = ev.new_object(cls)
                        else:
                            o = construct(ev, cls, [svec("m", d)] + ([tm.sym("z")] if d == 2 else []), F)
                        return ev.call(Fv, [svec("x", d)], o)

                    for ev, out, v in paths(lambda: evaluator(P), ev_, 8):
                        for G in ev.called:
                            ctx.unit("functions", G.q)
                        if out != "ok":
                            continue
                        S = Sampler(seed=ctx.seed)
                        X = x if d == 3 else x + [tm.sym("z") if F is not None else 0]
                        m = [tm.sym("m%d" % i) if F is not None and i < d else 1 for i in range(3)]
                        ok = compare(S, v, TPMS[core_nm](*[2 * PI * (m[i] * X[i]) for i in range(3)]), d, ev.pc, False)
                        if not ok[0]:
                            return ok
                    return True, ""

                ctx.attempt(rule, "%s %s" % (short, "from periods" if F is not None else "default"), body, wh(F or Fv))
            continue
        sp = SPEC.get(core_nm)
        if sp is None:
            continue
        found.add(nm)
        spec, pars = sp
        for F in find_ctor(P, cls):
            ks = [kind_of(F.tu.types[p["t"]]) for p in F.params]
            if ks != [k for k, _ in pars[: len(ks)]]:
                ctx.ob(rule, "%s constructor/%d" % (short, len(ks)), None, wh(F), "unknown constructor signature")
                continue

            def body(F=F, ks=ks):
                args = [symval(k, d, "p%d_" % i if k != "r" else "p%d_" % i) for i, k in enumerate(ks)]
                for k, df in pars[len(ks) :]:
                    if df is None:
                        return None, "no documented default"
                    args.append(df(d))
                s = spec(d, x, *args)
                done = 0
                why = None

                def ev_(ev):
                    a = [symarg(ev, F.tu.types[p["t"]], "p%d_" % k) for k, p in enumerate(F.params)]
                    return ev.call(Fv, [svec("x", d)], construct(ev, cls, a, F))

                for ev, out, v in paths(lambda: evaluator(P), ev_, 48):
                    for G in ev.called:
                        ctx.unit("functions", G.q)
                    if out != "ok":
                        continue
                    S = Sampler(seed=ctx.seed)
                    ok, det = compare(S, v, s, d, ev.pc, core_nm in EXACT and not nm.endswith("Bzr"))
                    if ok is False:
                        return False, det
                    if ok:
                        done += 1
                    else:
                        why = det
                return (True, "") if done else (None, why or "no path")

            ctx.attempt(rule, "%s constructor/%d" % (short, len(ks)), body, wh(F))
        ctx.unit("classes", short)
    ctx.notes["shapes"] = sorted(found)
