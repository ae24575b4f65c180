"""C01/C02: gradient and Hessian of every implicit function agree with its value."""
import re
from .. import terms as tm
from ..cxxsym import *
from ..report import wh

TUS = None


def classes(P):
    out = []
    for n in sorted(P.records):
        if "(lambda" in n:
            continue
        for d in (1, 2, 3):
            for rg in (1, 2, 3):
                b = "qugar::impl::DomainFunc<%d, %d>" % (d, rg)
                if n != b and P.derives(n, b):
                    out.append((n, d, rg, b))
    return out


def virt(P, base, name, ptype):
    r = P.records.get(base)
    if not r:
        raise AnalysisBroken("interface %s not found" % base)
    for F in r[0]["methods"]:
        if F["n"] == name and F.get("virt"):
            yield F["m"]


def overrider(P, cls, d, base, name, interval):
    """final overrider of a virtual of the function interface (real or interval points)"""
    for m in virt(P, base, name, None):
        isI = "Interval" in m
        if isI != interval:
            continue
        x = P.resolve_virtual(cls, m)
        F = P.funcs.get(x) if x else None
        if F is not None and F.body is not None:
            return F
    return None


POLY = {1: [(2,), (4,)], 2: [(3, 2), (2, 4)], 3: [(2, 3, 2), (3, 2, 2)]}


def instances(P, cls, d, rg):
    """(label, builder(ev) -> object) for every way to build cls from symbolic data"""
    short = cls.replace("qugar::impl::", "")
    if short.startswith(("BezierTP", "MonomialsTP")):
        for sz in POLY[d]:
            def mk(ev, sz=sz):
                tcls = "qugar::TensorSizeTP<%d>" % d
                F = [G for G in find_ctor(P, tcls, np_=1) if "uvector<int" in G.tu.types[G.params[0]["t"]]]
                ts = construct(ev, tcls, [vec(sz, "int")], F[0])
                n = 1
                for s in sz:
                    n *= s
                et = "double" if rg == 1 else "algoim::uvector<double, %d>" % rg
                co = [tm.sym("c%d" % i) if rg == 1 else svec("c%d_" % i, rg) for i in range(n)]
                F = find_ctor(P, cls, [r"TensorSizeTP", r"^std::vector"])
                return construct(ev, cls, [ts, stdvec(co, et)], F[0])
            yield "sizes %s" % (sz,), mk
        return
    ctors = find_ctor(P, cls)
    if not ctors:
        # implicit / inherited constructors
        seen = set()
        for b in P.bases(cls):
            for F in find_ctor(P, b):
                def mk(ev, F=F):
                    o = ev.new_object(cls)
                    ev.call(F, [symarg(ev, F.tu.types[p["t"]], "p%d_" % k) for k, p in enumerate(F.params)], o)
                    return o
                if all(re.match(r"double|algoim::uvector<double|qugar::impl::(Affine|RefS)|std::(array<double|shared_ptr<const qugar::impl::DomainFunc)", F.tu.types[p["t"]]) for p in F.params):
                    yield "inherited constructor/%d" % len(F.params), mk
                    seen.add(F)
        if not seen:
            def mk(ev):
                o = ev.new_object(cls)
                symbolise(ev, o)
                return o
            yield "any member values", mk
        return
    mx = ctors[0]
    for F in ctors:
        def mk(ev, F=F):
            a = [symarg(ev, F.tu.types[p["t"]], "p%d_" % k) for k, p in enumerate(F.params)]
            return construct(ev, cls, a, F)
        yield "constructor/%d" % len(F.params), mk


def symbolise(ev, o):
    """every real-valued data member becomes a symbol (classes whose
    constructors are templates that no unit instantiates)"""
    P = ev.prog

    def go(c):
        r = P.records.get(c)
        if not r:
            return
        for b in P.bases(c):
            go(b)
        for f in r[0]["fields"]:
            v = symarg(ev, r[1].types[f["t"]], "m_" + f["n"])
            if v is not None:
                o.f[f["n"]] = v

    go(o.cls)


def evaluator(P):
    return Eval(P, hooks=uf_hooks(), max_steps=4000000)


def comps(v, rg):
    return [v] if rg == 1 else list(v.d)


def flat(v):
    if isinstance(v, Arr):
        r = []
        for x in v.d:
            r += flat(x)
        return r
    return [v]


def interval_point(name, d):
    return svec(name, d, "algoim::Interval<%d>" % d)


def abstract(P, cls):
    """class that cannot be instantiated (has a pure virtual without overrider)"""
    seen = set()

    def allm(c):
        r = P.records.get(c)
        if not r:
            return
        for m in r[0]["methods"]:
            if m.get("pure"):
                seen.add(m["m"])
        for b in P.bases(c):
            allm(b)

    allm(cls)
    return any(P.resolve_virtual(cls, m) is None for m in seen)


def run(ctx, which):
    P = core()
    for cls, d, rg, base in classes(P):
        if abstract(P, cls):
            continue
        short = cls.replace("qugar::impl::", "")
        Fv = overrider(P, cls, d, base, "operator()", False)
        Fg = overrider(P, cls, d, base, "grad", False)
        Fh = overrider(P, cls, d, base, "hessian", False)
        FvI = overrider(P, cls, d, base, "operator()", True)
        FgI = overrider(P, cls, d, base, "grad", True)
        if Fv is None or Fg is None:
            ctx.ob("grad = d value/dx", short, None, short, "no override found")
            continue
        ctx.unit("classes", short)
        for lab, mk in instances(P, cls, d, rg):
            x = lambda: svec("x", d)

            def run_(ev, mk=mk):
                o = mk(ev)
                r = {"v": ev.call(Fv, [x()], o)}
                r["g"] = ev.call(Fg, [x()], o)
                if which == "C02" and Fh is not None:
                    r["h"] = ev.call(Fh, [x()], o)
                if which == "C01" and FvI is not None:
                    try:
                        r["vI"] = ev.call(FvI, [interval_point("x", d)], o)
                        r["gI"] = ev.call(FgI, [interval_point("x", d)], o) if FgI else None
                    except Undecided as e:
                        r["I?"] = str(e)
                return r

            rule = "grad = d value/dx" if which == "C01" else "hessian = d grad/dx"
            # symmetric packed order (0,0),(0,1),..,(1,1),...

            def body(lab=lab, run_=run_):
                und, n = [], 0
                for ev, out, r in paths(lambda: evaluator(P), run_, 48):
                    for F in ev.called:
                        ctx.unit("functions", F.q)
                    if out != "ok":
                        continue
                    S = Sampler(seed=ctx.seed)
                    key = "%s %s" % (short, lab)
                    vs, gs = comps(r["v"], rg), flat(r["g"])
                    # layout of gradients: direction-major, range components inner
                    if which == "C01":
                        for i in range(d):
                            for c in range(rg):
                                if len(gs) != d * rg:
                                    return False, "gradient has %d components" % len(gs)
                                ok, det = S.same(gs[i * rg + c], tm.diff(vs[c], "x%d" % i), ev.pc)
                                if ok is False:
                                    return False, "component %d of the gradient: %s" % (i, det)
                                und.append(None if ok else det)
                                n += 1
                        if "vI" in r:
                            ok, det = same_struct(S, flat(r["vI"]), flat(r["v"]), ev.pc)
                            if ok is False:
                                return False, "interval overload of the value: " + det
                            if r.get("gI") is not None:
                                ok, det = same_struct(S, flat(r["gI"]), gs, ev.pc)
                                if ok is False:
                                    return False, "interval overload of the gradient: " + det
                    else:
                        if "h" not in r:
                            return None, "no hessian"
                        hs = flat(r["h"])
                        if any(isinstance(h, Undef) for h in hs):
                            und.append("left uninitialised (not provided by this class)")
                            continue
                        k = 0
                        pairs = [(i, j) for i in range(d) for j in range(i, d)]
                        if len(hs) != len(pairs) * rg:
                            return False, "hessian has %d components" % len(hs)
                        for i, j in pairs:
                            for c in range(rg):
                                ok, det = S.same(hs[k], tm.diff(tm.diff(vs[c], "x%d" % i), "x%d" % j), ev.pc)
                                if ok is False:
                                    return False, "component (%d,%d) of the hessian: %s" % (i, j, det)
                                und.append(None if ok else det)
                                k += 1
                                n += 1
                if not any(u is None for u in und):
                    return None, "; ".join(sorted({str(u) for u in und if u}))[:200]
                return True, ""

            ctx.attempt(rule, "%s %s" % (short, lab), body, wh(Fh if which == "C02" and Fh else Fg))


def run_C01(ctx):
    run(ctx, "C01")


def run_C02(ctx):
    run(ctx, "C02")
