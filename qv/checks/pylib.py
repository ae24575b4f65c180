"""C19: what the package asks of the compiled module, for which entities, and what it makes of the answer."""
import ast, os, math
from fractions import Fraction as Fr
from .. import terms as tm
from .. import pynp
from ..cxxsym import *
from ..cxxeval import paths, Arr, Span, Ptr, Obj, Undecided
from ..cxxprog import REPO
from ..pysym import *
from ..pyeval import Obj as PO, U, Interp
from ..report import relpath
from .binding import Env, hooked, obj, get, syms, same, array, both, column, bridge
from . import domain as dm, pymesh as pm
from .pyindex import dlf_face_lex, dlf_nodes

Q = "qugar.mesh.unfitted_domain.UnfittedDomain."


def package():
    root = os.path.join(REPO, "python", "qugar")
    for dp, dn, fn in os.walk(root):
        for f in sorted(fn):
            if f.endswith(".py"):
                yield os.path.join(dp, f)


def names(E):
    """every name of the compiled module the package uses is registered"""
    known = set(E.m.g)
    for p in package():
        t = ast.parse(open(p).read())
        al = {}
        for n in ast.walk(t):
            if isinstance(n, ast.Import):
                for a in n.names:
                    if a.name == "qugar.cpp" and a.asname:
                        al[a.asname] = True
            elif isinstance(n, ast.ImportFrom) and not n.level:
                if n.module == "qugar":
                    for a in n.names:
                        if a.name == "cpp":
                            al[a.asname or a.name] = True
                elif n.module == "qugar.cpp":
                    for a in n.names:
                        E.ctx.ob("names of the compiled module are registered", "%s %s" % (relpath(p), a.name), a.name in known or a.name == "*", "%s:%d" % (relpath(p), n.lineno), "%s is not registered in the compiled module" % a.name)
        for n in ast.walk(t):
            if isinstance(n, ast.Attribute):
                v = n.value
                if (isinstance(v, ast.Attribute) and v.attr == "cpp" and isinstance(v.value, ast.Name) and v.value.id == "qugar") or (isinstance(v, ast.Name) and v.id in al):
                    E.ctx.ob("names of the compiled module are registered", "%s:%d %s" % (relpath(p), n.lineno, n.attr), n.attr in known, "%s:%d" % (relpath(p), n.lineno), "%s is not registered in the compiled module" % n.attr)
                    E.ctx.unit("uses of the compiled module", "%s:%d %s" % (relpath(p), n.lineno, n.attr))


LIB = {"cells": "qugar::create_quadrature", "unf": "qugar::create_unfitted_bound_quadrature", "ext": "qugar::create_facets_quadrature_exterior_integral", "int": "qugar::create_facets_quadrature_interior_integral"}


def observer(d, log, counts):
    """library routines that make a quadrature with recognisable points, weights and normals"""
    h = {}

    def mk(kind):
        def obs(ev, f, args, o):
            a = [ev.rv(x) for x in args]
            vals = []
            for x in a[1:]:
                vals.append(list(x.d) if isinstance(x, Arr) else [x.getat(k) for k in range(x.n)] if isinstance(x, Span) else x)
            dom = a[0].t if isinstance(a[0], Ptr) else a[0]
            ta = [str(x) for x in f.get("ta", [])]
            log.append((kind, dom, vals, int(ta[0].rstrip("UL")) if ta else None))
            m = d if kind in ("cells", "unf") else d - 1
            n = [counts(k) for k in range(len(vals[0]))]
            N = sum(n)
            pts = [vec([S_("p%d_%d" % (i, k)) for k in range(m)]) for i in range(N)]
            w = [S_("w%d" % i) for i in range(N)]
            cls = {"cells": "qugar::CutCellsQuad<%d>", "unf": "qugar::CutUnfBoundsQuad<%d>", "ext": "qugar::CutIsoBoundsQuad<%d>", "int": "qugar::CutIsoBoundsQuad<%d>"}[kind] % m
            q = ev.new_object(cls)
            q.f["points"], q.f["weights"] = stdvec(pts, "algoim::uvector<double, %d>" % m), stdvec(w)
            q.f["cells"] = stdvec(vals[0], "long")
            if kind in ("ext", "int"):
                q.f["n_pts_per_facet"], q.f["local_facet_ids"] = stdvec(n, "int"), stdvec(vals[1], "int")
            else:
                q.f["n_pts_per_cell"] = stdvec(n, "int")
            if kind == "unf":
                q.f["normals"] = stdvec([vec([S_("n%d_%d" % (i, k)) for k in range(m)]) for i in range(N)], "algoim::uvector<double, %d>" % m)
            return Ptr(q)

        return obs

    for k, n in LIB.items():
        h[n] = mk(k)
    return h


def quads(E):
    it0 = Interp()
    ms = pm.models(E.ctx) + [("process without cells", pm.Model((3, 2), 8, local=[], off=4))]
    for mi, (name, mo) in enumerate(ms):
        d = mo.d
        N = len(mo.cells)
        lex = [dlf_face_lex(d, f) for f in range(2 * d)]
        for rep, deg in enumerate((0, 1, 2, 3, 4, 7) if mi < 2 else (1, 4)):
            cells = [(5 * k + rep) % N for k in range(min(N, 4))] if N else []
            cells = list(dict.fromkeys(cells))
            if rep == 3:
                cells = []
            fac = [(c, (3 * k + rep) % (2 * d)) for k, c in enumerate(cells * 2)]
            fac = list(dict.fromkeys(fac))
            for kind in LIB:
                log = []

                def go(it, kind=kind, mo=mo, cells=cells, fac=fac, deg=deg, d=d, log=log, rep=rep):
                    del log[:]
                    dom = Obj(IMPL + "UnfittedImplDomain<%d>" % d)
                    with hooked(E.br, observer(d, log, lambda k: (k * 2 + 1) % 3)):
                        m = mo.mesh(it)
                        u = it.call(it.get("qugar.mesh.unfitted_domain.UnfittedDomain"), [m, E.br.wrap(dom)])
                        mk = column if rep % 2 else arr
                        if kind in ("cells", "unf"):
                            t = mk(it, cells, "i4")
                            q = meth(it, u, "create_quad_custom_cells" if kind == "cells" else "create_quad_unf_boundaries", deg, t)
                        else:
                            t = it.call(it.get("qugar.mesh.mesh_facets.MeshFacets"), [mk(it, [c for c, _ in fac], "i4"), mk(it, [f for _, f in fac], "i4")])
                            q = meth(it, u, "create_quad_custom_facets", deg, t, kind == "ext")
                        first = get(it, q, "cells" if kind in ("cells", "unf") else "facets")
                        ent = ints(first) if kind in ("cells", "unf") else pm._pairs(it, first)
                        return dom, list(log), ent, {k: get(it, q, k) for k in ("n_pts_per_entity", "points", "weights") + (("normals",) if kind == "unf" else ())}

                def spec(it, r, S, kind=kind, mo=mo, cells=cells, fac=fac, deg=deg, d=d, lex=lex):
                    dom, log, ent, q = r
                    if len(log) != 1:
                        return False, "%d quadratures requested from the library" % len(log)
                    k, dd, a, td = log[0]
                    if k != kind:
                        return False, "the library is asked for the quadrature of %s" % k
                    if dd is not dom or td not in (None, d):
                        return False, "another domain"
                    fk = kind in ("ext", "int")
                    want = [mo.cells[c] for c, _ in fac] if fk else [mo.cells[c] for c in cells]
                    if a[0] != want:
                        return False, "the library is asked for cells %s, specified %s (original numbering)" % (a[0], want)
                    if fk and a[1] != [lex[f] for _, f in fac]:
                        return False, "the library is asked for local facets %s, specified %s" % (a[1], [lex[f] for _, f in fac])
                    n = a[2] if fk else a[1]
                    if not isinstance(n, int) or n < 1 or 2 * n - 1 < deg:
                        return False, "%s points per direction for degree %d" % (n, deg)
                    if n > 1 and 2 * n - 3 >= deg:
                        return False, "%s points per direction for degree %d, fewer suffice" % (n, deg)
                    if kind == "unf" and [bool(x) for x in a[2:4]] != [False, False]:
                        return False, "parts of the boundary over facets included: %s, parts over the exterior excluded: %s" % tuple(a[2:4])
                    if ent != (fac if fk else cells):
                        return False, "entities of the quadrature are %s instead of %s" % (ent, fac if fk else cells)
                    cnt = [(k * 2 + 1) % 3 for k in range(len(want))]
                    T_, m = sum(cnt), d - 1 if fk else d
                    cs = [array(it, S, q["n_pts_per_entity"], cnt, (len(cnt),), "i4", "numbers of points"),
                          array(it, S, q["points"], [S_("p%d_%d" % (i, k)) for i in range(T_) for k in range(m)], (T_, m), "f8", "points"), array(it, S, q["weights"], [S_("w%d" % i) for i in range(T_)], (T_,), "f8", "weights")]
                    if kind == "unf":
                        cs.append(array(it, S, q["normals"], [S_("n%d_%d" % (i, k)) for i in range(T_) for k in range(m)], (T_, m), "f8", "normals"))
                    return both(*cs)

                fn = {"cells": "create_quad_custom_cells", "unf": "create_quad_unf_boundaries"}.get(kind, "create_quad_custom_facets")
                E.run("quadrature of the entities given", "%s %s degree %d" % (name, kind, deg), go, spec, nm=Q + fn, hooks=mo.hooks())


def oracle_domain(E, d, ns, forced):
    orc = dm.Oracle(d, ns, E.P)
    orc.forced = forced
    for ev, out, o in paths(lambda: Eval(E.P, hooks=dm.hooks_for(E.P, d, orc), max_steps=4000000), lambda ev: dm.unfdom(ev, E.P, d, ns), 1):
        if out != "ok" or ev.taken:
            raise Undecided("state of the domain")
        return o


def cart(E):
    """unfitted Cartesian meshes: grid, domain and active cells"""
    for d, ns in ((2, (3, 2)), (3, (3, 2, 1)), (2, (2, 2)), (3, (2, 2, 2))):
        one = len(set(ns)) == 1
        forced = {0: "neg", 1: "cut", 2: "pos", 3: "pos", 4: "neg", 5: "cut", 6: "neg", 7: "pos"}
        if one:
            forced[3] = "cut"
        N = 1
        for x in ns:
            N *= x
        forced = {k: v for k, v in forced.items() if k < N}
        act = sorted(k for k, v in forced.items() if v != "pos")
        box = {}
        for excl in (None, True, False):
            for dt in ("f8", "f4"):
                for form in ("number",) if one else ("corners", "unit"):
                    if form != "corners" and (dt == "f4" or excl is False):
                        continue

                    def go(it, d=d, ns=ns, excl=excl, dt=dt, form=form, box=box):
                        if "o" not in box:
                            box["o"] = oracle_domain(E, d, ns, forced)
                        seen = []

                        def obs(ev, cls, args):
                            seen.append([ev.rv(a) for a in args])
                            return box["o"]

                        phi = Obj(IMPL + "funcs::Sphere<%d>" % d)
                        f = it.call(it.get("qugar.impl.impl_function.ImplicitFunc"), [E.br.wrap(phi)])
                        nn = 2 if form == "number" else list(ns)
                        kw = {}
                        if form == "corners":
                            kw = {"xmin": arr(it, [1.0, -2.0, 0.5][:d], dt), "xmax": arr(it, [4.0, 2.0, 8.5][:d], dt)}
                        if excl is not None:
                            kw["exclude_empty_cells"] = excl
                        with hooked(E.br, {"make:" + IMPL + "UnfittedImplDomain": obs}):
                            m = it.call(it.get("qugar.mesh.unfitted_cart_mesh.create_unfitted_impl_Cartesian_mesh"), [fake("comm", rank=0, size=2), f, nn], dict(kw, degree=2, ghost_mode="gm"))
                        return m, phi, seen, it.trace, get(it, m, "cpp_unf_domain_object"), get(it, m, "cart_grid_tp_cpp_object")

                    def spec(it, r, S, d=d, ns=ns, excl=excl, dt=dt, form=form, box=box):
                        m, phi, seen, tr, dom, gr = r
                        n = (2,) * d if form == "number" else ns
                        lo, hi = ([1.0, -2.0, 0.5][:d], [4.0, 2.0, 8.5][:d]) if form == "corners" else ([0.0] * d, [1.0] * d)
                        if len(seen) != 1:
                            return False, "%d domains made" % len(seen)
                        a = [x.t if isinstance(x, Ptr) else x for x in seen[0]]
                        if a[0] is not phi:
                            return False, "the domain is made with another function"
                        if len(a) > 2:
                            return False, "the domain is restricted to %s" % (a[2:],)
                        if not isinstance(gr, PO) or a[1] is not gr.f["__cxx__"] or dom.f.get("__cxx__") is not box["o"]:
                            return False, "the mesh keeps another grid or domain"
                        br = [flat(b) for b in it.iter(get(it, gr, "cell_breaks"))]
                        for k in range(d):
                            if len(br[k]) != n[k] + 1 or any(abs(float(br[k][i]) - (lo[k] + (hi[k] - lo[k]) * i / n[k])) > 1e-12 for i in range(n[k] + 1)):
                                return False, "breaks along direction %d are %s" % (k, br[k])
                        e = [x for x in tr if x[0] == "call" and isinstance(x[1], U) and x[1].path.endswith("mesh.create_mesh")]
                        if not e:
                            return None, "creation of the DOLFINx mesh not found"
                        N = 1
                        for x in n:
                            N *= x
                        ids = list(range(N)) if excl is False else act
                        if tuple(e[0][2][1].shape) != (len(ids), 3**d):
                            return False, "connectivity of shape %s for %d active cells" % (tuple(e[0][2][1].shape), len(ids))
                        if e[0][2][3].dt != D[dt]:
                            return False, "nodes of type %s for bounds of type %s" % (e[0][2][3].dt, dt)
                        g = [x for x in tr if x[0] == "call" and isinstance(x[1], U) and x[1].path.endswith("create_cell_partitioner")]
                        if not g or "gm" not in list(g[0][2]) + list(g[0][3].values()):
                            return False, "ghost mode not passed to the partitioner"
                        if bool(it.truth(it.getattr_(m, "has_inactive_cells"))) != (excl is not False):
                            return False, "inactive cells: %s" % it.getattr_(m, "has_inactive_cells")
                        # the first node of every cell tells which cells are active
                        pts, conn = e[0][2][3], e[0][2][1]
                        rows = pynp.els(conn)
                        xs = pynp.els(pts)
                        got = []
                        for row in rows:
                            mid = [sum(float(xs[int(i)][k]) for i in row) / len(row) for k in range(d)]
                            t = [int((mid[k] - lo[k]) / (hi[k] - lo[k]) * n[k]) for k in range(d)]
                            got.append(sum(t[k] * pm._st(n, k) for k in range(d)))
                        if got != ids:
                            return False, "cells %s made, specified %s" % (got, ids)
                        return True, ""

                    E.run("unfitted Cartesian mesh", "%dD %s %s, exclude_empty_cells=%s" % (d, form, dt, excl), go, spec, nm="qugar.mesh.unfitted_cart_mesh.create_unfitted_impl_Cartesian_mesh")


def reparam(E):
    from . import reparam as rp

    R = "qugar.reparam.reparam."
    for d in (2, 3):
        for ls in (False, True):
            for deg in (1, 2, 3):
                def go(it, d=d, ls=ls, deg=deg):
                    log = []

                    def obs(ev, f, args, o):
                        a = [ev.rv(x) for x in args]
                        ta = [str(x) for x in f.get("ta", [])]
                        n = [x for x in a[1:] if isinstance(x, int) and not isinstance(x, bool)][0]
                        q = rp.new(ev, d - ls, d, n)
                        log.append((ta, a, q))
                        return Ptr(q)

                    dom = Obj(IMPL + "UnfittedImplDomain<%d>" % d)
                    with hooked(E.br, {"qugar::create_reparameterization": obs}):
                        u = fake("unf_domain", cpp_unf_domain_object=E.br.wrap(dom), mesh=fake("mesh", comm="the comm"))
                        q = it.call(it.get(R + "create_reparam_mesh"), [u] + ([deg] if deg != 3 else []), {"levelset": ls} if ls else {})
                    return dom, log, get(it, q, "cpp_object"), get(it, q, "unf_domain"), u

                def spec(it, r, S, d=d, ls=ls, deg=deg):
                    dom, log, c, ud, u = r
                    if len(log) != 1:
                        return False, "%d reparameterizations requested" % len(log)
                    ta, a, q = log[0]
                    if (a[0].t if isinstance(a[0], Ptr) else a[0]) is not dom or ud is not u:
                        return False, "another domain"
                    if len(ta) > 1 and (ta[1] in ("1", "true")) != ls:
                        return False, "levelset = %s requested" % ta[1]
                    if c.f.get("__cxx__") is not q:
                        return False, "another reparameterization is kept"
                    n = [x for x in a[1:] if isinstance(x, int) and not isinstance(x, bool)][0]
                    if n != deg + 1:
                        return False, "%d points per direction for degree %d" % (n, deg)
                    if any(x is True for x in a[1:]):
                        return False, "merging of points requested"
                    return True, ""

                E.run("reparameterization of the domain given", "%dD degree %d%s" % (d, deg, " levelset" if ls else ""), go, spec, nm=R + "create_reparam_mesh")
    for d, rg in rp.KINDS:
        for order in (2, 3, 4):
            for wire in (False, True):
                M_ = order**d
                PT = [[S_("q%d_%d" % (i, k)) for k in range(rg)] for i in range(2 * M_)]
                WV = [(7 * i + 3) % (2 * M_) for i in range(3 * order)]

                def go(it, d=d, rg=rg, order=order, wire=wire, PT=PT, WV=WV, M_=M_):
                    ev = Eval(E.P, hooks=E.br.hk, max_steps=2000000)
                    ev.uvzero = True
                    o = rp.new(ev, d, rg, order)
                    rp.fill(ev, o, d, rg, [PT[:M_], PT[M_:]])
                    w = ev.rv(ev.call(rp.M(E.P, d, rg, "get_wires_connectivity")[0], [], o))
                    w.d[:] = list(WV)
                    st = rp.state(ev, o, d, rg)
                    u = fake("unf_domain", mesh=fake("mesh", comm="the comm"))
                    m = it.call(it.get(R + "UnfDomainReparamMesh"), [u, E.br.wrap(o)])
                    meth(it, m, "create_mesh", *([True] if wire else []))
                    return st, it.trace

                def spec(it, r, S, d=d, rg=rg, order=order, wire=wire, WV=WV):
                    st, tr = r
                    e = [x for x in tr if x[0] == "call" and isinstance(x[1], U) and x[1].path.endswith("mesh.create_mesh")]
                    el = [x for x in tr if x[0] == "call" and isinstance(x[1], U) and x[1].path.endswith("ufl.element")]
                    um = [x for x in tr if x[0] == "call" and isinstance(x[1], U) and x[1].path == "ufl.Mesh"]
                    if len(e) != 1 or len(el) != 1 or len(um) != 1:
                        return None, "creation of the DOLFINx mesh not found"
                    a = dict(zip(("comm", "cells", "e", "x", "partitioner"), e[0][2]))
                    a.update(e[0][3])
                    if a["comm"] != "the comm":
                        return False, "another communicator"
                    t = 1 if wire else d
                    mask = [sum(x * order**j for j, x in enumerate(q)) for q in dlf_nodes(t, order - 1)]
                    rows = [WV[k : k + order] for k in range(0, len(WV), order)] if wire else st[1]
                    want = [row[k] for row in rows for k in mask]
                    if shape(a["cells"]) != (len(rows), order**t) or ints(a["cells"]) != want:
                        return False, "connectivity %s, specified %s" % (ints(a["cells"])[:9], want[:9])
                    if a["cells"].dt.n != D["i8"].n:
                        return False, "connectivity of type %s" % a["cells"].dt.n
                    ok = array(it, S, a["x"], [x for p in st[0] for x in p], (len(st[0]), rg), "f8", "points")
                    if ok[0] is not True:
                        return ok
                    b = dict(zip(("family", "cell", "degree"), el[0][2]))
                    b.update(el[0][3])
                    if b["degree"] != order - 1:
                        return False, "element of degree %s" % b["degree"]
                    if tuple(ints(b["shape"])) != (rg,):
                        return False, "element of shape %s" % (b["shape"],)
                    cell = getattr(b["cell"], "path", str(b["cell"]))
                    if not cell.endswith(["interval", "quadrilateral", "hexahedron"][t - 1]):
                        return False, "element of a %s" % cell
                    if b.get("family") not in ("Lagrange", "P", "CG", "Q"):
                        return False, "element of family %s" % b.get("family")
                    return True, ""

                E.run("mesh of a reparameterization", "%d in %d, order %d%s" % (d, rg, order, ", wirebasket" if wire else ""), go, spec, nm=R + "UnfDomainReparamMesh.create_mesh")


def run_C19(ctx):
    P = full()
    E = Env(ctx, P)
    names(E)
    quads(E)
    cart(E)
    reparam(E)
