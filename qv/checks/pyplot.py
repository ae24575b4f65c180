"""C37 exports to PyVista: grids, classifications of cells and facets, quadrature points, reparameterizations."""
import itertools, random
from ..pysym import *
from .pyindex import dlf_face_lex, dlf_nodes, fl, vtk_nodes
from .pymesh import Model, Domain, models, _st, M, pynp_zeros

P = "qugar.plot.pyvista_tools."
V = "vmodel.pv."
CPP = ("UnfittedDomain_2D", "UnfittedDomain_3D", "CartGridTP_2D", "CartGridTP_3D", "ReparamMesh_1_2", "ReparamMesh_2_2", "ReparamMesh_2_3", "ReparamMesh_3_3")


def setup(it):
    for c in ("CellType", "UnstructuredGrid", "RectilinearGrid"):
        it.over["pyvista." + c] = it.get(V + c)
    it.over["pyvista.MultiBlock"] = nat("MultiBlock", lambda it, d=None: dict(d or {}))
    for c in CPP:
        it.over["qugar.cpp." + c] = it.get(V + c)


def cd(it, g, name):
    d = it.getattr_(g, "cell_data")
    if name not in d:
        return None
    return flat(d[name])


def hooks_of(mo):
    h = mo.hooks()
    h[("selfattr", "geometry")] = lambda it, o: fake("geometry", dim=mo.d, x=arr(it, [0.0] * 3))
    return h


class Dom(Domain):
    """unfitted domain with its grid, as a C++ object and as the domain of a Cartesian mesh"""

    def __init__(self, mo, seed):
        super().__init__(mo, seed)
        for k in self.facet:  # nothing of an empty cell is inside
            if self.cell[k[0]] == "empty":
                self.facet[k] = "empty"
                self.unf.discard(k)
                self.full_unf.discard(k)
        self.br = [[S_("b%d_%d" % (k, i)) for i in range(mo.n[k] + 1)] for k in range(mo.d)]

    def grid(self, it):
        mo = self.mo

        def dom(it, c):
            c = ints(c)[0]
            t = [(c // _st(mo.n, k)) % mo.n[k] for k in range(mo.d)]
            return fake("box", min_corner=arr(it, [self.br[k][t[k]] for k in range(mo.d)]), max_corner=arr(it, [self.br[k][t[k] + 1] for k in range(mo.d)]))

        return new(it, V + "CartGridTP_%dD" % mo.d, dim=mo.d, cell_breaks=[arr(it, b) for b in self.br], num_cells_dir=arr(it, list(mo.n), "i4"), get_cell_domain=nat("get_cell_domain", dom))

    def cells(self, s):
        g = super().cells(s)
        return lambda it, target_cell_ids=None: g(it, target_cell_ids)

    def facets(self, s):
        g = super().facets(s)
        mo = self.mo

        def go(it, target_cell_ids=None, target_local_facet_ids=None):
            if target_cell_ids is None:
                al = [(c, f) for c in range(mo.N) for f in range(2 * mo.d)]
                target_cell_ids, target_local_facet_ids = [k[0] for k in al], [k[1] for k in al]
            return g(it, target_cell_ids, target_local_facet_ids)

        return go

    def cpp(self, it):
        f = super().cpp(it)
        o = new(it, V + "UnfittedDomain_%dD" % self.mo.d)
        o.f.update({k: v for k, v in f.f.items() if k != "__name__"}, grid=self.grid(it))
        return o

    def mesh(self, it):
        mo = self.mo
        cpp = self.cpp(it)
        m = it.call(it.get(M + "unfitted_cart_mesh.UnfittedCartMesh"), [fake("comm", rank=0, size=1), cpp, it.getattr_(cpp, "grid"), 1, len(mo.active) != mo.N])
        return m

    def obj2(self, it, kind):
        return self.cpp(it) if kind == "C++" else self.mesh(it)


def doms(ctx):
    r = []
    for n, seed in (((3,), 0),) if False else (((3, 2), 1), ((2, 4), 2), ((2, 2, 3), 3), ((3, 2, 2), 4)) + ((((4, 3), 5), ((3, 3, 2), 6), ((1, 5), 7)) if ctx.thorough else ()):
        mo = Model(n, seed)
        d = Dom(mo, 40 + seed)
        r.append(("%s cells" % "x".join(map(str, n)), mo, d))
        # a mesh that leaves the empty cells out
        act = [c for c in range(mo.N) if d.cell[c] != "empty"]
        mo2 = Model(n, seed + 50, active=act)
        d2 = Dom(mo2, 40 + seed)
        r.append(("%s cells without the empty ones" % "x".join(map(str, n)), mo2, d2))
    return r


def run_C37(ctx):
    it0 = Interp()
    ms = doms(ctx)
    kinds = ("C++", "mesh")

    # ---- grids
    for name, mo, dom in ms:
        for kind in kinds:
            if kind == "C++" and len(mo.active) != mo.N:
                continue
            for fn in ("cart_grid_tp_to_PyVista", "grid_tp_to_PyVista"):

                def go(it):
                    g = dom.grid(it) if kind == "C++" else dom.mesh(it)
                    r = it.call(it.get(P + fn), [g])
                    return r, [flat(b) for b in it.getattr_(r, "breaks")], ints(it.getattr_(r, "keys"))

                def spec(it, r, S):
                    g, br, keys = r
                    if br != dom.br:
                        return False, "breaks %s" % br
                    ids = mo.active if kind == "mesh" else list(range(mo.N))
                    if keys != list(ids):
                        return False, "cells %s exported, specified %s" % (keys, ids)
                    return check_ids(it, g, [k for k in keys], mo, kind)

                ctx.attempt("grids", "%s, %s, %s" % (fn, kind, name), lambda: pydecide(ctx, go, spec, hooks=hooks_of(mo), setup=setup), wf(it0.get(P + fn)))

            # ---- status of cells
            for sel in itertools.product((True, False), repeat=3):

                def go(it):
                    return it.call(it.get(P + "unfitted_domain_to_PyVista"), [dom.obj2(it, kind)], dict(zip(("cut", "full", "empty"), sel)))

                def spec(it, g, S):
                    keys = ints(it.getattr_(g, "keys"))
                    want = dict(zip(("cut", "full", "empty"), sel))
                    ids = [c for c in (mo.active if kind == "mesh" else range(mo.N)) if want[dom.cell[c]]]
                    if keys != ids:
                        return False, "cells %s (%s) exported, specified %s" % (keys, [dom.cell[c] for c in keys], ids)
                    st = cd(it, g, "Cell status (0: full, 1: cut, 2: empty)")
                    if st is None:
                        return False, "no status of cells"
                    w = [{"full": 0, "cut": 1, "empty": 2}[dom.cell[c]] for c in keys]
                    if ints(st) != w:
                        return False, "status of cells %s: %s, specified %s" % (keys, ints(st), w)
                    return check_ids(it, g, keys, mo, kind)

                ctx.attempt("status of cells", "%s, %s, cut %s full %s empty %s" % ((kind, name) + sel), lambda: pydecide(ctx, go, spec, hooks=hooks_of(mo), setup=setup), wf(it0.get(P + "unfitted_domain_to_PyVista")))

            # ---- status of facets
            for sel in ((True, True, True), (True, False, False), (False, True, False), (False, False, True)):

                def go(it):
                    return it.call(it.get(P + "unfitted_domain_facets_to_PyVista"), [dom.obj2(it, kind)], dict(zip(("cut", "full", "empty"), sel)))

                def spec(it, g, S):
                    keys = [tuple(k) for k in it.iter(it.getattr_(g, "keys"))]
                    want = dict(zip(("cut", "full", "empty"), sel))
                    if kind == "mesh":
                        lex = [dlf_face_lex(mo.d, f) for f in range(2 * mo.d)]
                        w = {}
                        for k in want:
                            if want[k]:
                                for c, f in dom.want(k, True):
                                    w[(mo.cells[c], lex[f])] = k
                    else:
                        w = {k: s for k, s in dom.facet.items() if want.get(s)}
                    if sorted(keys) != sorted(w):
                        return False, "facets (cell, facet) %s missing, %s unexpected" % (sorted(set(w) - set(keys))[:6], sorted(set(keys) - set(w))[:6])
                    st = cd(it, g, "Facet status (0: full, 1: cut, 2: empty)")
                    ws = [{"full": 0, "cut": 1, "empty": 2}[w[k]] for k in keys]
                    if st is None or ints(st) != ws:
                        return False, "status of facets %s: %s, specified %s" % (keys[:6], st[:6], ws[:6])
                    cs = cd(it, g, "Cell status (0: full, 1: cut, 2: empty)")
                    wc = [{"full": 0, "cut": 1, "empty": 2}[dom.cell[k[0]]] for k in keys]
                    if cs is None or ints(cs) != wc:
                        return False, "status of the cells of the facets %s: %s, specified %s" % (keys[:6], cs and cs[:6], wc[:6])
                    return facet_ids(it, g, [k[1] for k in keys], mo, kind, lambda: check_ids(it, g, [k[0] for k in keys], mo, kind))

                ctx.attempt("status of facets", "%s, %s, cut %s full %s empty %s" % ((kind, name) + sel), lambda: pydecide(ctx, go, spec, hooks=hooks_of(mo), setup=setup), wf(it0.get(P + "unfitted_domain_facets_to_PyVista")))

            # ---- quadratures
            for npts in (3, None):
                ctx.attempt("quadrature points", "%s, %s, %s points" % (kind, name, npts), lambda: quads(ctx, mo, dom, kind, npts), wf(it0.get(P + "quadrature_to_PyVista")))

    # ---- reparameterizations
    for dim, rng, cls in ((1, 2, "ReparamMesh_1_2"), (2, 2, "ReparamMesh_2_2"), (2, 3, "ReparamMesh_2_3"), (3, 3, "ReparamMesh_3_3")):
        for p in (1, 2, 3) + ((4, 5) if ctx.thorough else ()):
            for nc in (2, 0):
                ctx.attempt("reparameterizations", "%s of degree %d, %d cells" % (cls, p, nc), lambda: rep(ctx, dim, rng, cls, p, nc), wf(it0.get(P + "reparam_mesh_to_PyVista")))


def check_ids(it, g, cells, mo, kind):
    lex = cd(it, g, "Lexicographical cell ids")
    if lex is None or ints(lex) != list(cells):
        return False, "lexicographical cell ids %s, specified %s" % (lex, cells)
    loc = cd(it, g, "DOLFINx local cell ids")
    glo = cd(it, g, "DOLFINx global cell ids")
    if kind == "C++":
        return True, ""
    inv = {c: i for i, c in enumerate(mo.cells)}
    w = [inv[c] for c in cells]
    if loc is None or ints(loc) != w:
        return False, "DOLFINx local ids of cells %s: %s, specified %s" % (cells[:8], loc and loc[:8], w[:8])
    w = [10 * mo.off + i for i in w]
    if glo is None or ints(glo) != w:
        return False, "DOLFINx global ids of cells %s: %s, specified %s" % (cells[:8], glo and glo[:8], w[:8])
    return True, ""


def facet_ids(it, g, lex, mo, kind, then):
    v = cd(it, g, "Lexicographical local facets ids")
    if v is None or ints(v) != list(lex):
        return False, "lexicographical facet ids %s, specified %s" % (v and v[:8], list(lex)[:8])
    if kind == "mesh":
        inv = {dlf_face_lex(mo.d, f): f for f in range(2 * mo.d)}
        v = cd(it, g, "DOLFINx local facets ids")
        w = [inv[f] for f in lex]
        if v is None or ints(v) != w:
            return False, "DOLFINx facet ids of %s: %s, specified %s" % (list(lex)[:8], v and v[:8], w[:8])
    return then()


def quads(ctx, mo, dom, kind, npts):
    d = mo.d
    rr = random.Random(mo.N * 10 + d)
    cnt = {}

    def count(key):
        return cnt.setdefault(key, rr.choice((0, 1, 2, 3)))

    def mk(it, tag, cells, facets, pd, normals):
        ks = list(cells) if facets is None else list(zip(cells, facets))
        nn = [count((tag, k)) for k in ks]
        name = lambda k: ("%d" % k) if facets is None else "%d_%d" % k
        pts = [[S_("%sx%s_%d_%d" % (tag, name(k), q, j)) for j in range(pd)] for k, n in zip(ks, nn) for q in range(n)]
        f = dict(cells=arr(it, cells, "i4"), n_pts_per_entity=arr(it, nn, "i4"), points=asA(it, pts, D["f8"]) if pts else pynp_zeros(it, (0, pd)),
                 weights=arr(it, [S_("%sw%s_%d" % (tag, name(k), q)) for k, n in zip(ks, nn) for q in range(n)]))
        if facets is not None:
            f["facets"] = arr(it, facets, "i4")
        if normals:
            no = [[S_("%sn%s_%d_%d" % (tag, name(k), q, j)) for j in range(pd)] for k, n in zip(ks, nn) for q in range(n)]
            f["normals"] = asA(it, no, D["f8"]) if no else pynp_zeros(it, (0, pd))
        return new(it, V + "Quad", **f)

    def go(it):
        asked = []

        def n_of(a, k):
            return ints(k.get("n_pts_dir", a[0] if a else None))[0]

        def cq(it, dm, cells, n_pts_dir):
            asked.append(("cells", ints(n_pts_dir)[0]))
            return mk(it, "c", ints(cells), None, d, False)

        def bq(it, dm, cells, n_pts_dir, include_facet_unf_bdry=False, exclude_ext_bdry=False):
            asked.append(("bdry", ints(n_pts_dir)[0], bool(it.truth(include_facet_unf_bdry)), bool(it.truth(exclude_ext_bdry))))
            return mk(it, "u", ints(cells), None, d, True)

        def fq(it, dm, cells, facets, n_pts_dir):
            asked.append(("facets", ints(n_pts_dir)[0]))
            cells, facets = ints(cells), ints(facets)
            return mk(it, "f", cells, facets, d - 1, False)

        it.over["qugar.cpp.create_quadrature"] = nat("create_quadrature", cq)
        it.over["qugar.cpp.create_unfitted_bound_quadrature"] = nat("create_unfitted_bound_quadrature", bq)
        it.over["qugar.cpp.create_facets_quadrature_exterior_integral"] = nat("create_facets_quadrature_exterior_integral", fq)
        r = it.call(it.get(P + "quadrature_to_PyVista"), [dom.obj2(it, kind)] + ([npts] if npts else []))
        return r, asked

    def spec(it, r, S):
        mb, asked = r
        n = npts or 4
        if any(a[1] != n for a in asked):
            return False, "quadratures of %s asked, specified %d points per direction" % (asked, n)
        blk = {}
        for nm in ("Cut cells quadrature", "Unfitted boundary quadrature", "Cut/unfitted facets quadrature"):
            v = mb.get(nm) if isinstance(mb, dict) else it.call(it.getattr_(mb, "get"), [nm])
            if v is None:
                return False, "no block %s" % nm
            blk[nm] = v

        def boxed(c, x):
            t = [(c // _st(mo.n, k)) % mo.n[k] for k in range(d)]
            lo = [dom.br[k][t[k]] for k in range(d)]
            hi = [dom.br[k][t[k] + 1] for k in range(d)]
            return [lo[k] + x[k] * (hi[k] - lo[k]) for k in range(d)] + [tm.ZERO if hasattr(tm, "ZERO") else 0.0] * (3 - d)

        def rows(g, cells, wid, pts, extra=None):
            k = len(cells)
            ct = ints(it.getattr_(g, "celltypes"))
            conn = ints(it.getattr_(g, "cells"))
            if ct != [1] * k or conn != [y for i in range(k) for y in (1, i)]:
                return False, "the points are not vertex cells, one per point: types %s, connectivity %s" % (ct[:4], conn[:6])
            x = flat(it.getattr_(g, "points"))
            if len(x) != 3 * k:
                return False, "%d coordinates for %d points" % (len(x), k)
            for i in range(k):
                for j in range(3):
                    ok, det = S.same(x[3 * i + j], pts[i][j], it.pc)
                    if not ok:
                        return ok, "point %d coordinate %d: %s" % (i, j, det)
            w = cd(it, g, "Weights")
            if w != wid:
                return False, "weights %s, specified %s" % (w and w[:4], wid[:4])
            return check_ids(it, g, cells, mo, kind)

        cut = [c for c in range(mo.N) if dom.cell[c] == "cut"]
        for nm, tag, nrm in (("Cut cells quadrature", "c", False), ("Unfitted boundary quadrature", "u", True)):
            ks = [(c, q) for c in cut for q in range(count((tag, c)))]
            pts = [boxed(c, [S_("%sx%d_%d_%d" % (tag, c, q, j)) for j in range(d)]) for c, q in ks]
            ok, det = rows(blk[nm], [c for c, q in ks], [S_("%sw%d_%d" % (tag, c, q)) for c, q in ks], pts)
            if not ok:
                return ok, "%s: %s" % (nm, det)
            if nrm:
                v = cd(it, blk[nm], "Normals")
                w = [x for c, q in ks for x in [S_("un%d_%d_%d" % (c, q, j)) for j in range(d)] + [0] * (3 - d)]
                if v is None or len(v) != len(w):
                    return False, "normals of %s entries, specified %d" % (v and len(v), len(w))
                for i, (a, b) in enumerate(zip(v, w)):
                    ok, det = S.same(a, b, it.pc)
                    if not ok:
                        return ok, "normals: entry %d: %s" % (i, det)
        # facets: cut ones and those with unfitted boundary
        al = [(c, f) for c in range(mo.N) for f in range(2 * d)]
        ks = [k for k in al if dom.facet[k] == "cut"] + [k for k in al if k in dom.unf]
        kq = [(c, f, q) for c, f in ks for q in range(count(("f", (c, f))))]
        pts = []
        for c, f, q in kq:
            kd, s = divmod(f, 2)
            y = [S_("fx%d_%d_%d_%d" % (c, f, q, j)) for j in range(d - 1)]
            x = y[:kd] + [float(s)] + y[kd:]
            pts.append(boxed(c, x))
        g = blk["Cut/unfitted facets quadrature"]
        ok, det = rows(g, [c for c, f, q in kq], [S_("fw%d_%d_%d" % (c, f, q)) for c, f, q in kq], pts)
        if not ok:
            return ok, "facets: %s" % det
        return facet_ids(it, g, [f for c, f, q in kq], mo, kind, lambda: (True, ""))

    return pydecide(ctx, go, spec, hooks=hooks_of(mo), setup=setup)


def rep(ctx, dim, rng, cls, p, nc):
    nn, nw = (p + 1) ** dim, p + 1
    r = random.Random(dim * 10 + p)
    N = nn * max(nc, 1) + 3
    conn = [[r.randrange(N) for _ in range(nn)] for _ in range(nc)]
    wb = [[r.randrange(N) for _ in range(nw)] for _ in range(nc + 1)]

    def go(it):
        mk = lambda rows, k: asA(it, rows, D["i4"]) if rows else pynp_zeros(it, (0, k))
        o = new(it, V + cls, dim=dim, order=p + 1, points=asA(it, [[S_("x%d_%d" % (i, j)) for j in range(rng)] for i in range(N)], D["f8"]), cells_conn=mk(conn, nn), wirebasket_conn=mk(wb, nw))
        return it.call(it.get(P + "reparam_mesh_to_PyVista"), [o])

    def spec(it, mb, S):
        for nm, rows, d in (("reparam", conn, dim), ("wirebasket", wb, 1)):
            g = mb.get(nm) if isinstance(mb, dict) else it.call(it.getattr_(mb, "get"), [nm])
            if g is None:
                return False, "no block %s" % nm
            k = (p + 1) ** d
            lex = [fl(i, (p + 1,) * d) for i in vtk_nodes(d, p)]
            w = [y for row in rows for y in [k] + [row[i] for i in lex]]
            got = ints(it.getattr_(g, "cells"))
            if got != w:
                return False, "%s: connectivity %s, specified %s" % (nm, got[: k + 1], w[: k + 1])
            ty = ({1: 3, 2: 9, 3: 12} if p == 1 else {1: 68, 2: 70, 3: 72})[d]
            if ints(it.getattr_(g, "celltypes")) != [ty] * len(rows):
                return False, "%s: cell types %s, specified %d" % (nm, ints(it.getattr_(g, "celltypes")), ty)
            x = flat(it.getattr_(g, "points"))
            wx = [y for i in range(N) for y in [S_("x%d_%d" % (i, j)) for j in range(rng)] + [0] * (3 - rng)]
            if len(x) != len(wx):
                return False, "%s: %d coordinates, specified %d" % (nm, len(x), len(wx))
            for a, b in zip(x, wx):
                ok, det = S.same(a, b, it.pc)
                if not ok:
                    return ok, "%s: points: %s" % (nm, det)
        return True, ""

    return pydecide(ctx, go, spec, setup=setup)
