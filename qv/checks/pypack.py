"""C26: coefficients packed for the custom integrals (layout of the run time data)."""
import random
from ..pysym import *
from ..pynp import W, from_els, oarr

P = "qugar.dolfinx.custom_coefficients."
REALS = {"f8": "f8", "f4": "f4", "c16": "f8", "c8": "f4"}

# reference facets of the basix cells: vertices of every facet
GEOM = {
    "triangle": ([(0, 0), (1, 0), (0, 1)], [(1, 2), (0, 2), (0, 1)]),
    "quadrilateral": ([(0, 0), (1, 0), (0, 1), (1, 1)], [(0, 1), (0, 2), (1, 3), (2, 3)]),
    "tetrahedron": ([(0, 0, 0), (1, 0, 0), (0, 1, 0), (0, 0, 1)], [(1, 2, 3), (0, 2, 3), (0, 1, 3), (0, 1, 2)]),
    "hexahedron": ([(0, 0, 0), (1, 0, 0), (0, 1, 0), (1, 1, 0), (0, 0, 1), (1, 0, 1), (0, 1, 1), (1, 1, 1)],
                   [(0, 1, 2, 3), (0, 1, 4, 5), (0, 2, 4, 6), (1, 3, 5, 7), (2, 3, 6, 7), (4, 5, 6, 7)]),
}
FACET = {"triangle": "interval", "quadrilateral": "interval", "tetrahedron": "triangle", "hexahedron": "quadrilateral"}


def basix_over(it_unused=None):
    """models of the reference cell queries of basix and ufl"""

    def name_of(x):
        n = x.path.split(".")[-1] if isinstance(x, U) else str(x)
        if n not in GEOM:
            raise Undecided("reference cell %s" % n)
        return n

    def geometry(it, a, k):
        return arr(it, [list(v) for v in GEOM[name_of(a[0])][0]])

    def topology(it, a, k):
        n = name_of(a[0])
        g, f = GEOM[n]
        d = len(g[0])
        t = [[[i] for i in range(len(g))]] + ([[[-1, -1]]] if d == 3 else []) + [[list(x) for x in f], [list(range(len(g)))]]
        return t

    def cell(it, a, k):
        n = str(a[0]) if not isinstance(a[0], U) else name_of(a[0])
        if n not in GEOM:
            raise Undecided("ufl cell %s" % n)
        d = len(GEOM[n][0][0])
        ft = FACET[n]
        fc = fake("facet cell", cellname=nat("cellname", lambda it: ft), topological_dimension=nat("td", lambda it: d - 1))
        return fake("cell", cellname=nat("cellname", lambda it: n), topological_dimension=nat("td", lambda it: d),
                    num_sub_entities=nat("num_sub_entities", lambda it, k: len(GEOM[n][1]) if k == d - 1 else _und("sub entities")),
                    sub_entity_types=nat("sub_entity_types", lambda it, k: [fc] if k == d - 1 else _und("sub entities")))

    return {"basix.geometry": geometry, "basix.topology": topology, "basix.cell.geometry": geometry, "basix.cell.topology": topology, "ufl.Cell": cell, "ufl.cell.Cell": cell}


def _und(m):
    raise Undecided(m)


def perm_map(ft, p, x):
    """point x of the facet of type ft for the permutation number p = 2 rotations + reflections (FFCx)"""
    x = list(x)
    if ft == "interval":
        return [1 - x[0]] if p % 2 else x
    for _ in range(p // 2):
        x = [x[1], 1 - x[0] - x[1]] if ft == "triangle" else [x[1], 1 - x[0]]
    return [x[1], x[0]] if p % 2 else x


def facet_map(cell, f, x):
    g, fs = GEOM[cell]
    o = g[fs[f][0]]
    r = []
    for j in range(len(o)):
        v = o[j]
        for i in range(len(o) - 1):
            v = v + x[i] * (g[fs[f][i + 1]][j] - o[j])
        r.append(v)
    return r


NPERM = {"interval": 2, "triangle": 6, "quadrilateral": 8}


class Case:
    """one integral: domain of entities with their states, quadratures, coefficients"""

    def __init__(self, itype, cell, nent, states, dt, cols, quads, mixed=False, seed=0):
        r = random.Random(seed)
        self.itype, self.cell, self.dt, self.cols, self.quads, self.mixed = itype, cell, dt, cols, quads, mixed
        self.g = len(GEOM[cell][0][0])
        self.nf = len(GEOM[cell][1])
        ncell = 3 * nent + 4
        self.ncell = ncell
        self.perms = [r.randrange(NPERM[FACET[cell]]) for _ in range(ncell * self.nf)]
        ids = r.sample(range(ncell), nent)
        if itype == "cell":
            self.dom = sorted(ids) if seed % 2 else ids
        elif itype == "exterior_facet":
            self.dom = [[c, r.randrange(self.nf)] for c in ids]
            if nent > 2:  # two facets of a cell
                self.dom[1] = [self.dom[0][0], (self.dom[0][1] + 1) % self.nf]
        else:
            oth = r.sample(range(ncell), nent)
            self.dom = [[[c, r.randrange(self.nf)], [d, r.randrange(self.nf)]] for c, d in zip(ids, oth)]
            if nent > 2:
                self.dom[1][0] = [self.dom[0][0][0], (self.dom[0][0][1] + 1) % self.nf]
        self.states = list(states)
        if len(self.states) != nent:
            self.states = [r.choice("cfe") for _ in range(nent)]
        self.sides = 2 if itype == "interior_facet" else 1
        # entities of the domain not in this integral
        self.extra = [x for x in range(ncell) if x not in [self.key(e)[0] for e in range(nent)]][:3]
        self.npts = {}
        for q in range(len(quads)):
            for e in range(nent):
                self.npts[q, self.key(e)] = r.choice([0, 1, 2, 3])

    def key(self, e):
        d = self.dom[e]
        return (d,) if self.itype == "cell" else tuple(d) if self.itype == "exterior_facet" else tuple(d[0])

    def ents(self, s):
        return [self.key(e) for e in range(len(self.dom)) if self.states[e] == s]

    def x(self, q, k, p, dim):
        return [S_("x_q%d_%s_p%d_%d" % (q, "_".join(map(str, k)), p, i)) for i in range(dim)]

    def w(self, q, k, p):
        return S_("w_q%d_%s_p%d" % (q, "_".join(map(str, k)), p))

    def n(self, q, k, p):
        return [S_("n_q%d_%s_p%d_%d" % (q, "_".join(map(str, k)), p, i)) for i in range(self.g)]

    def old(self, gen):
        n = len(self.dom) * self.sides
        return n, [[S_("c%d_%d_%d" % (gen, i, j)) for j in range(self.cols)] for i in range(n)] if self.cols else []

    # ---------------------------------------------------------------- models
    def unf(self, it):
        MF = it.get("qugar.mesh.mesh_facets.MeshFacets")
        ext = self.itype == "exterior_facet"
        asked = []

        def need(e):
            e = unwrap_bool(e)
            if e != ext:
                raise it.exc("AssertionError", "facets for %s integrals asked for an integral over %s facets" % ("exterior" if e else "interior", "exterior" if ext else "interior"))

        def cells(s):
            def go(it, *a, **k):
                v = sorted([x[0] for x in self.ents(s)] + self.extra[:1] * (s == "c") + self.extra[1:2] * (s == "e"))
                return arr(it, v, "i4")

            return nat("get cells", go)

        def facets(s):
            def go(it, ext_integral=None):
                need(ext_integral)
                v = list(self.ents(s)) + [(x, 0) for x in self.extra[:1]] * (s == "c") + [(x, 1) for x in self.extra[1:2]] * (s == "e")
                random.Random(5).shuffle(v)
                return it.call(MF, [arr(it, [a for a, b in v], "i4"), arr(it, [b for a, b in v], "i4")])

            return nat("get facets", go)

        def quad(kind):
            def go(it, degree, ents, ext_integral=None, tag=None):
                if isinstance(ents, A):
                    ks = [(c,) for c in ints(ents)]
                else:
                    need(ext_integral)
                    ks = list(zip(ints(it.getattr_(ents, "cell_ids")), ints(it.getattr_(ents, "local_facet_ids"))))
                q = [i for i, (nm, dg, unf) in enumerate(self.quads) if dg == ints([degree])[0] and unf == (kind == "unf")]
                if len(q) != 1:
                    raise it.exc("AssertionError", "quadrature of degree %s%s asked, not one of the integral" % (degree, " of the unfitted boundary" if kind == "unf" else ""))
                q = q[0]
                for k in ks:
                    if k not in self.ents("c"):
                        raise it.exc("AssertionError", "custom quadrature asked for %s, which is not a cut entity of the integral" % (k,))
                dim = self.g - 1 if kind == "facet" else self.g
                cnt = [self.npts[q, k] for k in ks]
                tot = sum(cnt)
                pts, ws, ns = oarr((tot, dim)), oarr((tot,)), oarr((tot, self.g))
                i = 0
                for k in ks:
                    for p in range(self.npts[q, k]):
                        pts[i, :] = self.x(q, k, p, dim)
                        ws[i] = self.w(q, k, p)
                        ns[i, :] = self.n(q, k, p)
                        i += 1
                a = [ents, arr(it, cnt, "i4"), from_els(pts, D["f8"]), from_els(ws, D["f8"])]
                if kind == "unf":
                    a.append(from_els(ns, D["f8"]))
                asked.append((q, ks))
                return it.call(it.get("qugar.quad.custom_quad." + {"cell": "CustomQuad", "unf": "CustomQuadUnfBoundary", "facet": "CustomQuadFacet"}[kind]), a)

            return nat("create_quad", go)

        o = fake("unf_domain", get_cut_cells=cells("c"), get_full_cells=cells("f"), get_empty_cells=cells("e"), get_cut_facets=facets("c"), get_full_facets=facets("f"), get_empty_facets=facets("e"),
                 create_quad_custom_cells=quad("cell"), create_quad_unf_boundaries=quad("unf"), create_quad_custom_facets=quad("facet"))
        return o

    def mesh(self, it):
        made = []

        def perms(it):
            if not made:
                raise it.exc("RuntimeError", "permutations of the entities not created")
            return arr(it, self.perms, "u1")

        ct = fake("CellType", name=self.cell)
        return fake("mesh", topology=fake("topology", cell_type=ct, create_entity_permutations=nat("create", lambda it: made.append(1)), get_facet_permutations=nat("perms", perms),
                                          cell_name=nat("cell_name", lambda it: self.cell), dim=self.g))

    def itg_data(self, it, ids):
        qd = {}
        for i, (nm, dg, unf) in enumerate(self.quads):
            rule = fake("rule%d" % i, points=arr(it, [[0] * self.g]), weights=arr(it, [1]))
            k = it.call(it.get("qugar.dolfinx.quadrature_data.QuadratureData"), [nm, dg, unf, rule])
            qd[k] = [fake("table", dtype=it.ext("numpy.float64" if REALS[self.dt] == "f8" else "numpy.float32"), element_dim=self.g - 1 if self.mixed else self.g)]
        return it.call(it.get("qugar.dolfinx.integral_data.IntegralData"), ["itg", ids, self.itype, self.g, self.mixed, qd])


def unwrap_bool(v):
    if isinstance(v, A):
        v = flat(v)[0]
    if not isinstance(v, (bool, int)):
        raise Undecided("flag %r" % (v,))
    return bool(v)


TYPES = ("cell", "exterior_facet", "interior_facet")


class Pack:
    def __init__(self, cases):
        self.cases = cases  # list of (position in its type, subdomain id, Case)
        self.gen = 0

    def over(self):
        en = {t: fake("IntegralType." + t) for t in TYPES + ("vertex", "ridge")}
        self.en = en
        e = fake("IntegralType", **en)
        return {"dolfinx.cpp.fem._IntegralType": e, "dolfinx.fem.IntegralType": e, "dolfinx.cpp.fem.IntegralType": e}

    def hooks(self):
        def pack(it, a, k):
            d = {}
            for pos, sid, c in self.cases:
                n, v = c.old(self.gen)
                w = oarr((n, c.cols)) if c.cols else oarr((0, 0))
                for i in range(n if c.cols else 0):
                    w[i, :] = v[i]
                d[self.en[c.itype], pos] = from_els(w, D[c.dt])
            self.gen += 1
            return d

        return {**basix_over(), "dolfinx.cpp.fem.pack_coefficients": pack}

    def form(self, it):
        def domains(it, t, i, *a):
            for pos, sid, c in self.cases:
                if self.en[c.itype] is t and pos == i:
                    w = oarr((len(c.dom),) + {"cell": (), "exterior_facet": (2,), "interior_facet": (2, 2)}[c.itype])
                    for e, x in enumerate(c.dom):
                        w[e, ...] = np.array(x, dtype=object) if w.ndim > 1 else x
                    return from_els(w, D["i4"])
            raise it.exc("AssertionError", "entities of an integral that is not in the form: %s" % ((t, i),))

        offs, ids = [0], []
        for t in TYPES + ("vertex", "ridge"):
            q = sorted((pos, sid) for pos, sid, c in self.cases if c.itype == t)
            ids += [s for _, s in q]
            offs.append(len(ids))
        cpp = fake("cpp form", domains=nat("domains", domains), mesh=self.cases[0][2].mesh(it))
        # every case has its own cell type: one mesh per form
        return fake("form", _cpp_object=cpp, _ufcx_form=fake("ufcx form", form_integral_offsets=offs, form_integral_ids=ids), mesh=cpp.f["mesh"])

    def run(self, it, updates):
        self.gen = 0
        m = self.cases[0][2].unf(it)
        if len(self.cases) > 1:
            m = multi(it, self.cases)
        itg = [c.itg_data(it, [sid]) for pos, sid, c in self.cases]
        itg.reverse()
        pk = it.call(it.get(P + "CustomCoeffsPacker"), [self.form(it), m, itg])
        v = meth(it, pk, "pack_coefficients")
        out = [{self.find(k): x for k, x in v.items()}]
        snap = {k: A(x.w.copy(), x.dt) for k, x in out[0].items()}
        res = [snap]
        for _ in range(updates):
            v = meth(it, pk, "update_coefficients", v)
            res.append({self.find(k): A(x.w.copy(), x.dt) for k, x in v.items()})
        return res

    def find(self, k):
        for t, e in self.en.items():
            if e is k[0]:
                return (t, ints([k[1]])[0])
        raise Undecided("integral %r" % (k,))


def multi(it, cases):
    """domain of a form with integrals of several types"""
    o = {}
    for pos, sid, c in cases:
        u = c.unf(it)
        for k, v in u.f.items():
            if k.startswith("__"):
                continue
            o.setdefault(k, {})[c.itype] = v

    def disp(k):
        def go(it, *a, **kw):
            if "cells" in k or "unf_b" in k:
                t = "cell"
            else:
                e = kw.get("ext_integral", a[-1] if a else None)
                t = "exterior_facet" if unwrap_bool(e) else "interior_facet"
            if t not in o[k]:
                raise it.exc("AssertionError", "%s asked" % k)
            return it.call(o[k][t], list(a), kw)

        return nat(k, go)

    return fake("unf_domain", **{k: disp(k) for k in o})


def read(words, i, n):
    """value of the i-th item of n words"""
    ws = words[i * n : (i + 1) * n]
    if len(ws) < n:
        raise IndexError
    return ws


def val(ws, dt):
    """value stored with type dt in the words, None if they hold anything else"""
    x = ws[0]
    if len(ws) == 1 and not isinstance(x, W):
        return ("v", x)
    if all(isinstance(y, W) and y.dt == dt and y.k == k for k, y in enumerate(ws)) and all(y.v is x.v or (not isinstance(x.v, T) and y.v == x.v) for y in ws):
        return ("v", x.v)
    if all((isinstance(y, W) and isinstance(y.v, int) and y.v == 0) or (isinstance(y, int) and y == 0) for y in ws):
        return ("v", 0)
    return None


def layout(S, c, a, gen):
    """-> (ok, detail): does the packed array hold what the kernel of the integral reads?"""
    if a.dt.n != c.dt:
        return False, "type %s, the coefficients have type %s" % (a.dt, D[c.dt])
    if len(a.shape) != 2 or a.shape[1] < c.cols:
        return False, "array of shape %s" % (a.shape,)
    nw = a.dt.nw
    rt = REALS[c.dt]
    rw = D[rt].nw
    words = list(a.w.reshape(-1))
    nreal = len(words) // rw
    ncols = a.shape[1]
    row = c.sides * ncols  # coefficients of an entity
    nent = len(c.dom)
    if a.shape[0] < nent * c.sides:
        return False, "%d rows for %d entities" % (a.shape[0], nent)
    n, old = c.old(gen)
    used = {}
    xo = c.sides * c.cols
    if (xo * nw + 2) > row * nw:
        return False, "no room for the offset: rows with %d coefficients" % ncols
    for e in range(nent):
        b = e * row
        fl_ = [x for r in (old[e * c.sides : (e + 1) * c.sides] if c.cols else []) for x in r]
        for j, x in enumerate(fl_):
            v = val(read(words, b + j, nw), c.dt)
            if v is None or v[1] is not x:
                return False, "coefficient %d of entity %d is %s, specified %s" % (j, e, read(words, b + j, nw)[0], x)
        o = val(words[(b + xo) * nw : (b + xo) * nw + 2], "i8")
        if o is None:
            return False, "no offset after the coefficients of entity %d: %s" % (e, words[(b + xo) * nw])
        o = o[1]
        if isinstance(o, T):
            raise Undecided("abstract offset")
        st = c.states[e]
        if st == "f":
            if not o < 0:
                return False, "offset %d of a full entity, specified negative" % o
            continue
        if st == "e":
            if o != 0:
                return False, "offset %d of an empty entity, specified 0" % o
            continue
        if not o > 0:
            return False, "offset %d of a cut entity, specified positive" % o
        pos = b * (nw // rw) + o
        k = c.key(e)

        def take():
            nonlocal pos
            if pos >= nreal:
                raise IndexError
            if pos < nent * row * (nw // rw):
                raise Overlap("data of entity %d inside the coefficients of the entities" % e)
            if pos in used:
                raise Overlap("data of entities %d and %d overlap" % (used[pos], e))
            used[pos] = e
            ws = words[pos * rw : (pos + 1) * rw]
            pos += 1
            v = val(ws, rt)
            return v[1] if v is not None else ws[0]

        try:
            for q, (nm, dg, unf) in enumerate(c.quads):
                m = c.npts[q, k]
                g = take()
                if isinstance(g, T) or isinstance(g, W) or g != m:
                    return False, "number of points %s of entity %d in quadrature %d, specified %d" % (g, e, q, m)
                facet = c.itype != "cell"
                want = []
                P_ = range(m)
                if facet:
                    fx = [c.x(q, k, p, c.g - 1) for p in P_]
                    for s in range(c.sides):
                        cf = c.dom[e][s] if c.sides == 2 else c.dom[e]
                        pm = c.perms[cf[0] * c.nf + cf[1]] if (c.sides == 2 or c.mixed) else 0
                        want += [("coordinate %d of point %d%s" % (i, p, ", side 1" if s else ""), y) for p in P_ for i, y in enumerate(facet_map(c.cell, cf[1], perm_map(FACET[c.cell], pm, fx[p])))]
                    if c.mixed:
                        want += [("facet coordinate %d of point %d" % (i, p), y) for p in P_ for i, y in enumerate(fx[p])]
                else:
                    want += [("coordinate %d of point %d" % (i, p), y) for p in P_ for i, y in enumerate(c.x(q, k, p, c.g))]
                want += [("weight of point %d" % p, c.w(q, k, p)) for p in P_]
                if unf:
                    want += [("normal component %d of point %d" % (i, p), y) for p in P_ for i, y in enumerate(c.n(q, k, p))]
                for what, y in want:
                    g = take()
                    if isinstance(g, W):
                        return False, "%s of entity %d in quadrature %d is %s" % (what, e, q, g)
                    r, det = S.same(g, y)
                    if r is None:
                        raise Undecided("%s: %s" % (what, det))
                    if not r:
                        return False, "%s of entity %d in quadrature %d: %s" % (what, e, q, det)
        except IndexError:
            return False, "data of entity %d outside the array of %d values" % (e, nreal)
        except Overlap as x:
            return False, str(x)
    return True, ""


class Overlap(Exception):
    pass


CELL = [[("Q0", 3, False)], [("Q0", 3, False), ("Q1", 3, True)], [("Q1", 2, True)], [("Q0", 1, False), ("Q1", 4, False), ("Q2", 2, True)]]
FCT = [[("Q0", 3, False)], [("Q0", 1, False), ("Q1", 4, False)]]


def cases(ctx):
    out = []
    i = 0
    for itype in TYPES:
        for cell in ("quadrilateral", "hexahedron"):
            for dt in ("f8", "f4", "c16", "c8"):
                for cols in (0, 1, 3) if dt in ("f8", "c16") or ctx.thorough else (0, 2):
                    for st in ("cfecf", "", "ccc", "fff", "eee") if (dt in ("f8", "f4") and cell == "quadrilateral") or ctx.thorough else ("cefcc",):
                        qs = (CELL if itype == "cell" else FCT)
                        for q in qs if (dt == "f8" or ctx.thorough) else (qs[i % len(qs)],):
                            for mixed in ((False,) if itype != "exterior_facet" else (False, True)) if not ctx.thorough or itype != "interior_facet" else (False, True):
                                i += 1
                                out.append(("%s %s %s, %d coefficients, entities '%s', %d quadratures%s" % (itype, cell, D[dt], cols, st, len(q), " (%s)" % "unfitted" if any(x[2] for x in q) else "") + (", mixed-dimensional" if mixed else ""),
                                            Case(itype, cell, len(st), st, dt, cols, q, mixed, i)))
    return out


def run_C26(ctx):
    it0 = Interp()
    w = wf(it0.get(P + "CustomCoeffsPacker"))

    def attempt(rule, name, cs, updates):
        def f():
            pk = Pack(cs)

            def spec(it, r, S):
                keys = {(c.itype, pos) for pos, sid, c in cs}
                for g, res in enumerate(r):
                    if set(res) != keys:
                        return False, "coefficients of the integrals %s, specified %s" % (sorted(res), sorted(keys))
                    for pos, sid, c in cs:
                        ok, det = layout(S, c, res[c.itype, pos], g)
                        if not ok:
                            return ok, ("after %d updates: " % g if g else "") + det
                return True, ""

            return pydecide(ctx, lambda it: pk.run(it, updates), spec, hooks=pk.hooks(), over=pk.over())

        ctx.attempt(rule, name, f, w)

    for name, c in cases(ctx):
        attempt("packed coefficients", name, [(0, -1, c)], 0)
        if "cfecf" in name or "cefcc" in name:
            attempt("updated coefficients", name, [(0, -1, c)], 2)
    for k in range(6 if not ctx.thorough else 30):
        r = random.Random(k)
        dt = r.choice(["f8", "c16", "f4", "c8"])
        cs = []
        for j, t in enumerate(TYPES):
            cs.append((0, r.choice([-1, 4]), Case(t, "hexahedron", 4, "".join(r.choice("cfe") for _ in range(4)), dt, r.choice([0, 2]), (CELL if t == "cell" else FCT)[k % 2], False, 50 * k + j)))
        # every integral has its own permutations table: share the first
        for _, _, c in cs[1:]:
            c.perms = [(cs[0][2].perms * 3)[i] for i in range(c.ncell * c.nf)]
        m = max(c.ncell for _, _, c in cs)
        cs[0][2].perms = (cs[0][2].perms * 3)[: m * cs[0][2].nf]
        for _, _, c in cs[1:]:
            c.perms = cs[0][2].perms
        attempt("forms with several integrals", "form %d" % k, cs, 1)


def run_C27(ctx):
    """facet points: permutations and maps to the reference cell"""
    it0 = Interp()
    Q = "qugar.dolfinx.custom_quad_utils."
    wp, wm = wf(it0.get(Q + "permute_facet_points")), wf(it0.get(Q + "map_facets_points"))
    r = random.Random(3)
    for cell in GEOM:
        d, nf, ft = len(GEOM[cell][0][0]), len(GEOM[cell][1]), FACET[cell]
        c = Case("interior_facet", cell, 4, "cccc", "f8", 0, [])

        def pts(n):
            return [[S_("x%d_%d" % (p, i)) for i in range(d - 1)] for p in range(n)]

        def A2(x):
            w = oarr((len(x), d - 1))
            for i, row in enumerate(x):
                w[i, :] = row
            return from_els(w, D["f8"])

        def cmp(got, want, S, what):
            if shape(got) != (len(want), len(want[0]) if want else d):
                return False, "array of shape %s for %d points" % (shape(got), len(want))
            for p, (g, w) in enumerate(zip(els(got), want)):
                for i in range(len(w)):
                    ok, det = S.same(g[i], w[i])
                    if not ok:
                        return ok, "%s: coordinate %d of point %d: %s" % (what, i, p, det)
            return True, ""

        def untouched(a, x):
            return all(els(a)[i, j] is x[i][j] for i in range(len(x)) for j in range(len(x[i])))

        for pm in range(NPERM[ft]):
            c.perms = [pm] * (c.ncell * nf)

            def one():
                x = pts(2)

                def go(it):
                    a = A2(x)
                    return a, it.call(it.get(Q + "permute_facet_points"), [a, c.mesh(it), arr(it, [3, 5], "i4"), arr(it, [0, nf - 1], "i4")])

                def spec(it, v, S):
                    if not untouched(v[0], x):
                        return False, "the points passed are modified"
                    return cmp(v[1], [perm_map(ft, pm, y) for y in x], S, "permutation %d of %s facets" % (pm, ft))

                return pydecide(ctx, go, spec, hooks=basix_over())

            ctx.attempt("points of a permuted facet", "%s, permutation %d" % (cell, pm), one, wp)
        for rep in range(4 if not ctx.thorough else 20):
            n = r.choice([0, 1, 5, 9]) if rep else 0
            cc = [r.randrange(c.ncell) for _ in range(n)]
            ff = [r.randrange(nf) for _ in range(n)]
            c2 = Case("interior_facet", cell, 4, "cccc", "f8", 0, [], seed=rep + 1)
            c2.perms = [r.randrange(NPERM[ft]) for _ in c2.perms]

            def mixed():
                x = pts(n)

                def go(it):
                    return it.call(it.get(Q + "permute_facet_points"), [A2(x), c2.mesh(it), arr(it, cc, "i4"), arr(it, ff, "i4")])

                def spec(it, v, S):
                    if not n:
                        return shape(v) == (0, d - 1), "shape %s" % (shape(v),)
                    return cmp(v, [perm_map(ft, c2.perms[a * nf + b], y) for a, b, y in zip(cc, ff, x)], S, "points of several facets")

                return pydecide(ctx, go, spec, hooks=basix_over())

            ctx.attempt("points of several permuted facets", "%s #%d" % (cell, rep), mixed, wp)

            def mapped():
                x = pts(n)

                def go(it):
                    a = A2(x)
                    return a, it.call(it.get(Q + "map_facets_points"), [a, arr(it, ff, "i4"), fake("CellType", name=cell)])

                def spec(it, v, S):
                    if not untouched(v[0], x):
                        return False, "the points passed are modified"
                    return cmp(v[1], [facet_map(cell, f, y) for f, y in zip(ff, x)], S, "points mapped to the cell")

                return pydecide(ctx, go, spec, hooks=basix_over())

            ctx.attempt("facet points in the reference cell", "%s #%d" % (cell, rep), mapped, wm)
        for f in range(nf):

            def onef():
                x = pts(2)

                def go(it):
                    return it.call(it.get(Q + "map_facets_points"), [A2(x), arr(it, [f, f], "i4"), fake("CellType", name=cell)])

                return pydecide(ctx, go, lambda it, v, S: cmp(v, [facet_map(cell, f, y) for y in x], S, "facet %d" % f), hooks=basix_over())

            ctx.attempt("facet points in the reference cell", "%s facet %d" % (cell, f), onef, wm)
