"""C22 tensor-product meshes, C23 numbering maps, C24 mesh facets, C25 classification of cells and facets."""
import itertools, random
from ..pysym import *
from .pyindex import BASIX_FACES, dlf_face_lex, dlf_nodes, fl, box_ids, face_fix

M = "qugar.mesh."


class Model:
    """structured grid as DOLFINx sees it: cells, facets and nodes renumbered by arbitrary permutations.
    local: lexicographical ids of the cells present here (owned then ghosts)"""

    def __init__(self, n, seed=0, active=None, local=None, owned_facets=None, off=0):
        r = random.Random(seed)
        self.n, self.d = n, len(n)
        N = 1
        for x in n:
            N *= x
        self.N = N
        self.active = list(range(N)) if active is None else list(active)
        cells = list(self.active) if local is None else [c for c in local if c in self.active]
        r.shuffle(cells)
        self.cells = cells  # local DOLFINx id -> lexicographical id
        d = self.d
        self.fid, self.f2c = {}, {}
        keys = set()
        self.ckeys = []
        for c in cells:
            t = [(c // _st(n, k)) % n[k] for k in range(d)]
            row = []
            for f in range(2 * d):
                l = dlf_face_lex(d, f)
                k, s = l // 2, l % 2
                row.append((k, tuple(t[j] + (s if j == k else 0) for j in range(d))))
            self.ckeys.append(row)
            keys.update(row)
        keys = sorted(keys)
        r.shuffle(keys)
        self.fid = {k: i for i, k in enumerate(keys)}
        self.c2f = [[self.fid[k] for k in row] for row in self.ckeys]
        self.f2c = [[] for _ in keys]
        for c, row in enumerate(self.c2f):
            for f in row:
                self.f2c[f].append(c)
        for l in self.f2c:
            r.shuffle(l)
        self.nf = len(keys)
        self.nf_owned = self.nf if owned_facets is None else min(owned_facets, self.nf)
        # exterior: facets of one cell of the whole mesh
        glob = {}
        for c in self.active:
            t = [(c // _st(n, k)) % n[k] for k in range(d)]
            for k in range(d):
                for s in (0, 1):
                    q = (k, tuple(t[j] + (s if j == k else 0) for j in range(d)))
                    glob[q] = glob.get(q, 0) + 1
        self.ext = sorted(i for k, i in self.fid.items() if glob[k] == 1 and i < self.nf_owned)
        self.int = [i for i in range(self.nf_owned) if i not in set(self.ext)]
        self.off = off
        self.nc_owned = len(cells)
        self.lex_face = {}  # tp face -> facet ids
        for (k, t), i in self.fid.items():
            if t[k] == 0:
                self.lex_face.setdefault(2 * k, []).append(i)
            elif t[k] == n[k]:
                self.lex_face.setdefault(2 * k + 1, []).append(i)

    def pairs(self, facets, single):
        return sorted((c, self.c2f[c].index(f)) for f in facets for c in (self.f2c[f][:1] if single else self.f2c[f]))

    def topology(self, it, lazy=True):
        d = self.d
        made = set() if lazy else {(d, d - 1), (d - 1, d), d - 1}

        def links(rows):
            def go(it, i):
                i = ints(i)[0]
                return arr(it, rows[i], "i4")

            return nat("links", go)

        def cc(it, a, b):
            made.update({(a, b), a, b})
            if b == d - 1 and a == d:
                made.add((d - 1, d))

        def conn(it, a, b):
            if (a, b) not in made:
                return None
            rows = {(d, d - 1): self.c2f, (d - 1, d): self.f2c}.get((a, b))
            if rows is None:
                raise Undecided("connectivity %s" % ((a, b),))
            offs = [0]
            for x in rows:
                offs.append(offs[-1] + len(x))
            return fake("connectivity", array=arr(it, [y for x in rows for y in x], "i4"), num_nodes=len(rows), links=links(rows), offsets=arr(it, offs, "i4"))

        def imap(it, a):
            a = ints(a)[0]
            if a == d:
                nl, ng, off = self.nc_owned, len(self.cells) - self.nc_owned, 10 * self.off
            elif a == d - 1:
                if a not in made:
                    return None
                nl, ng, off = self.nf_owned, self.nf - self.nf_owned, self.off
            else:
                raise Undecided("index map %s" % a)
            return fake("index_map", size_local=nl, num_ghosts=ng, size_global=nl + off + 7 * (off > 0), local_range=(off, off + nl) if True else None,
                        local_to_global=nat("local_to_global", lambda it, x: arr(it, [off + i for i in ints(x)], "i8")))

        idx = {c: i for i, c in enumerate(self.active)}
        return fake("topology", dim=d, create_connectivity=nat("create_connectivity", cc), create_entities=nat("create_entities", lambda it, a: made.add(ints(a)[0])),
                    connectivity=nat("connectivity", conn), index_map=nat("index_map", imap),
                    original_cell_index=arr(it, [idx[c] for c in self.cells], "i8"), cell_name=nat("cell_name", lambda it: ["interval", "quadrilateral", "hexahedron"][d - 1]))

    def hooks(self):
        def topo(it, o):
            t = self.topology(it)
            o.f["topology"] = t
            return t

        def dim(it, o):
            return 2**self.d if "coordinate_element" in o.path else NotImplemented

        return {("selfattr", "topology"): topo, ("attr", "dim"): dim, "dolfinx.mesh.exterior_facet_indices": lambda it, a, k: arr(it, self.ext, "i4"),
                "dolfinx.cpp.mesh.exterior_facet_indices": lambda it, a, k: arr(it, self.ext, "i4")}

    def mesh(self, it, cls="TensorProductMesh"):
        comm = fake("comm", rank=1, size=2)
        act = None if len(self.active) == self.N else arr(it, self.active, "i8")
        return it.call(it.get(M + "tp_mesh." + cls), [comm, asA(it, pynp_zeros(it, (0, self.d)), D["f8"]), list(self.n)], {"active_cells": act})


def pynp_zeros(it, shp):
    return it.call(it.getattr_(it.ext("numpy"), "zeros"), [shp])


def _st(n, k):
    r = 1
    for x in n[:k]:
        r *= x
    return r


def models(ctx):
    out = [("2x3 cells", Model((2, 3), 1)), ("3x2 cells, renumbered", Model((3, 2), 2)), ("4x2 cells, part of the cells inactive", Model((4, 2), 3, active=[0, 1, 2, 5, 6, 7])),
           ("3x3 cells, second process with ghosts", Model((3, 3), 4, local=[0, 1, 3, 4, 6], owned_facets=10, off=13)),
           ("2x3x2 cells", Model((2, 3, 2), 5)), ("2x2x3 cells, part inactive, second process", Model((2, 2, 3), 6, active=[0, 2, 3, 5, 6, 7, 9, 10, 11], local=[0, 3, 5, 6, 9], owned_facets=17, off=29))]
    if ctx.thorough:
        for s in range(8):
            r = random.Random(100 + s)
            n = tuple(r.randint(1, 4) for _ in range(2 + s % 2))
            N = 1
            for x in n:
                N *= x
            act = sorted(r.sample(range(N), max(2, N - r.randint(0, 2)))) if N > 3 else None
            loc = sorted(r.sample(act or range(N), max(1, len(act or range(N)) - r.randint(0, 2))))
            out.append(("random %s #%d" % (n, s), Model(n, s, active=act, local=loc, off=5 * s)))
        out.append(("1x1 cell", Model((1, 1), 9)))
    return out


# ------------------------------------------------------------------------ C22
def run_C22(ctx):
    it0 = Interp()
    tp = M + "tp_mesh."

    # connectivity and nodes handed over to DOLFINx
    shapes = [((1,), 1), ((4,), 1), ((3,), 3), ((2, 3), 1), ((3, 2), 2), ((2, 1), 3), ((2, 3, 2), 1), ((1, 2, 3), 2)]
    if ctx.thorough:
        shapes += [((2, 2), 4), ((4, 3), 3), ((5, 1), 2), ((2, 2, 2), 3), ((3, 1, 2), 1)]
    for n, p in shapes:
        d = len(n)
        npts = [x * p + 1 for x in n]
        N = 1
        for x in n:
            N *= x
        ref = dlf_nodes(d, p)
        want = []
        for c in range(N):
            t = [(c // _st(n, k)) % n[k] for k in range(d)]
            want.append([fl([t[k] * p + q[k] for k in range(d)], npts) for q in ref])

        def conn():
            def go(it):
                nn = 1
                for x in npts:
                    nn *= x
                nodes = asA(it, [[S_("x%d_%d" % (i, k)) for k in range(d)] for i in range(nn)], D["f8"])
                it.call(it.get(tp + "TensorProductMesh"), [fake("comm", rank=0, size=2), nodes, list(n), p], {"ghost_mode": "ghostmode"})
                return it.trace, nodes

            def spec(it, r, S):
                tr, nodes = r
                e = [x for x in tr if x[0] == "call" and isinstance(x[1], U) and x[1].path.endswith("mesh.create_mesh")]
                if len(e) != 1:
                    return None, "creation of the DOLFINx mesh not found"
                a = e[0][2]
                got = [ints(row) for row in it.iter(a[1])]
                if got != want:
                    i = next((i for i in range(len(want)) if i >= len(got) or got[i] != want[i]), 0)
                    return False, "connectivity of cell %d is %s, specified %s" % (i, got[i] if i < len(got) else None, want[i])
                ok, det = S.same(0, 0)
                if flat(a[3]) != flat(nodes):
                    return False, "node coordinates changed"
                g = [x for x in tr if x[0] == "call" and isinstance(x[1], U) and x[1].path.endswith("create_cell_partitioner")]
                if not g or "ghostmode" not in list(g[0][2]) + list(g[0][3].values()):
                    return False, "ghost mode not passed to the partitioner"
                el = [x for x in tr if x[0] == "call" and isinstance(x[1], U) and x[1].path.endswith("basix.ufl.element")]
                if not el or p not in [y for y in list(el[0][2]) + list(el[0][3].values()) if isinstance(y, int)]:
                    return False, "degree %d not passed to the coordinate element" % p
                return True, ""

            return pydecide(ctx, go, spec)

        ctx.attempt("connectivity of the tensor-product mesh", "%s degree %d" % (n, p), conn, wf(it0.get(tp + "_create_tensor_prod_mesh_conn")))

        def nodes():
            br = [[S_("b%d_%d" % (k, i)) for i in range(n[k] + 1)] for k in range(d)]

            def go(it):
                return it.call(it.get(tp + "_create_Cartesian_mesh_nodes_from_cells"), [[arr(it, b) for b in br], p])

            def spec(it, r, S):
                w = []
                tot = 1
                for x in npts:
                    tot *= x
                for i in range(tot):
                    for k in range(d):
                        j = (i // _st(npts, k)) % npts[k]
                        c, s = divmod(j, p)
                        w.append(br[k][c] if s == 0 else br[k][c] * (1 - s / p) + br[k][c + 1] * (s / p))
                g = flat(r)
                if len(g) != len(w):
                    return False, "%d coordinates, %d specified (%d points)" % (len(g), len(w), tot)
                for i, (a, b) in enumerate(zip(g, w)):
                    ok, det = S.same(a, b, it.pc)
                    if not ok:
                        return ok, "coordinate %d of node %d: %s" % (i % d, i // d, det)
                return True, ""

            return pydecide(ctx, go, spec)

        ctx.attempt("nodes in lexicographical order, interpolated within cells", "%s degree %d" % (n, p), nodes, wf(it0.get(tp + "_create_Cartesian_mesh_nodes_from_cells")))

    # creation of Cartesian meshes: arguments reach their destination
    for dim in (2, 3):
        n = [3, 2, 4][:dim]

        def grid(it, breaks):
            return fake("cart_grid", dim=dim, cell_breaks=[arr(it, b) for b in breaks], num_cells_dir=arr(it, n, "i4"))

        def create(degree, dt):
            def go(it):
                return it.call(it.get(tp + "create_Cartesian_mesh"), [fake("comm", rank=0, size=2), list(n)],
                               {"xmin": arr(it, [1.0, -2.0, 0.5][:dim], dt), "xmax": arr(it, [4.0, 2.0, 8.5][:dim], dt), "degree": degree, "ghost_mode": "gm"}), it.trace

            def spec(it, r, S):
                m, tr = r
                cg = [x for x in tr if x[0] == "cart-grid"]
                if not cg:
                    return None, "no grid created"
                for k in range(dim):
                    lo, hi = [1.0, -2.0, 0.5][k], [4.0, 2.0, 8.5][k]
                    b = flat(cg[0][1][k])
                    if len(b) != n[k] + 1 or any(abs(b[i] - (lo + (hi - lo) * i / n[k])) > 1e-12 for i in range(len(b))):
                        return False, "breaks along direction %d are %s" % (k, b)
                e = [x for x in tr if x[0] == "call" and isinstance(x[1], U) and x[1].path.endswith("mesh.create_mesh")]
                if not e:
                    return None, "creation of the DOLFINx mesh not found"
                N = 1
                q = 1
                for x in n:
                    N *= x
                    q *= x * degree + 1
                if tuple(e[0][2][1].shape) != (N, (degree + 1) ** dim):
                    return False, "connectivity of shape %s for %d cells of degree %d" % (e[0][2][1].shape, N, degree)
                if tuple(e[0][2][3].shape) != (q, dim):
                    return False, "nodes of shape %s" % (e[0][2][3].shape,)
                if e[0][2][3].dt != D[dt]:
                    return False, "nodes of type %s for bounds of type %s" % (e[0][2][3].dt, dt)
                g = [x for x in tr if x[0] == "call" and isinstance(x[1], U) and x[1].path.endswith("create_cell_partitioner")]
                if not g or "gm" not in list(g[0][2]) + list(g[0][3].values()):
                    return False, "ghost mode not passed to the partitioner"
                if it.truth(it.getattr_(m, "has_inactive_cells")):
                    return False, "mesh created with inactive cells"
                return True, ""

            def cart(it, a, k):
                it.event("cart-grid", a[0])
                return grid(it, [flat(b) for b in it.iter(a[0])])

            return pydecide(ctx, go, spec, hooks={"qugar.cpp.create_cart_grid": cart})

        for degree, dt in ((1, "f8"), (2, "f8"), (1, "f4")):
            ctx.attempt("Cartesian mesh from a box", "%dD degree %d type %s" % (dim, degree, dt), lambda: create(degree, dt), wf(it0.get(tp + "create_Cartesian_mesh")))

    # bounding box and tensor index of a cell
    for name, mo in models(ctx):
        br = [[S_("b%d_%d" % (k, i)) for i in range(mo.n[k] + 1)] for k in range(mo.d)]

        def bbox():
            def go(it):
                g = fake("cart_grid", dim=mo.d, cell_breaks=[arr(it, b) for b in br], num_cells_dir=arr(it, list(mo.n), "i4"))
                act = None if len(mo.active) == mo.N else arr(it, mo.active, "i8")
                m = it.call(it.get(tp + "CartesianMesh"), [fake("comm", rank=1, size=2), g, 1, act])
                return [(flat(meth(it, m, "get_cell_tensor_index", c)), meth(it, m, "get_cell_bbox", c)) for c in range(len(mo.cells))]

            def spec(it, r, S):
                for c, (t, b) in enumerate(r):
                    l = mo.cells[c]
                    w = [(l // _st(mo.n, k)) % mo.n[k] for k in range(mo.d)]
                    if ints(t) != w:
                        return False, "tensor index of local cell %d is %s, specified %s" % (c, t, w)
                    wb = [br[k][w[k]] for k in range(mo.d)] + [br[k][w[k] + 1] for k in range(mo.d)]
                    if flat(b) != wb:
                        return False, "bounding box of local cell %d is %s" % (c, flat(b))
                return True, ""

            h = mo.hooks()
            h[("selfattr", "geometry")] = lambda it, o: fake("geometry", dim=mo.d, x=arr(it, [0.0] * 3))
            return pydecide(ctx, go, spec, hooks=h)

        ctx.attempt("tensor index and bounding box of cells", name, bbox, wf(it0.get(tp + "CartesianMesh.get_cell_bbox")))

        def faces():
            def go(it):
                m = mo.mesh(it)
                return [(ints(meth(it, m, "get_face_DOLFINx_cells", f)), ints(meth(it, m, "get_face_facets", f))) for f in range(2 * mo.d)]

            def spec(it, r, S):
                for f, (cs, fs) in enumerate(r):
                    lex = set(box_ids(mo.n, face_fix(f, mo.n)))
                    w = [c for c in range(len(mo.cells)) if mo.cells[c] in lex]
                    if cs != w:
                        return False, "cells touching face %d: %s, specified %s" % (f, cs, w)
                    w = sorted(mo.lex_face.get(f, []))
                    if fs != w:
                        return False, "facets of face %d: %s, specified %s" % (f, fs, w)
                return True, ""

            return pydecide(ctx, go, spec, hooks=mo.hooks())

        ctx.attempt("cells and facets of the faces of the box", name, faces, wf(it0.get(tp + "TensorProductMesh.get_face_facets")))

        def tags():
            def go(it):
                meth(it, mo.mesh(it), "create_facet_bdry_tags")
                return it.trace

            def spec(it, tr, S):
                e = [x for x in tr if x[0] == "call" and isinstance(x[1], U) and x[1].path.split(".")[-1] == "meshtags"]
                if len(e) != 1:
                    return None, "meshtags not created"
                a = e[0][2]
                w = sorted((i, f) for f, l in mo.lex_face.items() for i in l)
                got = list(zip(ints(a[2]), ints(a[3])))
                if a[1] != mo.d - 1:
                    return False, "tags of dimension %s" % a[1]
                return got == w, "tags (facet, face) %s, specified %s" % (got[:8], w[:8])

            return pydecide(ctx, go, spec, hooks=mo.hooks())

        ctx.attempt("boundary facet tags", name, tags, wf(it0.get(tp + "TensorProductMesh.create_facet_bdry_tags")))


# ------------------------------------------------------------------------ C23
def run_C23(ctx):
    it0 = Interp()
    Q = M + "mesh.Mesh."
    ms = models(ctx) + [("process without cells", Model((3, 2), 8, local=[], off=4))]
    for name, mo in ms:
        nl = len(mo.cells)

        def orig():
            def go(it):
                m = mo.mesh(it)
                i = list(range(nl))
                random.Random(1).shuffle(i)
                return i, ints(meth(it, m, "get_original_cell_ids", arr(it, i, "i4"))), ints(meth(it, m, "get_all_original_cell_ids"))

            def spec(it, r, S):
                i, a, b = r
                if a != [mo.cells[c] for c in i]:
                    return False, "original ids of local cells %s: %s, specified %s" % (i, a, [mo.cells[c] for c in i])
                if b != mo.cells[: mo.nc_owned]:
                    return False, "original ids of all cells: %s, specified %s" % (b, mo.cells)
                return True, ""

            return pydecide(ctx, go, spec, hooks=mo.hooks())

        ctx.attempt("local to original cell ids", name, orig, wf(it0.get(Q + "get_original_cell_ids")))

        def local():
            def go(it):
                m = mo.mesh(it)
                q = list(range(mo.N))
                random.Random(2).shuffle(q)
                q = q + q[:2]
                here = [x for x in q if x in mo.cells]
                return q, meth(it, m, "get_DOLFINx_local_cell_ids", arr(it, q, "i8")), here, meth(it, m, "get_DOLFINx_global_cell_ids", arr(it, here, "i8")), meth(it, m, "get_DOLFINx_local_cell_ids", arr(it, [], "i8"))

            def spec(it, r, S):
                q, a, here, b, e = r
                w = [mo.cells.index(c) if c in mo.cells else -1 for c in q]
                if ints(a) != w:
                    return False, "local ids of original cells %s: %s, specified %s" % (q, ints(a), w)
                if a.dt != D["i4"]:
                    return False, "local ids of type %s" % a.dt
                w = [10 * mo.off + mo.cells.index(c) for c in here]
                if ints(b) != w:
                    return False, "global ids of original cells %s: %s, specified %s" % (here, ints(b), w)
                return ints(e) == [], "ids of no cells"

            return pydecide(ctx, go, spec, hooks=mo.hooks())

        ctx.attempt("original to local and global cell ids (-1 when not present)", name, local, wf(it0.get(Q + "get_DOLFINx_local_cell_ids")))

    # nodes, with and without merged ones
    groups = {"no node merged": [], "one pair": [(1, 4)], "a triple": [(0, 2), (0, 5), (2, 5)], "two groups": [(0, 3), (1, 2), (1, 5), (2, 5)],
              "a group of four": [(1, 3), (1, 4), (1, 6), (3, 4), (3, 6), (4, 6)]}
    for gname, pairs in groups.items():
        n = 7
        cls = list(range(n))
        for a, b in pairs:
            cls[b] = min(cls[b], cls[a])
        uniq = sorted(set(cls))
        for order in range(3 if not ctx.thorough else 12):
            pr = list(pairs)
            random.Random(order).shuffle(pr)
            cells = [[0, 1, 2, 3], [2, 4, 5, 6], [6, 5, 3, 1]]
            xs = [[S_("x%d_%d" % (cls[i], k)) for k in range(2)] for i in range(n)]

            def kd(it, a, k):
                return fake("kdtree", query_pairs=nat("query_pairs", lambda it, r, **k: reshape2(it, pr)))

            def reshape2(it, p):
                return meth(it, arr(it, [y for x in p for y in x], "i8"), "reshape", -1, 2)

            def merge():
                def go(it):
                    nodes = asA(it, xs, D["f8"])
                    r = it.call(it.get(M + "mesh._merge_coincident_points_in_mesh"), [nodes, asA(it, cells, D["i8"]), 0.5])
                    return [(x, x.shape) if isinstance(x, A) else x for x in r]

                def spec(it, r, S):
                    (nn, s1), (cc, s2), (mp, s3) = r
                    mp = ints(mp)
                    if s1[0] != len(uniq):
                        return False, "%d nodes after merging, specified %d" % (s1[0], len(uniq))
                    if len(mp) != n or sorted(set(mp)) != list(range(len(uniq))):
                        return False, "map of nodes %s does not cover the %d new ones" % (mp, len(uniq))
                    for i in range(n):
                        for j in range(n):
                            if (mp[i] == mp[j]) != (cls[i] == cls[j]):
                                return False, "nodes %d and %d: merged %s, coincident %s" % (i, j, mp[i] == mp[j], cls[i] == cls[j])
                    rows = [flat(x) for x in it.iter(nn)]
                    for i in range(n):
                        if rows[mp[i]] != xs[i]:
                            return False, "coordinates of node %d after merging: %s" % (i, rows[mp[i]])
                    if [ints(x) for x in it.iter(cc)] != [[mp[i] for i in c] for c in cells]:
                        return False, "connectivity after merging does not follow the map of nodes"
                    return True, ""

                return pydecide(ctx, go, spec, hooks={"scipy.spatial.KDTree": kd})

            ctx.attempt("merging of coincident nodes", "%s, order %d" % (gname, order), merge, wf(it0.get(M + "mesh._merge_coincident_points_in_mesh")))

        for rank in (0, 1):
            newid = {c: i for i, c in enumerate(uniq)}
            present = list(range(len(uniq)))
            random.Random(3).shuffle(present)
            if rank == 1:
                present = present[1:]

            def nodes():
                def go(it):
                    mp = arr(it, [newid[c] for c in cls], "i8")
                    comm = fake("comm", rank=rank, size=2, bcast=nat("bcast", lambda it, x, root=0: mp if rank else x))
                    pts = asA(it, xs, D["f8"]) if rank == 0 else pynp_zeros(it, (0, 2))
                    m = it.call(it.get(M + "mesh.Mesh"), [comm, pts, asA(it, cells, D["i8"]), "quad"], {"merge_nodes": bool(pairs), "merge_tol": 0.5})
                    a = meth(it, m, "get_DOLFINx_local_node_ids", arr(it, list(range(n)), "i8"))
                    b = meth(it, m, "get_original_node_ids", arr(it, list(range(len(present))), "i4"))
                    return a, b

                def spec(it, r, S):
                    a, b = r
                    w = [present.index(newid[cls[i]]) if newid[cls[i]] in present else -1 for i in range(n)]
                    if ints(a) != w:
                        return False, "local ids of the original nodes: %s, specified %s" % (ints(a), w)
                    b = ints(b)
                    if len(b) != len(present) or any(not 0 <= x < n or newid[cls[x]] != present[i] for i, x in enumerate(b)):
                        return False, "original ids of the local nodes: %s" % b
                    return True, ""

                h = {"scipy.spatial.KDTree": kd, ("selfattr", "geometry"): lambda it, o: fake("geometry", dim=2, input_global_indices=arr(it, present, "i8")),
                     ("attr", "dim"): lambda it, o: 4 if "coordinate_element" in o.path else NotImplemented}
                return pydecide(ctx, go, spec, hooks=h)

            ctx.attempt("node ids with merged nodes", "%s, process %d" % (gname, rank), nodes, wf(it0.get(Q + "get_DOLFINx_local_node_ids")))

    def tol():
        pts = [[0.0, 1000.0], [2.0, 1000.0], [2.0, 1001.0], [0.0, 1001.0]]

        def go(it):
            seen = []

            def kd(it, a, k):
                def q(it, r, **k):
                    seen.append(r)
                    return meth(it, arr(it, [], "i8"), "reshape", 0, 2)

                return fake("kdtree", query_pairs=nat("query_pairs", q))

            it.hooks["scipy.spatial.KDTree"] = kd
            it.call(it.get(M + "mesh._merge_coincident_points_in_mesh"), [asA(it, pts, D["f8"]), asA(it, [[0, 1, 2, 3]], D["i8"])])
            return seen

        def spec(it, r, S):
            if len(r) != 1:
                return None, "tolerance not found"
            v = flat(r[0])[0]
            return abs(v - 2e-5) < 1e-12, "tolerance %s for a 2x1 bounding box away from the origin, documented 1e-5 times the largest side (2e-5)" % v

        return pydecide(ctx, go, spec)

    ctx.attempt("default merging tolerance is relative to the size of the mesh", "box away from the origin", tol, wf(it0.get(M + "mesh._merge_coincident_points_in_mesh")))


# ------------------------------------------------------------------------ C24
def _facets(it, pairs, dt="i4"):
    return it.call(it.get(M + "mesh_facets.MeshFacets"), [arr(it, [c for c, f in pairs], dt), arr(it, [f for c, f in pairs], "i4")])


def _pairs(it, o):
    c, f = ints(it.getattr_(o, "cell_ids")), ints(it.getattr_(o, "local_facet_ids"))
    if len(c) != len(f):
        raise PyRaise(ExcVal("ValueError", ("%d cells and %d local facets" % (len(c), len(f)),)))
    return list(zip(c, f))


def run_C24(ctx):
    it0 = Interp()
    F = M + "mesh_facets."
    r = random.Random(ctx.seed)
    sets = [([], []), ([(3, 1)], []), ([], [(2, 0)]), ([(0, 1), (2, 3), (1, 1)], [(1, 1), (0, 3), (2, 1), (0, 0)]),
            ([(5, 2), (0, 3), (2, 5)], [(2, 0), (5, 3)]), ([(4, 1), (1, 4), (7, 0), (0, 7)], [(1, 4), (0, 7), (4, 0)])]
    for _ in range(24 if ctx.thorough else 8):
        univ = [(c, f) for c in range(4) for f in range(4)]
        sets.append((r.sample(univ, r.randint(0, 9)), r.sample(univ, r.randint(0, 9))))
    for i, (a, b) in enumerate(sets):
        for dt in ("i4", "i8"):
            for op in ("concatenate", "intersect", "difference", "unique", "as_array", "find", "size", "getitem", "unchanged"):

                def case():
                    def go(it):
                        x, y = _facets(it, a, dt), _facets(it, b, dt)
                        if op in ("concatenate", "intersect", "difference"):
                            z = meth(it, x, op, y)
                            z2 = meth(it, x, op, y, assume_unique=True) if op != "concatenate" else z
                            return _pairs(it, z), _pairs(it, z2), it.getattr_(z, "cells_dtype"), it.getattr_(it.getattr_(z, "local_facet_ids"), "dtype")
                        if op == "unique":
                            z = meth(it, x, "concatenate", y)
                            meth(it, z, "unique")
                            return _pairs(it, z), it.getattr_(z, "cells_dtype")
                        if op == "as_array":
                            z = meth(it, x, "as_array")
                            return ints(z), z.shape
                        if op == "find":
                            z = meth(it, x, "concatenate", y)
                            meth(it, z, "unique")
                            return _pairs(it, z), ints(meth(it, z, "find", x)), ints(meth(it, z, "find", y))
                        if op == "size":
                            return ints([it.getattr_(x, "size")])[0], bool(it.truth(it.getattr_(x, "empty")))
                        if op == "getitem":
                            return [tuple(ints(list(it.iter(it.getitem(x, j))))) for j in range(len(a))]
                        for o in ("concatenate", "intersect", "difference"):
                            meth(it, meth(it, x, o, y), "unique")
                        return _pairs(it, x), _pairs(it, y)

                    def spec(it, v, S):
                        if op in ("concatenate", "intersect", "difference"):
                            w = {"concatenate": a + b, "intersect": [p for p in a if p in b], "difference": [p for p in a if p not in b]}[op]
                            for q in v[:2]:
                                if sorted(q) != sorted(w):
                                    return False, "%s of %s and %s gives %s" % (op, a, b, q)
                            if op == "concatenate" and v[0] != w:
                                return False, "concatenation changes the order"
                            if v[2] != D[dt]:
                                return False, "cells of type %s from cells of type %s" % (v[2], dt)
                            return v[3] == D["i4"], "local facets of type %s" % (v[3],)
                        if op == "unique":
                            return sorted(v[0]) == sorted(set(a + b)) and v[1] == D[dt], "unique facets of %s: %s (%s)" % (a + b, v[0], v[1])
                        if op == "as_array":
                            return v == ([y for p in a for y in p], (2 * len(a),)), "flattened facets of %s: %s" % (a, v[0])
                        if op == "find":
                            z, px, py = v
                            return [z[j] for j in px] == a and [z[j] for j in py] == b, "positions %s of %s in %s" % (px, a, z)
                        if op == "size":
                            return v == (len(a), not a), "size and empty: %s for %d facets" % (v, len(a))
                        if op == "getitem":
                            return v == a, "entries %s of %s" % (v, a)
                        return v == (a, b), "operands changed by the set operations"

                    return pydecide(ctx, go, spec)

                q = {"getitem": "__getitem__", "unchanged": "concatenate"}.get(op, op)
                ctx.attempt("sets of facets: " + op, "#%d %s" % (i, dt), case, wf(it0.get(F + "MeshFacets." + q)))

    def missing():
        def go(it):
            return meth(it, _facets(it, [(0, 1), (2, 3)]), "find", _facets(it, [(2, 3), (3, 2)]))

        def throw(it, e, S):
            return True, ""

        return pydecide(ctx, go, lambda it, v, S: (False, "positions %s for a facet that is not in the set" % (v,)), throw=throw)

    ctx.attempt("sets of facets: find", "facet that is not present", missing, wf(it0.get(F + "MeshFacets.find")))

    ms = models(ctx) + [("process without cells", Model((3, 2), 8, local=[], off=4))]
    for name, mo in ms:
        lexf = [dlf_face_lex(mo.d, f) for f in range(2 * mo.d)]
        every = [(c, f) for c in range(len(mo.cells)) for f in range(2 * mo.d)]
        random.Random(5).shuffle(every)

        def conv():
            def go(it):
                m = mo.mesh(it)
                x = meth(it, _facets(it, every), "to_original", m)
                y = meth(it, x, "to_DOLFINx", m)
                z = meth(it, _facets(it, every), "get_facet_ids", m)
                return _pairs(it, x), it.getattr_(x, "cells_dtype"), _pairs(it, y), it.getattr_(y, "cells_dtype"), ints(z)

            def spec(it, v, S):
                w = [(mo.cells[c], lexf[f]) for c, f in every]
                if v[0] != w:
                    i = next(i for i in range(len(w)) if i >= len(v[0]) or v[0][i] != w[i])
                    return False, "facet %s in the original numbering: %s, specified %s" % (every[i], v[0][i : i + 1], w[i])
                if v[2] != every:
                    i = next(i for i in range(len(w)) if i >= len(v[2]) or v[2][i] != every[i])
                    return False, "facet %s converted back to %s instead of %s" % (v[0][i], v[2][i : i + 1], every[i])
                if v[1] != D["i8"] or v[3] != D["i4"]:
                    return False, "cells of types %s (original) and %s (DOLFINx)" % (v[1], v[3])
                w = [mo.c2f[c][f] for c, f in every]
                return v[4] == w, "ids of facets %s: %s, specified %s" % (every[:4], v[4][:4], w[:4])

            return pydecide(ctx, go, spec, hooks=mo.hooks())

        ctx.attempt("conversion between original and DOLFINx facets", name, conv, wf(it0.get(F + "MeshFacets.to_DOLFINx")))
        for what in ("exterior", "interior", "all", "ids"):
            for single in (False, True):
                if what == "exterior" and single:
                    continue

                def create():
                    ids = mo.int[::2] + mo.ext[:3]

                    def go(it):
                        m = mo.mesh(it)
                        if what == "ids":
                            x = it.call(it.get(F + "create_facets_from_ids"), [m, arr(it, ids, "i4"), single])
                        else:
                            x = it.call(it.get(F + "create_%s_mesh_facets" % what), [m] + ([single] if what != "exterior" else []))
                        return _pairs(it, x), it.getattr_(x, "cells_dtype")

                    def spec(it, v, S):
                        fs = {"exterior": mo.ext, "interior": mo.int, "all": list(range(mo.nf_owned)), "ids": ids}[what]
                        full = mo.pairs(fs, False)
                        got = sorted(v[0])
                        if v[1] != D["i4"]:
                            return False, "cells of type %s" % v[1]
                        if single or what == "exterior":
                            # any of the cells of the facet
                            if not set(got) <= set(full):
                                return False, "facets %s do not belong to the set" % sorted(set(got) - set(full))[:4]
                            g = sorted(mo.c2f[c][f] for c, f in got)
                            return g == sorted(fs), "facets %s, specified each of %s once" % (g[:12], sorted(fs)[:12])
                        if got != full:
                            return False, "%d (cell, facet) pairs, specified %d; missing %s, not expected %s" % (len(got), len(full), sorted(set(full) - set(got))[:4], sorted(set(got) - set(full))[:4])
                        return True, ""

                    return pydecide(ctx, go, spec, hooks=mo.hooks())

                q = "create_facets_from_ids" if what == "ids" else "create_%s_mesh_facets" % what
                ctx.attempt("creation of the facets of a mesh: " + what, "%s%s" % (name, ", one side" if single else ""), create, wf(it0.get(F + q)))


# ------------------------------------------------------------------------ C25
class Domain:
    """classification of cells and facets in the original numbering, as the C++ unfitted domain reports it"""

    def __init__(self, mo, seed):
        r = random.Random(seed)
        self.mo = mo
        N = mo.N
        self.cell = [r.choice(["cut", "full", "empty"]) for _ in range(N)]
        self.facet = {}
        self.unf, self.full_unf = set(), set()
        for c in range(N):
            for f in range(2 * mo.d):
                s = r.choice(["cut", "full", "empty", "empty"])
                k = (c, f)
                if r.random() < 0.3:
                    self.unf.add(k)
                    # only one of the kinds with an unfitted boundary is also a kind of facet
                    s = r.choice(["cut", "partial_unf", "full_unf"])
                    if s == "full_unf":
                        self.full_unf.add(k)
                self.facet[k] = s
        self.asked = []

    def cells(self, s):
        def go(it, ids=None):
            q = list(range(self.mo.N)) if ids is None else ints(ids)
            return arr(it, [c for c in q if self.cell[c] == s], "i8")

        return go

    def facets(self, s):
        def go(it, cells, fs):
            p = list(zip(ints(cells), ints(fs)))
            if s == "unf":
                p = [k for k in p if k in self.unf]
            elif s == "full_unf":
                p = [k for k in p if k in self.full_unf]
            else:
                p = [k for k in p if self.facet[k] == s]
            return (arr(it, [k[0] for k in p], "i8"), arr(it, [k[1] for k in p], "i4"))

        return go

    def cpp(self, it):
        d = {"num_total_cells": self.mo.N, "dim": self.mo.d}
        for s in ("cut", "full", "empty"):
            d["get_%s_cells" % s] = nat("get_%s_cells" % s, self.cells(s))
            d["get_%s_facets" % s] = nat("get_%s_facets" % s, self.facets(s))
        d["get_unf_bdry_facets"] = nat("get_unf_bdry_facets", self.facets("unf"))
        d["get_full_unf_bdry_facets"] = nat("get_full_unf_bdry_facets", self.facets("full_unf"))
        return fake("cpp_unf_domain", **d)

    def obj(self, it):
        return it.call(it.get(M + "unfitted_domain.UnfittedDomain"), [self.mo.mesh(it), self.cpp(it)])

    def sel(self, facets, pred):
        lex = [dlf_face_lex(self.mo.d, f) for f in range(2 * self.mo.d)]
        return {(c, f) for c, f in self.mo.pairs(facets, False) if pred((self.mo.cells[c], lex[f]))}

    def want(self, kind, ext):
        mo = self.mo
        allf = list(range(mo.nf_owned))
        f = mo.ext if ext else mo.int
        own = self.sel(f, lambda k: self.facet[k] == kind)
        if ext and kind == "cut":
            own |= self.sel(allf, lambda k: k in self.unf and k not in self.full_unf)
        if ext and kind == "full":
            own |= self.sel(allf, lambda k: k in self.full_unf)
        if not ext and kind == "empty":
            own |= self.sel(f, lambda k: k in self.unf) - self.sel(f, lambda k: self.facet[k] == "cut")
        return own

    def want_cells(self, kind):
        return [i for i in range(self.mo.nc_owned) if self.cell[self.mo.cells[i]] == kind]


def run_C25(ctx):
    it0 = Interp()
    U_ = M + "unfitted_domain.UnfittedDomain."
    kinds = ("cut", "full", "empty")
    ms = [(n, m) for n, m in models(ctx)] + [("process without cells", Model((3, 2), 8, local=[], off=4))]
    for mi, (name, mo) in enumerate(ms):
        for rep in range(2):
            dom = Domain(mo, 10 * mi + rep)
            for kind in kinds:

                def cells():
                    def go(it):
                        o = dom.obj(it)
                        return ints(meth(it, o, "get_%s_cells" % kind)), ints(meth(it, o, "get_%s_cells" % kind))

                    def spec(it, v, S):
                        w = dom.want_cells(kind)
                        if sorted(v[0]) != w or v[0] != v[1]:
                            return False, "%s cells %s, specified %s" % (kind, v[0] if sorted(v[0]) != w else v[1], w)
                        return v[0] == w, "%s cells %s are not sorted" % (kind, v[0])

                    return pydecide(ctx, go, spec, hooks=mo.hooks())

                ctx.attempt("cells of a kind", "%s, %s #%d" % (kind, name, rep), cells, wf(it0.get(U_ + "get_%s_cells" % kind)))
                for ext in (True, False):

                    def facets():
                        def go(it):
                            return _pairs(it, meth(it, dom.obj(it), "get_%s_facets" % kind, ext))

                        def spec(it, v, S):
                            return _cmp_facets("%s facets for %s integrals" % (kind, "exterior" if ext else "interior"), v, dom.want(kind, ext))

                        return pydecide(ctx, go, spec, hooks=mo.hooks())

                    ctx.attempt("facets of a kind for a type of integral", "%s %s, %s #%d" % (kind, "exterior" if ext else "interior", name, rep), facets, wf(it0.get(U_ + "get_%s_facets" % kind)))

            # results do not depend on what was asked before
            q = [(k, e) for k in kinds for e in (True, False)]
            for o_ in range(4 if not ctx.thorough else 20):
                order = list(q)
                random.Random(100 * mi + o_).shuffle(order)
                order = order + order[::-1]

                def history():
                    def go(it):
                        o = dom.obj(it)
                        return [_pairs(it, meth(it, o, "get_%s_facets" % k, e)) for k, e in order]

                    def spec(it, v, S):
                        for i, (k, e) in enumerate(order):
                            ok, det = _cmp_facets("%s facets for %s integrals asked in position %d of %s" % (k, "exterior" if e else "interior", i, [x[0] + ("/ext" if x[1] else "/int") for x in order[: i + 1]]), v[i], dom.want(k, e))
                            if not ok:
                                return ok, det
                        return True, ""

                    return pydecide(ctx, go, spec, hooks=mo.hooks())

                ctx.attempt("facets do not depend on previous queries", "%s #%d order %d" % (name, rep, o_), history, wf(it0.get(U_ + "get_cut_facets")))

            def allf():
                def go(it):
                    o = dom.obj(it)
                    return _pairs(it, meth(it, o, "get_all_facets", True)), _pairs(it, meth(it, o, "get_all_facets", False))

                def spec(it, v, S):
                    e = dom.want("cut", True) | dom.want("full", True) | dom.want("empty", True)
                    if set(v[0]) != e:
                        return False, "all the facets for exterior integrals: missing %s, not expected %s" % (sorted(e - set(v[0]))[:4], sorted(set(v[0]) - e)[:4])
                    return _cmp_facets("all the facets for interior integrals", v[1], set(mo.pairs(range(mo.nf_owned), False)) - e)

                return pydecide(ctx, go, spec, hooks=mo.hooks())

            ctx.attempt("all the facets for a type of integral", "%s #%d" % (name, rep), allf, wf(it0.get(M + "unfitted_domain_abc.UnfittedDomainABC.get_all_facets")))
            for tags in ((1, 2, 3), (7, None, 5), (None, 4, None), (3, 3, 1), (None, None, None), (0, 5, 0)):

                def ctags():
                    def go(it):
                        meth(it, dom.obj(it), "create_cell_meshtags", *tags)
                        return it.trace

                    def spec(it, tr, S):
                        e = [x for x in tr if x[0] == "call" and isinstance(x[1], U) and x[1].path.split(".")[-1] == "meshtags"]
                        if len(e) != 1:
                            return None, "meshtags not created"
                        a = e[0][2]
                        got = list(zip(ints(a[2]), ints(a[3])))
                        w = sorted((c, t) for k, t in zip(kinds, tags) if t is not None for c in dom.want_cells(k))
                        if a[1] != mo.d:
                            return False, "tags of dimension %s" % a[1]
                        return got == w, "tags (cell, tag) %s, specified %s" % (got[:8], w[:8])

                    return pydecide(ctx, go, spec, hooks=mo.hooks())

                ctx.attempt("cell tags", "%s %s #%d" % (tags, name, rep), ctags, wf(it0.get(M + "unfitted_domain_abc.UnfittedDomainABC.create_cell_meshtags")))
                for ext in (True, False):

                    def ftags():
                        def go(it):
                            return [(ints([t])[0], ints(x)) for t, x in (tuple(it.iter(y)) for y in it.iter(meth(it, dom.obj(it), "create_facet_tags", *tags, ext_integral=ext)))]

                        def spec(it, v, S):
                            w = {}
                            for k, t in zip(kinds, tags):
                                if t is not None:
                                    w.setdefault(t, set()).update(dom.want(k, ext))
                            if sorted(t for t, _ in v) != sorted(w):
                                return False, "tags %s, specified %s" % ([t for t, _ in v], sorted(w))
                            for t, x in v:
                                if set(zip(x[::2], x[1::2])) != w[t] or len(x) % 2:
                                    return False, "facets with tag %d (cut, full, empty tags %s): %d, specified %d" % (t, tags, len(x) // 2, len(w[t]))
                            return True, ""

                        return pydecide(ctx, go, spec, hooks=mo.hooks())

                    ctx.attempt("facet tags", "%s %s %s #%d" % (tags, "exterior" if ext else "interior", name, rep), ftags, wf(it0.get(M + "unfitted_domain_abc.UnfittedDomainABC.create_facet_tags")))


def _cmp_facets(what, got, want):
    if set(got) != set(want):
        return False, "%s: missing %s, not expected %s" % (what, sorted(set(want) - set(got))[:4], sorted(set(got) - set(want))[:4])
    if len(set(got)) != len(got):
        return False, "%s: repeated facets" % what
    return True, ""
