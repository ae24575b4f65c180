"""Models of the PyVista data structures and of the compiled objects they are made from (never imported)."""

import numpy as np


class CellType:
    VERTEX = 1
    LINE = 3
    QUAD = 9
    HEXAHEDRON = 12
    LAGRANGE_CURVE = 68
    LAGRANGE_QUADRILATERAL = 70
    LAGRANGE_HEXAHEDRON = 72


class UnstructuredGrid:
    def __init__(self, cells, cell_types, points):
        self.cells, self.celltypes, self.points = cells, cell_types, points
        self.n_cells = len(cell_types)
        self.cell_data = {}


class Grid:
    """cells in the given order (names as keys), with data"""

    def __init__(self, keys, data, breaks):
        self.keys = list(keys)
        self.n_cells = len(self.keys)
        self.cell_data = data
        self.breaks = breaks

    def _sub(self, ids):
        ids = [int(i) for i in ids]
        return Grid([self.keys[i] for i in ids], {k: np.array([v[i] for i in ids]) for k, v in self.cell_data.items()}, self.breaks)

    def extract_cells(self, ind):
        a = np.asarray(ind)
        if a.dtype == bool:
            return self._sub([i for i in range(self.n_cells) if a[i]])
        return self._sub(sorted(set(int(i) for i in a)))

    def threshold(self, value=None, scalars=None):
        v = self.cell_data[scalars]
        return self._sub([i for i in range(self.n_cells) if bool(v[i]) == bool(value)])

    def explode(self, factor=0.1):
        return self

    def _facets(self, order):
        n = len(order)
        data = {k: np.array([v[i // n] for i in range(n * self.n_cells)]) for k, v in self.cell_data.items()}
        return Grid([(c, f) for c in self.keys for f in order], data, self.breaks)

    def extract_all_edges(self):
        return self._facets([2, 1, 3, 0])

    def extract_surface(self):
        return self._facets([2, 4, 0, 1, 3, 5])  # the hash of the faces goes by their smallest point


def RectilinearGrid(*breaks):
    n = 1
    for b in breaks:
        n = n * (len(b) - 1)
    return Grid(range(n), {}, breaks)


class Quad:
    """cut cells quadrature"""

    def __init__(self, **kw):
        for k, v in kw.items():
            setattr(self, k, v)


class UnfittedDomain_2D:
    pass


class UnfittedDomain_3D:
    pass


class CartGridTP_2D:
    pass


class CartGridTP_3D:
    pass


class ReparamMesh_1_2:
    pass


class ReparamMesh_2_2:
    pass


class ReparamMesh_2_3:
    pass


class ReparamMesh_3_3:
    pass
