"""functions that return True: the interpreter must agree (devel/stress_py.py)"""
import numpy as np, itertools, functools, collections, dataclasses, enum, operator, math, contextlib, typing, abc, copy, bisect
from collections import defaultdict, OrderedDict, Counter, namedtuple
from functools import reduce, partial, lru_cache, cached_property
from itertools import chain, product, combinations, permutations, islice, accumulate, groupby, repeat, count, zip_longest, starmap
from dataclasses import dataclass, field
from typing import NamedTuple, Optional


def t_comp(): return [x * y for x in range(3) if x for y in (1, 2)] == [1, 2, 2, 4] and {k: v for k, v in zip("ab", (1, 2))} == {"a": 1, "b": 2} and {x % 2 for x in range(5)} == {0, 1} and sum(x for x in range(4)) == 6
def t_unpack():
    a, *b, c = [1, 2, 3, 4]
    (d, e), f = (1, 2), 3
    x = {**{"a": 1}, "b": 2}
    y = [*b, a]
    return b == [2, 3] and c == 4 and (d, e, f) == (1, 2, 3) and x == {"a": 1, "b": 2} and y == [2, 3, 1]
def t_gen():
    def g(n):
        for i in range(n):
            yield i
        yield from (10, 11)
        return None
    return list(g(2)) == [0, 1, 10, 11] and next(g(1)) == 0 and next(iter([]), 5) == 5
def t_iter(): return list(chain([1], (2, 3))) == [1, 2, 3] and list(product((0, 1), repeat=2))[2] == (1, 0) and list(combinations(range(3), 2)) == [(0, 1), (0, 2), (1, 2)] and len(list(permutations(range(3)))) == 6 and list(islice(range(10), 2, 4)) == [2, 3] and list(accumulate([1, 2, 3])) == [1, 3, 6] and list(chain.from_iterable([[1], [2]])) == [1, 2] and list(zip_longest([1, 2], [3]))[1] == (2, None) and list(starmap(operator.add, [(1, 2)])) == [3] and [(k, list(v)) for k, v in groupby([1, 1, 2])] == [(1, [1, 1]), (2, [2])]
def t_enum(): return list(enumerate("ab", 1)) == [(1, "a"), (2, "b")] and list(reversed([1, 2])) == [2, 1] and sorted([3, 1, 2], key=lambda x: -x) == [3, 2, 1] and sorted({2: 1, 1: 1}) == [1, 2] and list(map(str, [1, 2])) == ["1", "2"] and list(filter(None, [0, 1])) == [1] and any(x > 1 for x in [1, 2]) and all([]) and max([1, 3, 2]) == 3 and min((2, 1), key=lambda x: x) == 1 and max([], default=4) == 4 and divmod(7, 2) == (3, 1) and abs(-2) == 2 and round(2.4) == 2 and pow(2, 3) == 8
def t_dict():
    d = {}
    d.setdefault("a", []).append(1)
    d["b"] = 2
    d.update(c=3)
    e = dict(zip("xy", range(2)))
    p = d.pop("b")
    return d == {"a": [1], "c": 3} and list(d.items())[1] == ("c", 3) and p == 2 and d.get("z", 9) == 9 and "a" in d and e["y"] == 1 and list(d) == ["a", "c"] and d | {"q": 1} == {"a": [1], "c": 3, "q": 1} and dict.fromkeys("ab", 0) == {"a": 0, "b": 0}
def t_dd():
    d = defaultdict(list)
    d[1].append(2)
    c = Counter("aab")
    o = OrderedDict([(1, 2)])
    return d == {1: [2]} and c["a"] == 2 and o[1] == 2 and list(d.keys()) == [1]
def t_set():
    s = {1, 2}
    s.add(3); s.discard(1); s |= {5}
    return s == {2, 3, 5} and s & {2} == {2} and s - {2} == {3, 5} and {1} <= {1, 2} and {1}.issubset({1, 2}) and s.isdisjoint({9}) and frozenset([1]) == {1} and s ^ {2} == {3, 5}
def t_str(): return "a,b".split(",") == ["a", "b"] and "-".join(["a", "b"]) == "a-b" and f"{3:03d}|{1.5:.2f}|{'x'!r}" == "003|1.50|'x'" and "abc"[::-1] == "cba" and "abc".startswith("ab") and "a b".replace(" ", "_") == "a_b" and " x ".strip() == "x" and "%d-%s" % (1, "a") == "1-a" and "{} {x}".format(1, x=2) == "1 2" and "abc".find("c") == 2 and "A".lower() == "a" and "ab".upper() == "AB" and "x" * 3 == "xxx" and "a" in "cat" and "abc".removeprefix("a") == "bc" and "a.b.c".rsplit(".", 1) == ["a.b", "c"] and "a=b".partition("=") == ("a", "=", "b") and "12".isdigit() and "ab".zfill(4) == "00ab" and "a\nb".splitlines() == ["a", "b"]
def t_slice():
    l = list(range(6))
    l[1:3] = [9]
    del l[0]
    l.insert(1, 7); l.extend([1]); l.remove(3); l.reverse()
    return l == [1, 5, 4, 7, 9] and l.index(4) == 2 and l.pop() == 9 and l.count(1) == 1 and l[-2:] == [4, 7] and l[::2] == [1, 4] and (1, 2) + (3,) == (1, 2, 3) and [0] * 2 == [0, 0]
def t_while():
    n, s = 0, 0
    while True:
        n += 1
        if n % 2: continue
        if n > 6: break
        s += n
    else:
        s = -1
    for i in range(3):
        if i == 7: break
    else:
        s += 100
    return s == 112
def t_try():
    r = []
    try:
        try:
            raise ValueError("x")
        except (KeyError, ValueError) as e:
            r.append(str(e))
            raise RuntimeError("y") from e
        finally:
            r.append("f")
    except RuntimeError as e:
        r.append(type(e).__name__)
    else:
        r.append("n")
    try:
        {}["a"]
    except KeyError:
        r.append("k")
    try:
        [][1]
    except (IndexError, LookupError):
        r.append("i")
    try:
        assert False, "m"
    except AssertionError as e:
        r.append(str(e))
    return r == ["x", "f", "RuntimeError", "k", "i", "m"]
def t_with():
    log = []
    class C:
        def __enter__(self): log.append("in"); return self
        def __exit__(self, *a): log.append("out"); return a[0] is ValueError
    @contextlib.contextmanager
    def m(x):
        log.append("a")
        try:
            yield x
        finally:
            log.append("b")
    with C() as c, m(3) as y:
        log.append(y)
        raise ValueError
    with contextlib.suppress(KeyError):
        raise KeyError
    return log == ["in", "a", 3, "b", "out"]
def t_closure():
    def mk(n):
        c = 0
        def f(x=1, *a, k=2, **kw):
            nonlocal c
            c += x + k + len(a) + len(kw)
            return c + n
        return f
    g = mk(10)
    g()
    return g(1, 2, 3, k=1, z=4) == 10 + 3 + 5 and (lambda *a: sum(a))(1, 2) == 3
@dataclass
class DC:
    a: int
    b: list = field(default_factory=list)
    c: float = 2.0
    def m(self): return self.a + self.c
    @property
    def p(self): return self.a * 2
    @staticmethod
    def s(x): return x + 1
    @classmethod
    def k(cls, x): return cls(x)
class NT(NamedTuple):
    x: int
    y: int = 4
P = namedtuple("P", ["u", "v"])
class E(enum.Enum):
    a = 1
    b = 2
class Base(abc.ABC):
    n = 3
    def __init__(self, v): self.v = v
    @abc.abstractmethod
    def f(self): ...
    def g(self): return self.f() + self.n
class Der(Base):
    def __init__(self, v, w):
        super().__init__(v)
        self._w = w
    def f(self): return self.v
    @property
    def w(self): return self._w
    @w.setter
    def w(self, x): self._w = x + 1
    def __eq__(self, o): return isinstance(o, Der) and self.v == o.v
    def __hash__(self): return hash(self.v)
    def __len__(self): return 5
    def __getitem__(self, i): return i * 2
    def __contains__(self, x): return x == 1
    def __call__(self, x): return x + self.v
    def __iter__(self): return iter((1, 2))
    def __add__(self, o): return Der(self.v + o.v, 0)
    def __repr__(self): return f"Der({self.v})"
    def __bool__(self): return True
    def __lt__(self, o): return self.v < o.v
def t_cls():
    d = Der(1, 2)
    d.w = 5
    return d.g() == 4 and d.w == 6 and d == Der(1, 0) and len(d) == 5 and d[4] == 8 and 1 in d and d(3) == 4 and list(d) == [1, 2] and (d + d).v == 2 and repr(d) == "Der(1)" and isinstance(d, Base) and issubclass(Der, Base) and hasattr(d, "v") and not hasattr(d, "zz") and getattr(d, "zz", 3) == 3 and type(d) is Der and d < Der(2, 0) and {d: 1}[Der(1, 9)] == 1 and sorted([Der(2, 0), Der(1, 0)])[0].v == 1
def t_dc(): return DC(1).m() == 3.0 and DC(1).p == 2 and DC.s(1) == 2 and DC.k(4).a == 4 and DC(1) == DC(1, [], 2.0) and NT(1).y == 4 and NT(1)[0] == 1 and NT(1) == (1, 4) and NT(1)._replace(x=2).x == 2 and P(1, 2).v == 2 and NT(1)._asdict() == {"x": 1, "y": 4} and dataclasses.replace(DC(1), a=5).a == 5
def t_en(): return E.a.value == 1 and E["b"] is E.b and E(2) is E.b and E.a.name == "a" and [e.value for e in E] == [1, 2] and E.a != E.b and E.a in {E.a: 1}
def t_match():
    def f(x):
        match x:
            case 1 | 2: return "a"
            case (a, b): return a + b
            case {"k": v}: return v
            case str(): return "s"
            case _ if x is None: return "n"
            case _: return "o"
    return f(1) == "a" and f((1, 2)) == 3 and f({"k": 5}) == 5 and f("q") == "s" and f(None) == "n" and f(7.5) == "o"
def t_walrus(): return (n := 3) == 3 and [y for x in range(3) if (y := x * 2) > 1] == [2, 4] and (1 < 2 < 3) and not (1 if False else 0) and (None or 3) == 3 and ([] and 1) == []
def t_func(): return reduce(lambda a, b: a * b, [1, 2, 3], 1) == 6 and partial(pow, 2)(3) == 8 and operator.itemgetter(1)([5, 6]) == 6 and operator.attrgetter("a")(DC(3)) == 3 and math.prod([2, 3]) == 6 and math.floor(1.5) == 1 and math.isclose(1.0, 1.0) and math.comb(4, 2) == 6 and math.ceil(1.2) == 2 and math.sqrt(4) == 2.0 and bisect.bisect_left([1, 2, 4], 3) == 2 and math.gcd(4, 6) == 2
@lru_cache(maxsize=None)
def fib(n): return n if n < 2 else fib(n - 1) + fib(n - 2)
class CP:
    def __init__(self): self.k = 0
    @cached_property
    def p(self): self.k += 1; return self.k
def t_cache():
    c = CP()
    return fib(10) == 55 and c.p == 1 and c.p == 1
def t_copy():
    a = [[1], 2]
    b, c = copy.copy(a), copy.deepcopy(a)
    a[0].append(5)
    return b[0] == [1, 5] and c[0] == [1]
# ---------------------------------------------------------------- numpy
A = lambda *x: np.array(x)
eq = lambda a, b: np.array_equal(a, b)
def n_make(): return eq(np.zeros(2), [0, 0]) and eq(np.ones((1, 2), dtype=np.int32), [[1, 1]]) and eq(np.full(2, 3), [3, 3]) and eq(np.arange(1, 4), [1, 2, 3]) and eq(np.linspace(0, 1, 3), [0, 0.5, 1]) and eq(np.eye(2), [[1, 0], [0, 1]]) and np.empty((2, 0)).size == 0 and eq(np.zeros_like(A(1, 2)), [0, 0]) and eq(np.full_like(A(1, 2), 5), [5, 5]) and eq(np.identity(2), np.eye(2)) and eq(np.asarray([1, 2]), [1, 2]) and eq(np.ascontiguousarray(A(1)), [1]) and eq(np.fromiter((x for x in range(2)), dtype=int), [0, 1]) and eq(np.ones_like(A(1.5)), [1.0]) and eq(np.diag(A(1, 2)), [[1, 0], [0, 2]])
def n_shape():
    a = np.arange(6).reshape(2, 3)
    return a.shape == (2, 3) and a.T.shape == (3, 2) and a.ndim == 2 and a.size == 6 and eq(a.ravel(), np.arange(6)) and eq(a.flatten(), np.arange(6)) and a.reshape(-1, 2).shape == (3, 2) and a[None].shape == (1, 2, 3) and a[:, np.newaxis].shape == (2, 1, 3) and np.expand_dims(a, 0).shape == (1, 2, 3) and np.squeeze(a[None]).shape == (2, 3) and eq(a.transpose(1, 0), a.T) and eq(np.swapaxes(a, 0, 1), a.T) and len(a) == 2 and eq(np.atleast_2d(A(1, 2)), [[1, 2]]) and eq(a.ravel(order="F"), [0, 3, 1, 4, 2, 5]) and eq(np.reshape(a, (3, 2), order="F"), [[0, 4], [3, 2], [1, 5]]) and np.moveaxis(a, 0, 1).shape == (3, 2) and eq(np.broadcast_to(A(1, 2), (2, 2)), [[1, 2], [1, 2]]) and eq(np.transpose(a), a.T)
def n_index():
    a = np.arange(12).reshape(3, 4)
    m = a > 5
    b = a.copy()
    b[m] = 0
    b[0, [1, 2]] = 9
    b[:, -1] += 1
    b[np.ix_([1], [0, 1])] = 7
    c = a[[0, 2]][:, [1, 3]]
    return eq(a[1, 1:3], [5, 6]) and eq(a[m], np.arange(6, 12)) and eq(b, [[0, 9, 9, 4], [7, 7, 0, 1], [0, 0, 0, 1]]) and eq(c, [[1, 3], [9, 11]]) and eq(a[..., 0], [0, 4, 8]) and eq(a[::-1, 0], [8, 4, 0]) and a[1, 2] == 6 and a[-1][-1] == 11 and eq(a[A(0, 1), A(1, 2)], [1, 6]) and eq(np.take(a, [0, 2], axis=1), a[:, [0, 2]]) and eq(a.take([1, 5]), [1, 5]) and eq(a[~m], np.arange(6)) and eq(np.take_along_axis(a, np.array([[0], [1], [2]]), axis=1), [[0], [5], [10]]) and eq(np.compress([True, False, True], a, axis=0), a[[0, 2]]) and eq(np.extract(m, a), a[m]) and eq(np.delete(A(1, 2, 3), 1), [1, 3]) and eq(np.insert(A(1, 3), 1, 2), [1, 2, 3]) and eq(np.append(A(1), 2), [1, 2])
def n_cat():
    a, b = A(1, 2), A(3, 4)
    return eq(np.concatenate([a, b]), [1, 2, 3, 4]) and eq(np.hstack((a, b)), [1, 2, 3, 4]) and eq(np.vstack((a, b)), [[1, 2], [3, 4]]) and eq(np.stack([a, b], axis=1), [[1, 3], [2, 4]]) and eq(np.column_stack((a, b)), [[1, 3], [2, 4]]) and eq(np.tile(a, 2), [1, 2, 1, 2]) and eq(np.repeat(a, 2), [1, 1, 2, 2]) and eq(np.repeat(a, [1, 2]), [1, 2, 2]) and eq(np.r_[a, b], [1, 2, 3, 4]) and eq(np.c_[a, b], [[1, 3], [2, 4]]) and eq(np.concatenate([[a], [b]], axis=1), [[1, 2, 3, 4]]) and eq(np.split(A(1, 2, 3, 4), 2)[1], [3, 4]) and eq(np.array_split(A(1, 2, 3), 2)[0], [1, 2]) and eq(np.tile(a, (2, 1)), [[1, 2], [1, 2]]) and eq(np.repeat(np.array([[1, 2]]), 2, axis=0), [[1, 2], [1, 2]]) and eq(np.roll(A(1, 2, 3), 1), [3, 1, 2]) and eq(np.flip(a), [2, 1]) and eq(np.block([[a], [b]]), [[1, 2], [3, 4]]) and eq(np.dstack((a, b)), [[[1, 3], [2, 4]]]) and eq(np.flipud(np.array([[1], [2]])), [[2], [1]])
def n_set():
    a, b = A(3, 1, 1, 2), A(2, 3, 5)
    u, i, v, c = np.unique(a, return_index=True, return_inverse=True, return_counts=True)
    x, p, q = np.intersect1d(a, b, return_indices=True)
    return eq(u, [1, 2, 3]) and eq(i, [1, 3, 0]) and eq(u[v], a) and eq(c, [2, 1, 1]) and eq(np.isin(a, b), [1, 0, 0, 1]) and eq(np.setdiff1d(a, b), [1]) and eq(np.union1d(a, b), [1, 2, 3, 5]) and eq(x, [2, 3]) and eq(a[p], x) and eq(b[q], x) and eq(np.setxor1d(a, b), [1, 5]) and eq(np.isin(a, b, invert=True), [0, 1, 1, 0]) and eq(np.unique(np.array([[1, 2], [1, 2], [0, 1]]), axis=0), [[0, 1], [1, 2]]) and eq(np.isin(a, list(b), assume_unique=False), [1, 0, 0, 1])
def n_sort():
    a = A(3, 1, 2)
    b = a.copy(); b.sort()
    return eq(np.sort(a), [1, 2, 3]) and eq(np.argsort(a), [1, 2, 0]) and eq(b, [1, 2, 3]) and eq(np.lexsort((A(1, 0, 0), A(0, 1, 0))), [2, 0, 1]) and eq(np.searchsorted(b, [2, 5]), [1, 3]) and eq(np.searchsorted(b, 2, side="right"), 2) and np.argmax(a) == 0 and a.argmin() == 1 and eq(a.argsort(), [1, 2, 0]) and eq(np.searchsorted(a, A(2), sorter=np.argsort(a)), [1]) and eq(np.argsort(a, kind="stable"), [1, 2, 0]) and eq(np.digitize(A(0.5, 2.5), A(0, 1, 2)), [1, 3])
def n_red():
    a = np.arange(6).reshape(2, 3)
    return a.sum() == 15 and eq(a.sum(axis=0), [3, 5, 7]) and np.prod(A(2, 3)) == 6 and eq(np.cumsum(A(1, 2)), [1, 3]) and a.min() == 0 and np.max(a, axis=1)[1] == 5 and eq(np.diff(A(1, 4, 6)), [3, 2]) and np.any(a > 4) and not np.all(a) and np.count_nonzero(a) == 5 and eq((a > 2).any(axis=0), [1, 1, 1]) and eq((a > 0).all(axis=1), [0, 1]) and a.mean() == 2.5 and np.sum(a, axis=1, keepdims=True).shape == (2, 1) and np.dot(A(1, 2), A(3, 4)) == 11 and eq(np.array([[1, 2]]) @ A(1, 1), [3]) and np.linalg.norm(A(3.0, 4.0)) == 5 and eq(np.cumprod(A(2, 3)), [2, 6]) and eq(np.cross(A(1, 0, 0), A(0, 1, 0)), [0, 0, 1]) and eq(np.outer(A(1, 2), A(1, 2)), [[1, 2], [2, 4]]) and eq(np.einsum("ij,j->i", a, A(1, 0, 1)), [2, 8]) and np.ptp(A(1, 4)) == 3 and eq(np.bincount(A(0, 2, 2)), [1, 0, 2]) and np.linalg.det(np.array([[2.0, 0.0], [0.0, 1.0]])) == 2.0 and eq(np.add.reduce(a), [3, 5, 7]) and eq(np.maximum(A(1, 5), 3), [3, 5]) and eq(np.minimum.accumulate(A(3, 1, 2)), [3, 1, 1]) and eq(np.kron(A(1, 2), A(1, 1)), [1, 1, 2, 2])
def n_where():
    a = A(0, 3, 0, 4)
    b = np.zeros(3, dtype=np.int64)
    np.add.at(b, A(0, 0, 2), 1)
    c = np.empty(4, dtype=np.int32)
    c[:] = -1
    c[a > 0] = np.arange(2)
    np.put(c, [0], 8)
    d = np.where(a > 0, a, -1)
    return eq(np.where(a)[0], [1, 3]) and eq(np.flatnonzero(a), [1, 3]) and eq(np.nonzero(a)[0], [1, 3]) and eq(d, [-1, 3, -1, 4]) and eq(b, [2, 0, 1]) and eq(c, [8, 0, -1, 1]) and eq(a.nonzero()[0], [1, 3]) and eq(np.argwhere(a), [[1], [3]]) and eq(np.logical_and(a > 0, a < 4), [0, 1, 0, 0]) and eq(np.logical_not(a), [1, 0, 1, 0]) and eq(np.clip(a, 1, 3), [1, 3, 1, 3]) and eq(np.select([a > 3, a > 0], [1, 2], 0), [0, 2, 0, 1]) and eq((a > 0) & (a < 4) | (a == 0), [1, 1, 1, 0]) and eq(np.choose(A(0, 1), [A(1, 2), A(3, 4)]), [1, 4]) and eq(np.piecewise(A(1.0, -1.0), [A(True, False)], [2.0, 3.0]), [2.0, 3.0])
def n_ravel(): return eq(np.ravel_multi_index((A(1, 0), A(2, 1)), (2, 3)), [5, 1]) and np.unravel_index(5, (2, 3)) == (1, 2) and eq(np.unravel_index(A(5, 1), (2, 3), order="F")[0], [1, 1]) and eq(np.meshgrid(A(1, 2), A(3, 4), indexing="ij")[0], [[1, 1], [2, 2]]) and eq(np.meshgrid(A(1, 2), A(3, 4))[1], [[3, 3], [4, 4]]) and eq(np.indices((2, 2))[0], [[0, 0], [1, 1]]) and eq(np.ravel_multi_index((1, 2), (2, 3), order="F"), 5) and [i for i in np.ndindex(2, 1)] == [(0, 0), (1, 0)] and [(i, int(x)) for i, x in np.ndenumerate(A(4, 5))] == [((0,), 4), ((1,), 5)]
def n_dt(): return A(1, 2).astype(np.float64).dtype == np.float64 and np.issubdtype(np.int32, np.integer) and np.int32(3) + 1 == 4 and np.dtype("f8") == np.float64 and np.dtype(np.float64).itemsize == 8 and np.iinfo(np.int32).max == 2147483647 and np.array([1.5]).view(np.int64).shape == (1,) and A(1).item() == 1 and A(1, 2).tolist() == [1, 2] and np.float64(1.5).item() == 1.5 and np.result_type(np.int32, np.float64) == np.float64 and A(1, 2).nbytes == 16 and np.finfo(np.float64).eps < 1e-15 and isinstance(A(1), np.ndarray) and np.isscalar(3) and np.prod(()) == 1 and np.isclose(1.0, 1.0 + 1e-12) and np.allclose(A(1.0), A(1.0)) and np.array_equal(A(1), A(1)) and np.shape([[1, 2]]) == (1, 2) and A(1, 2).base is None and np.ndim(A(1)) == 1 and np.size([1, 2]) == 2
def n_math(): return eq(np.abs(A(-1)), [1]) and eq(np.sqrt(A(4.0)), [2]) and eq(A(7) // 2, [3]) and eq(A(7) % 4, [3]) and eq(-A(1), [-1]) and eq(A(2) ** 2, [4]) and eq(np.sign(A(-2)), [-1]) and eq(np.floor(A(1.5)), [1]) and eq(np.mod(A(5), 3), [2]) and eq(np.multiply(A(2), 3), [6]) and eq(np.divmod(A(7), 2)[0], [3]) and eq(np.power(2, A(0, 1)), [1, 2]) and eq(np.left_shift(1, A(2)), [4]) and eq(np.rint(A(1.6)), [2]) and eq(np.square(A(3)), [9]) and eq(A(1) << 2, [4]) and eq(A(5) & 1, [1]) and eq(np.floor_divide(A(7), 2), [3]) and eq(np.subtract(A(3), A(1)), [2]) and eq(np.negative(A(1)), [-1]) and eq(np.hypot(A(3.0), A(4.0)), [5.0])
def n_loop():
    a = np.zeros((2, 2), dtype=np.int64)
    for i, row in enumerate(a):
        row[:] = i
    for j in range(a.shape[1]):
        a[:, j] += j
    b = a.view()
    b[0, 0] = 9
    v = np.vectorize(lambda x: x + 1)(A(1, 2))
    ap = np.apply_along_axis(np.sum, 1, a)
    out = np.empty(2)
    np.add(A(1, 2), 1, out=out)
    np.copyto(b[1], [5, 6])
    it = [int(x) for x in a.flat]
    return eq(a, [[9, 1], [5, 6]]) and eq(v, [2, 3]) and eq(ap, [10, 3]) and eq(out, [2, 3]) and it == [9, 1, 5, 6]
