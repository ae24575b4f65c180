"""Differential test of the library models of qv/pynp.py against numpy/python (development only; analyses nothing)."""
import sys, ast
sys.path.insert(0, "/verif")
import numpy as np
import itertools, math, re
from qv.pyeval import *
from qv import pynp

EX = r'''
np.arange(6).reshape(2,3)
np.arange(6).reshape(2,3).T.ravel()
np.arange(2,10,3)
np.arange(6)[::-1]
np.arange(12).reshape(3,4)[1:,::2]
np.arange(12).reshape(3,4)[[0,2],[1,3]]
np.arange(12).reshape(3,4)[[0,2]]
np.arange(12).reshape(3,4)[:, [1,3]]
np.arange(12).reshape(3,4)[np.array([True,False,True])]
np.arange(12).reshape(3,4)[..., -1]
np.arange(12).reshape(3,4)[:, None, :].shape
np.arange(5)[np.array([0,1,1])]
np.zeros((2,0)).shape
np.ones(3, dtype=np.int32).dtype
np.full((2,2), 7)
np.full_like(np.array([1,2],dtype=np.int64), 5).dtype
np.eye(3)[1]
np.linspace(0,1,5)
np.hstack([np.array([1,2]),np.array([3])])
np.vstack(([1,2],[3,4]))
np.vstack(([1,2],[3,4])).T.ravel()
np.concatenate([np.array([[1,2]]),np.array([[3,4]])], axis=1)
np.concatenate((np.array([1,2],dtype=np.int32), np.array([3],dtype=np.int32))).dtype
np.stack([np.array([1,2]),np.array([3,4])], axis=-1)
np.append(np.array([1,2]), [3])
np.append(np.empty(0,dtype=np.int32), np.array([1],dtype=np.int32)).dtype
np.append(np.empty(0,dtype=np.int32), np.array([1],dtype=np.int64)).dtype
np.tile(np.array([1,2]), 3)
np.tile(np.array([1,2]), (2,2))
np.repeat(np.array([1,2]), 3)
np.repeat(np.array([1,2,3]), np.array([1,0,2]))
np.repeat(np.array([[1,2],[3,4]]), 2, axis=0)
np.sum(np.arange(6).reshape(2,3), axis=0)
np.prod(np.array([2,3,4]))
np.prod(np.array([2,3,4])[:2])
np.max(np.array([[1,5],[7,2]]), axis=1)
np.min(np.array([[1,5],[7,2]]))
np.all(np.array([1,1,0]) > 0)
np.any(np.array([1,1,0]) > 0)
np.where(np.array([1,5,1]) == 1)[0]
np.where(np.array([1,5,1]) == 1, 10, 20)
np.unique(np.array([3,1,3,2]))
np.unique(np.array([[3,1],[3,1],[2,2]]), axis=0)
np.unique(np.array([3,1,3,2]), return_inverse=True)[1]
np.unique(np.array([3,1,3,2]), return_counts=True)[1]
np.unique(np.array([3,1,3,2]), return_index=True)[1]
np.sort(np.array([3,1,2]))
np.argsort(np.array([3,1,2]))
np.isin(np.array([1,2,3]), np.array([2,5]))
np.intersect1d(np.array([1,2,3]), np.array([2,5,3]))
np.setdiff1d(np.array([4,1,2,3]), np.array([2,5]))
np.setdiff1d(np.array([4,1,2,3]), np.array([2,5]), assume_unique=True)
np.union1d(np.array([4,1]), np.array([2,1]))
np.searchsorted(np.array([1,3,5]), np.array([0,3,6]))
np.searchsorted(np.array([1,3,5]), np.array([0,3,6]), side="right")
np.take(np.array([5,6,7]), np.array([0,2,9]), mode="clip")
np.cumsum(np.array([1,2,3]))
np.diff(np.array([1,4,9]))
np.dot(np.array([1,2]), np.array([3,4]))
np.outer(np.array([1,2]), np.array([3,4]))
np.array([[1,2],[3,4]]) @ np.array([5,6])
np.cross(np.array([1.,0,0]), np.array([0,1.,0]))
np.linalg.norm(np.array([3.,4.]))
np.linalg.norm(np.array([[3.,4.],[6.,8.]]), axis=1)
np.meshgrid(np.array([1,2]), np.array([3,4,5]), indexing="xy")[0]
np.meshgrid(np.array([1,2]), np.array([3,4,5]), indexing="ij")[1]
np.delete(np.array([1,2,3]), 1)
np.insert(np.array([1,2,3]), 1, 9)
np.insert(np.array([1,2,3]), 0, 0)
np.flip(np.array([1,2,3]))
np.roll(np.array([1,2,3]), 1)
np.add.accumulate(np.array([1,2,3]))
np.array([1,2,3]).astype(np.float64).dtype
np.array([1.7,-1.7]).astype(np.int32)
np.array(5)
np.array([1,2], dtype=np.float32).dtype.type(3)
np.array([1.0,2.0]) / 2
np.array([7,8]) // 2
np.array([7,-8]) % 3
np.array([1,2]) ** 2
-np.array([1,2])
np.array([1,2]) == np.array([1,3])
(np.array([1,2]) < 2) & (np.array([1,2]) > 0)
np.array([1,2,3]).size
np.array([[1,2,3]]).shape[1]
np.array([[1,2],[3,4]]).tolist()
np.array([1,2,3]).max()
np.array([[1,2],[3,4]]).sum(axis=1)
np.array([[1,2],[3,4]]).flatten()
np.array([[1,2],[3,4]]).transpose()
np.array([1,2,3]).nonzero()[0]
np.isclose(1.0, 1.0+1e-12)
np.allclose(np.array([1.0]), np.array([1.0]))
np.array_equal(np.array([1,2]), np.array([1,2]))
np.unravel_index(7, (2,5))
np.ravel_multi_index((1,2), (2,5))
np.argmax(np.array([1,9,3]))
np.argmin(np.array([4,1,3]))
np.split(np.arange(6), 3)[1]
np.split(np.arange(6), [1,3])[1]
np.array_split(np.arange(5), 2)[0]
np.atleast_2d(np.array([1,2])).shape
np.squeeze(np.zeros((1,3,1))).shape
np.expand_dims(np.zeros(3),1).shape
np.swapaxes(np.arange(6).reshape(1,2,3),0,2).shape
np.moveaxis(np.arange(6).reshape(1,2,3),0,-1).shape
np.column_stack([np.array([1,2]),np.array([3,4])])
np.zeros(3, dtype=np.complex128).dtype
np.dtype(np.float64).itemsize
np.dtype(np.complex64).itemsize
np.int64(7) // 2
np.float32(1)/np.float32(4)
np.maximum(np.array([1,5]), 3)
np.minimum(np.array([1,5]), np.array([0,9]))
np.clip(np.array([1,5,9]), 2, 6)
np.einsum("ij,j->i", np.array([[1,2],[3,4]]), np.array([1,1]))
np.empty_like(np.array([1,2],dtype=np.int32)).dtype
np.ascontiguousarray(np.array([[1,2],[3,4]]).T).ravel()
np.arange(5).reshape(-1,1) + np.arange(3)
np.ix_(np.array([0,1]), np.array([1]))[0].shape
np.lexsort((np.array([1,2,1]), np.array([1,1,0])))
np.bincount(np.array([0,1,1,3]))
np.nonzero(np.array([0,3,0,1]))[0]
np.flatnonzero(np.array([0,3,0,1]))
np.count_nonzero(np.array([0,3,0,1]))
np.ma.array(np.array([1,2,3]), mask=np.array([True,False,True])).filled(-1)
np.array([1,2,3])[np.array([1,2,3]) > 1]
np.array([3,1,2])[np.argsort(np.array([3,1,2]))]
np.dtype("float64") == np.float64
np.iscomplexobj(np.array([1j]))
np.issubdtype(np.float32, np.floating)
np.issubdtype(np.complex64, np.complexfloating)
np.array([1.0]).dtype.kind
np.array([1.0]).nbytes
np.array([1,2]).itemsize
np.zeros(2, dtype=np.float64).view(np.int64)
np.arange(6).reshape(2,3)[1]
np.arange(6).reshape(2,3)[:,1]
np.arange(6).reshape((2,-1)).shape
np.mean(np.array([[1.,2.],[3.,4.]]), axis=0)
np.abs(np.array([-1,2]))
np.sqrt(np.array([4.0]))
np.floor(np.array([1.5]))
np.transpose(np.arange(6).reshape(1,2,3), (2,0,1)).shape
np.array([[1,2],[3,4]])[::-1, :]
np.fromiter((i*i for i in range(4)), dtype=np.int64)
np.array([x for x in range(3)])
np.kron(np.array([1,2]), np.array([1,1]))
np.triu(np.ones((2,2)))
np.diag(np.array([1,2]))
np.r_[1,2,3]
np.arange(3).repeat(2)
np.arange(4).reshape(2,2).sum()
np.arange(4).reshape(2,2).prod(axis=0)
np.arange(4).cumsum()
np.arange(4).copy()
np.arange(4).min()
np.arange(4).any()
np.arange(4).argsort()
np.arange(4).item(2)
len(np.arange(4).reshape(2,2))
[int(x) for x in np.arange(3)]
list(zip(np.array([1,2]), np.array([3,4])))
sorted([3,1,2], key=lambda x: -x)
sorted({"b":1,"a":2}.items())
", ".join(str(i) for i in range(3))
"{:>5}|{:<4}|{:03d}".format("a","b",7)
f"{3.14159:.2f} {5:>3} {'x'!r}"
re.sub(r"(\w+)\[(\d+)\]", r"\2_\1", "abc[12]")
re.findall(r"\d+", "a1b22")
re.match(r"(\d+)\.(\d+)", "10.2x").groups()
re.search(r"b(?P<n>\d)", "ab7").group("n")
[m.start() for m in re.finditer("a", "banana")]
re.split(r"[,;]", "a,b;c")
"a.b.c".split(".", 1)
"abc".partition("b")
"abcabc".replace("b", "X", 1)
"abc".startswith(("x","a"))
"  a b ".strip()
"a\nb\n".splitlines()
"abc".find("z")
"abc".rfind("c")
"Ab".lower()
"abc"[::-1]
max([1,5,2]), min(3,2)
sum([1,2,3], 10)
all([1,0]), any([0,1])
list(enumerate("ab", 1))
list(map(lambda x: x+1, [1,2]))
list(filter(None, [0,1,2]))
list(reversed([1,2,3]))
list(itertools.product([0,1], repeat=2))
list(itertools.chain([1],[2,3]))
math.ceil(7/2), math.floor(7/2), math.prod([2,3])
divmod(17, 5)
abs(-3), pow(2,5), round(2.6)
set([1,2]) | {3}
{1,2} & {2}, {1,2} - {2}
dict(zip("ab", [1,2]))
{k: v for k, v in [("a",1)]}
{"a":1}.get("b", 7)
[1,2,3].index(2), [1,2,2].count(2)
(1,2)+(3,)
[1,2]*2
isinstance(3, int), isinstance("a", (int, str))
int("12"), float("1.5"), str(3), bool([])
tuple(x*2 for x in (1,2))
"x" if [] else "y"
[[i,j] for i in range(2) for j in range(2) if i!=j]
hex(255), bin(5), ord("a"), chr(98)
3 if 1 < 2 < 3 else 4
not [] and 5
1e3, 0x10, 1_000
7 // -2, -7 % 3
2**10, 5 & 3, 5 | 3, 5 ^ 1, 1 << 4
[*range(3), *[9]]
{**{"a":1}, "b":2}
'''


def norm(v):
    if isinstance(v, np.ndarray):
        return ("arr", v.shape, [norm(x) for x in v.ravel().tolist()])
    if isinstance(v, pynp.A):
        e = pynp.els(v)
        return ("arr", e.shape, [norm(x) for x in e.ravel().tolist()])
    if isinstance(v, (np.dtype,)):
        return ("dt", v.str)
    if isinstance(v, type) and issubclass(v, np.generic):
        return ("dt", np.dtype(v).str)
    if isinstance(v, pynp.DT):
        return ("dt", np.dtype(re.sub(r"dtype\((.*)\)", r"\1", repr(v))).str)
    if isinstance(v, np.generic):
        return norm(v.item())
    if isinstance(v, (list,)):
        return [norm(x) for x in v]
    if isinstance(v, tuple):
        return tuple(norm(x) for x in v)
    if isinstance(v, dict):
        return {k: norm(x) for k, x in v.items()}
    if isinstance(v, bool):
        return v
    if isinstance(v, (int, float)):
        return round(float(v), 10)
    return v


bad = und = n = 0
for ln in EX.strip().splitlines():
    want = norm(eval(ln))
    n += 1
    it = Interp()
    m = Module("t", "t")
    m.ready = True
    fr = Frame(None, m)
    fr.v = m.g
    for nm in ("numpy", "itertools", "math", "re"):
        m.g[{"numpy": "np"}.get(nm, nm)] = it.imp(nm)
    try:
        got = norm(it.ev(ast.parse(ln, mode="eval").body, fr))
    except Undecided as e:
        und += 1
        print("UND ", ln, "--", e)
        continue
    except Exception as e:
        bad += 1
        print("EXC ", ln, "--", type(e).__name__, e)
        continue
    if isinstance(got, (U,)):
        und += 1
        print("OPQ ", ln, "--", got)
    elif repr(got) != repr(want):
        bad += 1
        print("BAD ", ln, "--", got, "|", want)
print(n, "expressions", bad, "wrong", und, "undecided")
