"""Imports the Python package of the working tree with stand-ins for the packages that are not installed."""
import importlib.abc, importlib.machinery, os, sys, types
from unittest.mock import MagicMock

NAMES = ("dolfinx", "ffcx", "ufl", "mpi4py", "petsc4py", "pyvista", "cffi", "basix", "qugar.cpp", "qugar._version")


class Meta(__import__("abc").ABCMeta):
    def __getattr__(cls, n):
        if n.startswith("__"):
            raise AttributeError(n)
        v = MagicMock(name=cls.__name__ + "." + n)
        setattr(cls, n, v)
        return v

    def __or__(cls, o):
        return object

    __ror__ = __or__

    def __getitem__(cls, k):
        return cls


def _cls(name):
    return Meta(name, (), {"__init__": lambda self, *a, **k: None})


class Mod(types.ModuleType):
    __path__ = []

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        full = self.__name__ + "." + n
        if full in sys.modules:
            v = sys.modules[full]
        elif n[0].isupper() and not n.isupper():
            v = _cls(n)
        else:
            v = MagicMock(name=full)
        setattr(self, n, v)
        return v


class Finder(importlib.abc.MetaPathFinder, importlib.abc.Loader):
    def find_spec(self, name, path=None, target=None):
        if any(name == n or name.startswith(n + ".") for n in NAMES):
            return importlib.machinery.ModuleSpec(name, self, is_package=True)

    def create_module(self, spec):
        m = Mod(spec.name)
        m.__version__ = {"dolfinx": "0.10.0", "dolfinx.cpp": "0.10.0", "ffcx": "0.10.0", "ufl": "2025.2.0", "basix": "0.10.0"}.get(spec.name, "0.10.0")
        return m

    def exec_module(self, m):
        if m.__name__ == "dolfinx.jit":
            m.mpi_jit_decorator = lambda f: f


sys.meta_path.insert(0, Finder())
sys.path.insert(0, os.path.join(os.getcwd(), "python"))
