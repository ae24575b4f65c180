"""Models of pathlib.Path and temporary files over an abstract file system (never imported)."""


def _fs(op, *args):
    return None


class Path:
    def __init__(self, *parts):
        p = ""
        for x in parts:
            x = str(x)
            p = x if not p or x.startswith("/") else p.rstrip("/") + "/" + x
        self.p = p

    def __str__(self):
        return self.p

    def __fspath__(self):
        return self.p

    def __truediv__(self, o):
        return Path(self.p, o)

    def joinpath(self, *o):
        return Path(self.p, *o)

    def resolve(self):
        return self

    def absolute(self):
        return self

    def expanduser(self):
        return self

    def as_posix(self):
        return self.p

    @property
    def parent(self):
        return Path(self.p.rsplit("/", 1)[0])

    @property
    def name(self):
        return self.p.rsplit("/", 1)[1]

    @property
    def suffix(self):
        n = self.name
        return "." + n.rsplit(".", 1)[1] if "." in n[1:] else ""

    @property
    def stem(self):
        n = self.name
        return n.rsplit(".", 1)[0] if "." in n[1:] else n

    def with_name(self, n):
        return self.parent / n

    def with_suffix(self, s):
        return self.parent / (self.stem + s)

    @staticmethod
    def home():
        return Path("/home/user")

    @staticmethod
    def cwd():
        return Path("/cwd")

    def exists(self):
        return _fs("exists", self.p)

    def is_file(self):
        return _fs("exists", self.p)

    def is_dir(self):
        return _fs("exists", self.p)

    def stat(self):
        return _fs("stat", self.p)

    def mkdir(self, mode=511, parents=False, exist_ok=False):
        return _fs("mkdir", self.p)

    def glob(self, pat):
        return []

    def unlink(self, missing_ok=False):
        return _fs("unlink", self.p, missing_ok)

    def replace(self, o):
        return _fs("replace", self.p, str(o))

    def rename(self, o):
        return _fs("replace", self.p, str(o))

    def touch(self, exist_ok=True):
        return _fs("touch", self.p)

    def open(self, mode="r"):
        return _fs("open", self.p, mode)

    def write_bytes(self, b):
        return _fs("write", self.p)

    def write_text(self, b):
        return _fs("write", self.p)


class TemporaryDirectory:
    def __init__(self, suffix=None, prefix=None, dir=None):
        self.name = _fs("mkdtemp", "/tmp" if dir is None else str(dir))

    def __enter__(self):
        return self.name

    def __exit__(self, *a):
        _fs("rmtree", self.name)
        return False

    def cleanup(self):
        _fs("rmtree", self.name)
