"""stand-ins for h5py and torch files in symbolic mode: what is stored is what is read back, values stay symbolic"""
import types
import numpy as np
from . import pyshim
from .sym import R

STORE = {}


class DS:
    def __init__(self, v):
        self.v = v

    def __getitem__(self, k):
        v = self.v
        if isinstance(k, tuple) and k == ():
            return v.copy() if isinstance(v, np.ndarray) else v
        return v if k is Ellipsis and not isinstance(v, np.ndarray) else v[k]

    def __array__(self, dtype=None):
        return np.asarray(self.v, dtype=dtype)

    def asstr(self):
        return self

    @property
    def shape(self):
        return np.shape(self.v)

    @property
    def value(self):
        return self.v

    def __len__(self):
        return len(self.v)


class File:
    def __init__(self, name, mode="r", **k):
        self.name, self.mode = str(name), mode
        if mode in ("w", "x", "w-"):
            STORE[self.name] = {}
            open(self.name, "w").close()
        elif mode in ("a", "r+"):
            STORE.setdefault(self.name, {})
        elif self.name not in STORE:
            raise FileNotFoundError(self.name)
        self.d = STORE[self.name]
        self.open = True

    def create_dataset(self, name, shape=None, dtype=None, data=None, **k):
        if self.mode == "r":
            raise ValueError("Unable to create dataset (no write intent on file)")
        if name in self.d:
            raise ValueError("Unable to create dataset (name already exists)")
        if isinstance(data, (list, tuple)):
            data = pyshim.NPX.array(data)
        elif isinstance(data, np.ndarray):
            data = data.copy()
        if dtype is not None and isinstance(data, np.ndarray):
            data = data.astype(dtype)
        self.d[name] = DS(data)
        return self.d[name]

    def __setitem__(self, k, v):
        self.create_dataset(k, data=v)

    def __getitem__(self, k):
        assert self.open
        return self.d[k]

    def __contains__(self, k):
        return k in self.d

    def __iter__(self):
        return iter(sorted(self.d))

    def keys(self):
        return sorted(self.d)

    def values(self):
        return [self.d[k] for k in sorted(self.d)]

    def items(self):
        return [(k, self.d[k]) for k in sorted(self.d)]

    def get(self, k, default=None):
        return self.d.get(k, default)

    def close(self):
        self.open = False

    flush = lambda self: None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


H5 = types.SimpleNamespace(File=File)


class Tensor:
    """read-only view of an array with the methods the sources use"""

    def __init__(self, a):
        self.a = a

    def numpy(self): return self.a
    def detach(self): return self
    def cpu(self): return self
    def clone(self): return Tensor(self.a.copy())
    def double(self): return self
    def to(self, *a, **k): return self
    def size(self, i=None): return tuple(self.a.shape) if i is None else self.a.shape[i]
    def dim(self): return self.a.ndim
    def numel(self): return self.a.size
    def requires_grad_(self, *a): return self
    def __len__(self): return len(self.a)
    def __getitem__(self, k): return Tensor(self.a[k])
    def tolist(self): return self.a.tolist()

    @property
    def shape(self): return tuple(self.a.shape)


TFILES = {}


class Torch:
    Tensor = Tensor

    @staticmethod
    def load(f, *a, **k):
        o = TFILES[str(f)]
        if getattr(o, "whole_model", False) and k.get("weights_only", True) is not False:
            raise RuntimeError("Weights only load failed")              # as torch since 2.6
        return o

    @staticmethod
    def device(x):
        return x

    @staticmethod
    def from_numpy(a):
        return Tensor(a)

    class cuda:
        @staticmethod
        def is_available():
            return False


def reset():
    STORE.clear()
    TFILES.clear()


class Pandas(types.ModuleType):
    """pandas itself, except that text tables with symbolic numbers are read into object columns"""

    def __getattr__(self, k):
        import pandas
        return getattr(pandas, k)

    def read_csv(self, src, *a, **k):
        import io, pandas
        text = open(src).read() if isinstance(src, str) or hasattr(src, "__fspath__") else src.read()
        if "@" not in text:
            return pandas.read_csv(io.StringIO(text), *a, **k)
        df = pandas.read_csv(io.StringIO(text), *a, dtype=str, **{x: v for x, v in k.items() if x != "dtype"})
        cols = {}
        for i, c in enumerate(df.columns):
            v = [pyshim.parse(str(x)) if x == x else float("nan") for x in df.iloc[:, i]]
            col = np.empty(len(v), dtype=object)
            col[:] = v
            cols[i] = pandas.Series(col, index=df.index, dtype=object)
        out = pandas.DataFrame(cols)
        out.columns = df.columns
        return out

    read_table = read_csv


PANDAS = Pandas("pandas")
