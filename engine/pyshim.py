"""Lets the unmodified Python sources of /repo (and the parts of pymatgen they drive) run on symbolic reals:
   the numpy name in their module globals is replaced by a proxy whose float arrays hold engine values, `float`
   understands printed symbolic values, and files carry tokens for symbolic numbers.  `%` on strings
   formats symbolic values.  Nothing of this is active when a counterexample is replayed."""
import ast, builtins, importlib, importlib.machinery, math, os, re, sys, types
from fractions import Fraction
import numpy as np
from . import sym as S
from .sym import R, ENG, SymBool, Unsupported, Event

REPO = os.environ.get("VERIF_REPO", "/repo")
TOKEN = re.compile(r"@(\d+)@")
NUM = (int, float, Fraction, np.floating, np.integer, np.bool_, bool)


def is_sym(x):
    return isinstance(x, R)


def has_sym(o, depth=0):
    if isinstance(o, R):
        return True
    if isinstance(o, np.ndarray):
        return o.dtype == object and any(isinstance(v, R) for v in o.flat)
    if isinstance(o, (list, tuple)) and depth < 6:
        return any(has_sym(v, depth + 1) for v in o)
    return False


def has_token(o, depth=0):
    if isinstance(o, str):
        return "@" in o
    if isinstance(o, np.ndarray):
        return o.dtype.kind in "OU" and any(has_token(v) for v in o.flat)
    if isinstance(o, (list, tuple)) and depth < 6:
        return any(has_token(v, depth + 1) for v in o)
    return False


def lift(x):
    if isinstance(x, R):
        return x
    if isinstance(x, str):
        return parse(x)
    if x is None:
        return x
    if isinstance(x, float) and (x != x or math.isinf(x)):
        return S.Ext(float(x))
    return R.const(x)


def is_float_dtype(dt):
    if dt is None:
        return False
    if dt is symfloat:
        return True
    try:
        return np.dtype(dt).kind == "f"
    except TypeError:
        return False


class SArr(np.ndarray):
    """object array of symbolic reals (or of text carrying them)"""

    def __array_finalize__(self, obj):
        pass

    def astype(self, dtype, *a, **k):
        if is_float_dtype(dtype):
            return sarr(elem(lift, self))
        if dtype is object or dtype == np.dtype(object):
            return self.copy()
        kind = np.dtype(dtype if dtype is not symfloat else float).kind
        if kind in "iu":
            return np.array([int(v) for v in self.flat], dtype=dtype).reshape(self.shape)
        if kind == "b":
            return np.array([bool(v) for v in self.flat], dtype=bool).reshape(self.shape)
        if kind == "U":
            return sarr(elem(str, self))
        return np.ndarray.astype(self, dtype, *a, **k)

    def round(self, decimals=0, out=None):
        return NPX.round(self, decimals)

    def std(self, axis=None, dtype=None, out=None, ddof=0, **k):
        return NPX.std(self, axis=axis, ddof=ddof, out=out, **k)

    def var(self, axis=None, dtype=None, out=None, ddof=0, **k):
        return NPX.var(self, axis=axis, ddof=ddof, out=out, **k)

    def mean(self, axis=None, dtype=None, out=None, **k):
        return NPX.mean(self, axis=axis, out=out, **k)

    def sum(self, axis=None, dtype=None, out=None, **k):
        return NPX.sum(self, axis=axis, out=out, **k)

    def all(self, axis=None, **k):
        return tobool(self).all(axis=axis, **k)

    def any(self, axis=None, **k):
        return tobool(self).any(axis=axis, **k)

    def tofile(self, *a, **k):
        raise Unsupported("tofile")

    @property
    def real(self):
        return self

    def conj(self):
        return self
    conjugate = conj

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        ins = [np.asarray(x) if isinstance(x, SArr) else x for x in inputs]
        name = ufunc.__name__
        w = kw.pop("where", True)
        if w is not True and method != "__call__":
            kw["where"] = tobool(w) if isinstance(w, np.ndarray) else w
        elif w is not True:
            if out is None or len(out) != 1 or ufunc.nout != 1:
                raise Unsupported("ufunc with where and no output array")
            o = out[0]
            w = np.broadcast_to(tobool(np.asarray(w)), o.shape)
            bs = [np.broadcast_to(obj0(x) if isinstance(x, R) else np.asarray(x), o.shape)[w] for x in ins]
            r = ufunc(*[b.astype(object).view(SArr) for b in bs], **kw)
            if o.dtype != object and has_sym(r):
                raise Unsupported("symbolic values into a machine array")
            o[w] = r
            return o
        if method == "__call__" and name in UNARY:
            r = elem(UNARY[name], np.asarray(ins[0], dtype=object))
            if name in BOOLRES:
                return np.array([bool(v) for v in np.asarray(r, dtype=object).flat], dtype=bool).reshape(np.shape(r))
            return fin(r, out)
        if method == "__call__" and name == "matmul":
            return fin(np.dot(*ins) if np.ndim(ins[0]) <= 2 and np.ndim(ins[1]) <= 2 else matmul(*ins), out)
        if method == "__call__" and name in ("arctan2", "hypot", "power", "float_power"):
            f = {"hypot": lambda a, b: (lift(a) * a + lift(b) * b).sqrt(),
                 "power": lambda a, b: lift(a) ** b, "float_power": lambda a, b: lift(a) ** b}.get(name)
            if f is None:
                raise Unsupported(name)
            return fin(np.frompyfunc(f, 2, 1)(*[np.asarray(x, dtype=object) for x in ins]), out)
        if method == "__call__" and name in ("logical_and", "logical_or", "logical_not", "logical_xor"):
            return getattr(np, name)(*[tobool(x) if isinstance(x, np.ndarray) else bool(x) for x in ins])
        if method == "__call__" and name in ("true_divide", "divide"):
            r = np.frompyfunc(lambda a, b: S.div(lift(a), lift(b)), 2, 1)(
                *[np.asarray(x, dtype=object) if not isinstance(x, R) else obj0(x) for x in ins])
            return fin(r, out)
        ins = [obj0(x) if isinstance(x, R) else x for x in ins]
        kw.pop("casting", None)
        if kw.get("dtype") is not None and is_float_dtype(kw["dtype"]):
            kw["dtype"] = object
        if out is not None:
            outs = tuple(np.asarray(o) if isinstance(o, SArr) else o for o in out)
            getattr(ufunc, method)(*ins, out=outs, **kw)
            return out[0]
        r = getattr(ufunc, method)(*ins, **kw)
        return fin(r, None)

    def __array_function__(self, func, types_, args, kwargs):
        o = OVER.get(func)
        if o is not None:
            if func in _IN:
                # the proxy itself falls back on numpy: plain object arrays
                r = func(*strip(args), **{k: strip(v) for k, v in kwargs.items()})
                return fin(r, None) if isinstance(r, np.ndarray) else r
            _IN.append(func)
            try:
                return o(*args, **kwargs)
            finally:
                _IN.pop()
        r = super().__array_function__(func, [t for t in types_ if not issubclass(t, SArr)] + [np.ndarray], args, kwargs)
        return r


_IN = []


def strip(x):
    if isinstance(x, SArr):
        return np.asarray(x)
    if isinstance(x, (list, tuple)):
        return type(x)(strip(v) for v in x)
    return x


def obj0(x):
    a = np.empty((), dtype=object)
    a[()] = x
    return a


def fin(r, out):
    if out is not None:
        out[0][...] = r
        return out[0]
    if isinstance(r, np.ndarray) and r.dtype == object:
        if r.ndim == 0:
            return r[()]
        return r.view(SArr)
    return r


def only(k, **more):
    """keyword arguments the proxy does not model are refused, never ignored"""
    for q, v in list(k.items()) + list(more.items()):
        if v is not None and v is not np._NoValue:
            raise Unsupported("keyword argument %s" % q)


def matmul(a, b):
    """numpy's matmul rules on object arrays"""
    a, b = np.asarray(a), np.asarray(b)
    if a.ndim == 1 and b.ndim == 1:
        return np.dot(a, b)
    a1, b1 = a.ndim == 1, b.ndim == 1
    if a1:
        a = a[None]
    if b1:
        b = b[:, None]
    sh = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
    A, B = np.broadcast_to(a, sh + a.shape[-2:]), np.broadcast_to(b, sh + b.shape[-2:])
    out = np.empty(sh + (a.shape[-2], b.shape[-1]), dtype=object)
    for ix in np.ndindex(*sh):
        out[ix] = np.dot(A[ix], B[ix])
    if a1:
        out = out[..., 0, :]
    if b1:
        out = out[..., 0]
    return out


def elem(f, a):
    a = np.asarray(a, dtype=object)
    out = np.empty(a.shape, dtype=object)
    for i, v in enumerate(a.flat):
        out.flat[i] = f(v)
    return out if a.ndim else out[()]


def tobool(a):
    a = np.asarray(a)
    if a.dtype != object:
        return a
    return np.array([bool(v) for v in a.flat], dtype=bool).reshape(a.shape)


def sarr(o):
    if isinstance(o, SArr):
        return o
    a = np.asarray(o, dtype=object) if not isinstance(o, np.ndarray) else o
    if a.dtype != object:
        a = elem(lift, a) if a.dtype.kind in "fiub" else a.astype(object)
    return np.asarray(a, dtype=object).view(SArr)


def _sign(x):
    x = lift(x)
    return 1 if x > 0 else (-1 if x < 0 else 0)


UNARY = {"sqrt": lambda x: lift(x).sqrt(), "square": lambda x: lift(x) * lift(x), "floor": lambda x: R.const(lift(x).floor()),
         "ceil": lambda x: R.const(lift(x).ceil()), "rint": lambda x: R.const(lift(x).rint()),
         "trunc": lambda x: R.const(lift(x).trunc()), "absolute": lambda x: abs(lift(x)), "fabs": lambda x: abs(lift(x)),
         "cos": lambda x: lift(x).cos(), "sin": lambda x: lift(x).sin(), "exp": lambda x: lift(x).exp(),
         "log": lambda x: lift(x).log(), "tanh": lambda x: lift(x).tanh(), "arccos": lambda x: lift(x).arccos(),
         "arcsin": lambda x: lift(x).arcsin(), "isnan": lambda x: isinstance(x, S.Ext) and x.v != x.v, "isfinite": lambda x: not isinstance(x, S.Ext),
         "isinf": lambda x: isinstance(x, S.Ext) and x.v == x.v, "sign": lambda x: R.const(_sign(x)), "reciprocal": lambda x: S.div(1, lift(x)),
         "degrees": lambda x: lift(x).degrees(), "rad2deg": lambda x: lift(x).degrees(),
         "radians": lambda x: lift(x).radians(), "deg2rad": lambda x: lift(x).radians(),
         "conjugate": lambda x: x, "signbit": lambda x: lift(x) < 0}
BOOLRES = {"isnan", "isfinite", "isinf", "signbit"}
PI = R.const(math.pi)


# ------------------------------------------------------------------------------ overridden functions
OVER = {}


class _NPX(types.ModuleType):
    """numpy for the code under test"""

    def __getattr__(self, name):
        return getattr(np, name)

    # creation -----------------------------------------------------------------
    def array(self, o, dtype=None, *a, **k):
        k.pop("copy", None)
        if has_sym(o) or has_token(o):
            nd = k.pop("ndmin", 0)
            if isinstance(o, np.ndarray):
                r = np.array(o, dtype=object)
            else:
                r = build(o)
            if dtype is not None and not (dtype is object):
                r = r.view(SArr).astype(dtype)
                while r.ndim < nd:
                    r = r[None]
                return r
            while r.ndim < nd:
                r = r[None]
            if not has_sym(r):
                return r.view(SArr)
            return r.view(SArr)
        if dtype is symfloat:
            dtype = float
        if isinstance(o, SArr) and dtype is None:
            return o.copy()
        if isinstance(o, np.ndarray) and o.dtype == object and is_float_dtype(dtype):
            return sarr(elem(lift, o))
        if is_float_dtype(dtype) and isinstance(o, (list, tuple, map, range)) and not isinstance(o, np.ndarray):
            r = np.array(list(o) if isinstance(o, (map, range)) else o, dtype=dtype, *a, **k)
            return r
        return np.array(o, dtype, *a, **k)

    def asarray(self, o, dtype=None, **k):
        if isinstance(o, SArr) and (dtype is None or is_float_dtype(dtype)):
            return o
        if has_sym(o) or has_token(o):
            return self.array(o, dtype)
        return np.asarray(o, float if dtype is symfloat else dtype, **k)

    asanyarray = ascontiguousarray = asfarray = asarray

    def _mk(self, shape, val, dtype):
        if dtype is None or is_float_dtype(dtype):
            a = np.empty(shape, dtype=object)
            a.fill(R.const(val))
            return a.view(SArr)
        return None

    def zeros(self, shape, dtype=None, *a, **k):
        r = self._mk(shape, 0, dtype)
        return np.zeros(shape, dtype, *a, **k) if r is None else r

    def ones(self, shape, dtype=None, *a, **k):
        r = self._mk(shape, 1, dtype)
        return np.ones(shape, dtype, *a, **k) if r is None else r

    def empty(self, shape, dtype=None, *a, **k):
        r = self._mk(shape, 0, dtype)
        return np.empty(shape, dtype, *a, **k) if r is None else r

    def full(self, shape, v, dtype=None, *a, **k):
        if (dtype is None and isinstance(v, (float, R, np.floating))) or is_float_dtype(dtype):
            if isinstance(v, (float, np.floating)) and (v != v or math.isinf(v)):
                v = S.Ext(float(v))
            a_ = np.empty(shape, dtype=object)
            a_.fill(lift(v))
            return a_.view(SArr)
        return np.full(shape, v, dtype, *a, **k)

    def zeros_like(self, o, dtype=None, *a, **k):
        o_ = np.asarray(o)
        if dtype is None and o_.dtype.kind in "iub":
            return np.zeros_like(o_)
        return self.zeros(o_.shape, dtype)

    def ones_like(self, o, dtype=None, *a, **k):
        o_ = np.asarray(o)
        if dtype is None and o_.dtype.kind in "iub":
            return np.ones_like(o_)
        return self.ones(o_.shape, dtype)

    def empty_like(self, o, dtype=None, *a, **k):
        return self.zeros_like(o, dtype)

    def full_like(self, o, v, dtype=None, *a, **k):
        o_ = np.asarray(o)
        return self.full(o_.shape, v, dtype)

    def eye(self, n, m=None, k=0, dtype=None, **kw):
        r = np.eye(n, m, k)
        if dtype is None or is_float_dtype(dtype):
            return sarr(elem(lift, r))
        return r.astype(dtype)

    def identity(self, n, dtype=None):
        return self.eye(n, dtype=dtype)

    def linspace(self, a, b, num=50, endpoint=True, **k):
        if not (has_sym(a) or has_sym(b)):
            return np.linspace(a, b, num, endpoint, **k)
        n = num - 1 if endpoint else num
        A, B = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
        return sarr(np.array([A + (B - A) * R.const(Fraction(i, n)) if n else A for i in range(num)], dtype=object))

    # elementwise helpers for scalars -----------------------------------------
    def _un(self, name, x, *a, **k):
        if isinstance(x, R):
            r = UNARY[name](x)
            return bool(r) if name in BOOLRES else r
        if has_sym(x):
            x = self.array(x)
        return getattr(np, name)(x, *a, **k)

    # reductions ---------------------------------------------------------------
    def round(self, x, decimals=0, out=None):
        if isinstance(x, R):
            return x.__round__(decimals) if decimals else R.const(x.rint())
        if has_sym(x):
            return sarr(elem(lambda v: R.const(Fraction((lift(v) * 10 ** decimals).rint(), 1)) / 10 ** decimals, x))
        return np.round(np.asarray(x, dtype=float) if isinstance(x, SArr) else x, decimals)
    around = round_ = round

    def mean(self, x, axis=None, dtype=None, out=None, keepdims=False, where=True, **k):
        only(k, out=out)
        a = sarr(self.array(x))
        w = np.broadcast_to(tobool(np.asarray(where)), a.shape)
        n = np.sum(w, axis=axis, keepdims=keepdims)
        return self.sum(a, axis=axis, keepdims=keepdims, where=where) / n

    def average(self, x, axis=None, weights=None, **k):
        if weights is None:
            return self.mean(x, axis=axis, **k)
        only(k)
        a, w = sarr(self.array(x)), sarr(self.array(weights))
        if w.ndim == 1 and a.ndim > 1:
            w = w.reshape([-1 if d == axis % a.ndim else 1 for d in range(a.ndim)]) + np.zeros(a.shape, dtype=int)
        return self.sum(a * w, axis=axis) / self.sum(w, axis=axis)

    def var(self, x, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        only(k, out=out)
        a = sarr(self.array(x))
        d = a - self.mean(a, axis=axis, keepdims=True)
        n = np.sum(np.ones(a.shape, dtype=int), axis=axis, keepdims=keepdims) - ddof
        return self.sum(d * d, axis=axis, keepdims=keepdims) / n

    def std(self, x, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        v = self.var(x, axis, None, out, ddof, keepdims, **k)
        return sarr(elem(lambda q: lift(q).sqrt(), v)) if isinstance(v, np.ndarray) else lift(v).sqrt()

    def allclose(self, a, b, rtol=1e-5, atol=1e-8, **k):
        return bool(np.all(self.isclose(a, b, rtol, atol)))

    def isclose(self, a, b, rtol=1e-5, atol=1e-8, **k):
        if not (has_sym(a) or has_sym(b)):
            f = lambda z: np.asarray(z, dtype=float) if isinstance(z, SArr) else z
            return np.isclose(f(a), f(b), rtol, atol)
        A, B = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
        out = np.empty(A.shape, dtype=bool)
        for i, (x, y) in enumerate(zip(A.flat, B.flat)):
            d = lift(x) - lift(y)
            tol = R.const(atol) + R.const(rtol) * abs(lift(y))
            out.flat[i] = bool(S.mkbool(S.f_and([S.b_of(d <= tol), S.b_of(-d <= tol)])))
        return out if out.ndim else bool(out)

    def any(self, a, axis=None, **k):
        return np.any(tobool(a), axis=axis, **k)

    def all(self, a, axis=None, **k):
        return np.all(tobool(a), axis=axis, **k)

    def where(self, c, *a):
        c = tobool(c)
        if not a:
            return np.where(c)
        if has_sym(a[0]) or has_sym(a[1]) or isinstance(a[0], SArr) or isinstance(a[1], SArr):
            r = np.where(c, *[obj0(v) if isinstance(v, R) else np.asarray(v, dtype=object) for v in a])
            return fin(r, None)
        return np.where(c, *a)

    def count_nonzero(self, a, axis=None, **k):
        return np.count_nonzero(tobool(a), axis=axis, **k)

    def nonzero(self, a):
        return np.nonzero(tobool(a))

    def flatnonzero(self, a):
        return np.flatnonzero(tobool(a))

    def argwhere(self, a):
        return np.argwhere(tobool(a))

    def sum(self, a, axis=None, dtype=None, out=None, keepdims=False, initial=0, where=True, **k):
        only(k)
        a = self.array(a) if not isinstance(a, np.ndarray) else a
        if a.dtype != object:
            return np.sum(a, axis=axis, dtype=dtype, out=out, keepdims=keepdims, initial=initial, where=where)
        only({}, out=out)
        if where is not True:
            a = np.where(tobool(np.asarray(where)), np.asarray(a), np.zeros((), dtype=object) + R.const(0))
        r = np.add.reduce(np.asarray(a), axis=tuple(range(a.ndim)) if axis is None else axis, keepdims=keepdims)
        if isinstance(r, np.ndarray):
            return fin(r + initial if is_sym(initial) or initial else r, None)
        return (r if isinstance(r, R) else lift(r)) + initial

    def cross(self, a, b, **k):
        a, b = sarr(self.array(a)), sarr(self.array(b))
        if a.ndim == 1 and b.ndim == 1 and len(a) == 3:
            return sarr(np.array([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]], dtype=object))
        return fin(np.cross(np.asarray(a), np.asarray(b), **k), None)

    def _plain(self, name, *args, **k):
        conv = [np.asarray(x) if isinstance(x, SArr) else ([np.asarray(y) if isinstance(y, SArr) else y for y in x]
                if isinstance(x, (list, tuple)) and builtins.any(isinstance(y, SArr) for y in x) else x) for x in args]
        return conv, k

    def dot(self, a, b, out=None):
        r = np.dot(np.asarray(self.array(a) if has_sym(a) else a), np.asarray(self.array(b) if has_sym(b) else b))
        return fin(r, None)

    def matmul(self, a, b, **k):
        if has_sym(a) or has_sym(b):
            return fin(matmul(np.asarray(self.array(a)), np.asarray(self.array(b))), None)
        return np.matmul(a, b)

    def hypot(self, a, b, **k):
        if has_sym(a) or has_sym(b):
            return self.sqrt(self.square(a) + self.square(b))
        return np.hypot(a, b, **k)

    def nansum(self, a, axis=None, **k):
        return self.sum(a, axis=axis, **k)

    def einsum(self, sub, *ops, **k):
        k.pop("optimize", None)
        only(k)
        return fin(np.einsum(sub, *[np.asarray(o, dtype=object) for o in ops]), None)

    def sort(self, a, axis=-1, kind=None, **k):
        a = self.array(a)
        if a.dtype != object:
            return np.sort(a, axis=axis, kind=kind)
        c = np.asarray(a).copy()
        if axis is None:
            c = c.ravel()
        c.sort(axis=axis if axis is not None else -1, kind="stable")
        return c.view(SArr)

    def argsort(self, a, axis=-1, kind=None, **k):
        a = self.array(a)
        if a.dtype != object:
            return np.argsort(a, axis=axis, kind=kind)
        a = np.asarray(a)
        if axis is None:
            a = a.ravel()
            axis = -1
        if a.ndim == 1:
            return np.array(sorted(range(len(a)), key=lambda i: K(a[i])), dtype=int)
        return np.argsort(a, axis=axis, kind="stable")

    def unique(self, a, **k):
        a = self.array(a)
        if a.dtype != object:
            return np.unique(a, **k)
        if k:
            if "axis" in k and k["axis"] is not None:
                raise Unsupported("np.unique with axis on symbolic data")
        return np.unique(np.asarray(a), **k)

    def linspace_(self):
        pass

    # text ---------------------------------------------------------------------
    def savetxt(self, fname, X, fmt="%.18e", delimiter=" ", newline="\n", header="", footer="", comments="# ", **k):
        a = self.array(X) if not isinstance(X, np.ndarray) else X
        if a.ndim == 1:
            a = a[:, None]
        fh = open(fname, "w") if isinstance(fname, (str, os.PathLike)) else fname
        try:
            if header:
                fh.write(comments + header.replace("\n", "\n" + comments) + newline)
            for row in a:
                if isinstance(fmt, (list, tuple)):
                    f = list(fmt)
                elif fmt.count("%") == len(row) and len(row) > 1:
                    f = re.findall(r"%[^%]*", fmt)
                    fh.write("".join(pct(ff, v) for ff, v in zip(f, row)) + newline)
                    continue
                else:
                    f = [fmt] * len(row)
                fh.write(delimiter.join(pct(ff, v) for ff, v in zip(f, row)) + newline)
            if footer:
                fh.write(comments + footer + newline)
        finally:
            if fh is not fname:
                fh.close()

    def loadtxt(self, fname, dtype=float, comments="#", delimiter=None, skiprows=0, usecols=None, unpack=False, ndmin=0, **k):
        lines = open(fname).read().split("\n") if isinstance(fname, (str, os.PathLike)) else [
            l.decode() if isinstance(l, bytes) else l for l in fname]
        rows = []
        for i, l in enumerate(lines):
            if i < skiprows:
                continue
            l = l.split(comments)[0] if comments else l
            f = l.strip().split(delimiter)
            if not l.strip():
                continue
            if usecols is not None:
                uc = [usecols] if isinstance(usecols, int) else usecols
                f = [f[j] for j in uc]
            rows.append(f)
        a = build(rows).view(SArr)
        if dtype is str or (dtype not in (symfloat,) and np.dtype(dtype).kind == "U"):
            pass
        else:
            a = a.astype(dtype)
        if a.ndim == 2 and a.shape[1] == 1 and ndmin < 2:
            a = a[:, 0]
        elif a.ndim == 2 and a.shape[0] == 1 and ndmin < 2:
            a = a[0]
        if a.shape == (1,) and ndmin < 1:
            a = a.reshape(()) if not isinstance(a[0], R) else a
        return a.T if unpack else a
    genfromtxt = loadtxt

    def save(self, file, arr, **k):
        fname, a = str(file), arr
        if not fname.endswith(".npy"):
            fname += ".npy"
        a = np.asarray(a)
        if a.dtype == object:
            flat = [fmt_sym(v, "", exact=True) if isinstance(v, R) else repr(v) for v in a.flat]
            ty = np.array(["@T"] + flat)
            np.save(fname, np.array([ty, np.array(list(map(str, a.shape)))], dtype=object)
                    if False else ty, allow_pickle=False)
            with open(fname, "ab") as fh:
                fh.write(b"@S" + ",".join(map(str, a.shape)).encode())
        else:
            np.save(fname, a, **k)

    def load(self, file, *a_, **k):
        fname = file
        r = np.load(str(fname), *a_, **k)
        if isinstance(r, np.ndarray) and r.dtype.kind == "U" and r.ndim == 1 and len(r) and r[0] == "@T":
            shape = open(str(fname), "rb").read().rsplit(b"@S", 1)[1].decode()
            shape = tuple(int(x) for x in shape.split(",") if x)
            return sarr(elem(lift, np.array([str(x) for x in r[1:]], dtype=object))).reshape(shape)
        return r


class K:
    """sort key by symbolic comparison"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __lt__(self, o):
        return bool(self.v < o.v)


def build(o):
    """nested lists -> object array (shape inferred)"""
    def shape(x):
        if isinstance(x, np.ndarray):
            return x.shape
        if isinstance(x, (list, tuple)):
            if not x:
                return (0,)
            s0 = shape(x[0])
            for y in x[1:]:
                if shape(y) != s0:
                    raise ValueError("setting an array element with a sequence. The requested array has an "
                                     "inhomogeneous shape")
            return (len(x),) + s0
        return ()
    s = shape(o)
    out = np.empty(s, dtype=object)

    def fill(ix, x):
        if isinstance(x, np.ndarray):
            out[ix] = x
        elif isinstance(x, (list, tuple)):
            for i, y in enumerate(x):
                fill(ix + (i,), y)
        else:
            out[ix] = x
    fill((), o)
    return out


NPX = _NPX("numpy")
for _n in UNARY:
    if not hasattr(_NPX, _n):
        setattr(_NPX, _n, (lambda nm: lambda self, x, *a, **k: self._un(nm, x, *a, **k))(_n))
_NPX.abs = lambda self, x, *a, **k: self._un("absolute", x, *a, **k)


class _Linalg(types.ModuleType):
    def __getattr__(self, name):
        return getattr(np.linalg, name)

    def norm(self, x, ord=None, axis=None, keepdims=False):
        if not has_sym(x):
            x = np.asarray(x)
            if x.dtype == object:
                return sarr(elem(lift, np.linalg.norm(x.astype(float), ord, axis, keepdims)))
            return np.linalg.norm(x, ord, axis, keepdims)
        x = np.asarray(NPX.array(x))
        if ord not in (None, 2, "fro") or (ord == 2 and axis is None and x.ndim > 1):
            raise Unsupported("norm order")
        if axis is None:
            return NPX.sum(x * x, axis=None).sqrt()
        s = np.add.reduce(x * x, axis=axis, keepdims=keepdims)
        return sarr(elem(lambda v: lift(v).sqrt(), s)) if isinstance(s, np.ndarray) else lift(s).sqrt()

    def det(self, m):
        m = np.asarray(m)
        if not has_sym(m):
            return np.linalg.det(m.astype(float))
        return det3(m)

    def inv(self, m):
        m = np.asarray(m)
        if m.shape != (3, 3):
            raise Unsupported("inverse of a %s matrix" % (m.shape,))
        # exact also for concrete matrices: the proxy computes in rationals
        e = elem(lift, m)
        d = det3(e)
        if d == 0:
            raise np.linalg.LinAlgError("Singular matrix")
        out = np.empty((3, 3), dtype=object)
        for i in range(3):
            for j in range(3):
                r = [a for a in range(3) if a != j]
                c = [a for a in range(3) if a != i]
                v = e[r[0], c[0]] * e[r[1], c[1]] - e[r[0], c[1]] * e[r[1], c[0]]
                out[i, j] = v * (-1 if (i + j) % 2 else 1) / d
        return out.view(SArr)

    def pinv(self, a, *r, **k):
        return self.inv(a) if has_sym(a) else np.linalg.pinv(a, *r, **k)

    def solve(self, a, b):
        return NPX.dot(self.inv(a), b)

    def qr(self, a, mode="reduced"):
        """Householder QR of a 3x3 matrix with LAPACK's signs, columns written as Gram-Schmidt would"""
        m = np.asarray(a)
        if not has_sym(m):
            m = elem(lift, m)
        if m.shape != (3, 3) or mode not in ("reduced", "complete"):
            raise Unsupported("QR of a %s matrix" % (m.shape,))
        e = elem(lift, m)
        c = [[e[i, j] for i in range(3)] for j in range(3)]
        dot = lambda u, v: u[0] * v[0] + u[1] * v[1] + u[2] * v[2]
        det = 1
        # first column
        if bool(c[0][1] == 0) and bool(c[0][2] == 0):
            if bool(c[0][0] == 0):
                raise Unsupported("QR of a singular matrix")
            q1 = [lift(1), lift(0), lift(0)]
            al1 = c[1][1]
        else:
            det = -det
            n = NPX.sqrt(dot(c[0], c[0]))
            sg = 1 if bool(c[0][0] >= 0) else -1
            q1 = [v / n * -sg for v in c[0]]
            al1 = c[1][1] * n * (n + sg * c[0][0]) - c[0][1] * (dot(c[0], c[1]) + sg * n * c[1][0])
        # second column, what is left of it after the first
        k = dot(q1, c[1])
        w = [x - k * y for x, y in zip(c[1], q1)]
        cr = [q1[1] * w[2] - q1[2] * w[1], q1[2] * w[0] - q1[0] * w[2], q1[0] * w[1] - q1[1] * w[0]]
        n2 = dot(w, w)
        n = NPX.sqrt(n2)
        # trivial reflection when the transformed column has nothing below: |alpha| equals its norm
        if bool(c[0][1] == 0) and bool(c[0][2] == 0):
            below = c[1][2]
        else:
            d = NPX.sqrt(dot(c[0], c[0]))
            sg = 1 if bool(c[0][0] >= 0) else -1
            below = c[1][2] * d * (d + sg * c[0][0]) - c[0][2] * (dot(c[0], c[1]) + sg * d * c[1][0])
        pos = bool(al1 >= 0)
        if bool(below == 0):
            q2 = [x / n * (1 if pos else -1) for x in w]
        else:
            det = -det
            q2 = [x / n * (-1 if pos else 1) for x in w]
        q3 = [(q1[1] * q2[2] - q1[2] * q2[1]) * det, (q1[2] * q2[0] - q1[0] * q2[2]) * det, (q1[0] * q2[1] - q1[1] * q2[0]) * det]
        q = np.empty((3, 3), dtype=object)
        for j, col in enumerate((q1, q2, q3)):
            for i in range(3):
                q[i, j] = col[i]
        q = q.view(SArr)
        r = NPX.dot(q.T, e.view(SArr) if isinstance(e, np.ndarray) else e)
        for i in range(3):
            for j in range(i):
                r[i, j] = lift(0)
        return q, r


def det3(m):
    return (m[0, 0] * (m[1, 1] * m[2, 2] - m[1, 2] * m[2, 1]) - m[0, 1] * (m[1, 0] * m[2, 2] - m[1, 2] * m[2, 0])
            + m[0, 2] * (m[1, 0] * m[2, 1] - m[1, 1] * m[2, 0]))


LINALG = _Linalg("numpy.linalg")
_NPX.linalg = LINALG


class _Random(types.ModuleType):
    """random numbers are symbolic inputs: u<k> in [0,1), n<k> real in [-6,6]; the k-th draw of a run"""
    def draw(self, kind, size):
        if size is None or size == ():
            i = ENG.draws = ENG.draws + 1
            return ENG.source(kind, i)
        if isinstance(size, int):
            size = (size,)
        out = np.empty(size, dtype=object)
        for q in np.ndindex(*size):
            out[q] = self.draw(kind, None)
        return out.view(SArr)
    def rand(self, *s): return self.draw("u", s)
    def random(self, size=None): return self.draw("u", size)
    random_sample = random
    def randn(self, *s): return self.draw("n", s)
    def standard_normal(self, size=None): return self.draw("n", size)
    def uniform(self, low=0.0, high=1.0, size=None): return self.draw("u", size) * (high - low) + low
    def normal(self, loc=0.0, scale=1.0, size=None): return self.draw("n", size) * scale + loc
    def seed(self, *a): pass
    def default_rng(self, *a): return self
    def __getattr__(self, name):
        raise Unsupported("numpy.random." + name)


_NPX.random = _Random("numpy.random")
ENG.draws, ENG.source = 0, None

# keyword names of numpy's own signatures
ALIAS = {"array": {"object": "o"}, "asarray": {"a": "o"}, "full": {"fill_value": "v"}, "zeros_like": {"a": "o"}, "ones_like": {"a": "o"},
         "empty_like": {"prototype": "o"}, "full_like": {"a": "o", "fill_value": "v"}, "eye": {"N": "n", "M": "m"},
         "linspace": {"start": "a", "stop": "b"}, "round": {"a": "x"}, "mean": {"a": "x"}, "average": {"a": "x"}, "var": {"a": "x"},
         "std": {"a": "x"}, "unique": {"ar": "a"}, "where": {"condition": "c"}}


def _alias(f, names):
    def g(self, *a, **k):
        for q, r in names.items():
            if q in k:
                k[r] = k.pop(q)
        return f(self, *a, **k)
    g.__name__ = f.__name__
    return g


for _n, _m in ALIAS.items():
    setattr(_NPX, _n, _alias(getattr(_NPX, _n), _m))
_NPX.asanyarray = _NPX.ascontiguousarray = _NPX.asfarray = _NPX.asarray
_NPX.around = _NPX.round_ = _NPX.round
for _n in ("det", "inv"):
    setattr(_Linalg, _n, _alias(getattr(_Linalg, _n), {"a": "m"}))

for _n in ("round", "around", "mean", "average", "var", "std", "allclose", "isclose", "any", "all", "where", "count_nonzero",
           "nonzero", "flatnonzero", "argwhere", "sum", "cross", "dot", "einsum", "sort", "argsort", "unique", "linspace",
           "savetxt", "zeros_like", "ones_like", "empty_like", "full_like", "save"):
    if hasattr(np, _n):
        OVER[getattr(np, _n)] = getattr(NPX, _n)
for _n in ("norm", "det", "inv", "solve"):
    OVER[getattr(np.linalg, _n)] = getattr(LINALG, _n)


# ------------------------------------------------------------------------------ scalars, text
class _FloatMeta(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (float, R))

    def __subclasscheck__(cls, c):
        return issubclass(c, float) or c is R

    def __call__(cls, x=0.0):
        if isinstance(x, R):
            return x
        if isinstance(x, str):
            if "@" in x:
                return parse(x)
            return lift(float(x))
        if isinstance(x, SymBool):
            return R.const(int(bool(x)))
        if isinstance(x, np.ndarray) and x.dtype == object and x.size == 1:
            return lift(x.reshape(-1)[0])
        return float(x)


class symfloat(metaclass=_FloatMeta):
    dtype = np.dtype("float64")             # accepted wherever numpy takes a dtype
    fromhex = float.fromhex


_NPX.float64 = _NPX.float_ = _NPX.float32 = _NPX.double = symfloat


def parse(s):
    s = s.strip()
    m = TOKEN.fullmatch(s)
    if not m:
        if "@" in s:
            raise Event("exception ValueError: could not convert string to float: %r" % s)
        return lift(float(s))
    val, spec, exact = ENG.formats[int(m.group(1))]
    if exact:
        return val
    key = "parsed"
    return printed(val, spec)


def printed(val, spec):
    """the number a reader gets back from val printed with spec: val plus a bounded rounding error"""
    m = re.fullmatch(r"(?:.?[<>=^])?[-+ ]?0?(\d+)?(?:\.(\d+))?([eEfFgG]?)", spec)
    if not m:
        raise Unsupported("format spec %r" % spec)
    ty = m.group(3)
    if ty == "" and m.group(2) is None:
        return val                      # repr: round-trips exactly
    prec = int(m.group(2)) if m.group(2) is not None else 6
    if ENG.exact_print:
        return val
    d = ENG.fresh("round", -1, 1)
    if ty in "fF" and ty:
        return val + d * Fraction(1, 2) / 10 ** prec
    n = prec if ty in "eE" and ty else max(prec - 1, 0)
    return val + d * val * Fraction(1, 2) / 10 ** n


ENG.exact_print = False


def fmt_sym(r, spec, exact=False):
    ENG.formats.append((r, spec, exact))
    t = "@%d@" % (len(ENG.formats) - 1)
    m = re.fullmatch(r"(?:(.)?([<>=^]))?([-+ ]?)(0?)(\d+)?(?:\.(\d+))?([eEfFgG%]?)", spec)
    if not m:
        if re.fullmatch(r"(?:.?[<>=^])?[-+ ]?#?0?\d*[,_]?[dboxXcns]", spec):
            raise ValueError("Unknown format code %r for object of type 'float'" % spec[-1])
        raise Unsupported("format spec %r" % spec)
    if m.group(7) == "%":
        raise Unsupported("percent format")
    w = int(m.group(5) or 0)
    if len(t) < w:
        al = m.group(2) or ">"
        t = t.ljust(w) if al == "<" else (t.center(w) if al == "^" else t.rjust(w))
    return t


ENG.format_hook = lambda r, spec: fmt_sym(r, spec)


def pct(f, v):
    m = re.fullmatch(r"(.*?)%([-+ 0#]*)(\d+)?(?:\.(\d+))?([a-zA-Z])(.*)", f, re.S)
    if not m:
        raise Unsupported("percent format %r" % f)
    if isinstance(v, R) and m.group(5) in "di":
        v = int(v)
    if isinstance(v, np.ndarray) and v.size == 1 and m.group(5) not in "sr":
        return pct(f, v.reshape(-1)[0])
    if not isinstance(v, R):
        return f % (v,)
    spec = ("<" if "-" in m.group(2) else "") + (m.group(3) or "") + ("." + m.group(4) if m.group(4) else "") + m.group(5)
    if m.group(5) == "s":
        spec = ""
    return m.group(1) + format(v, spec) + m.group(6)


class _Math(types.ModuleType):
    def __getattr__(self, name):
        return getattr(math, name)

    def sqrt(self, x): return x.sqrt() if isinstance(x, R) else math.sqrt(x)
    def floor(self, x): return x.floor() if isinstance(x, R) else math.floor(x)
    def ceil(self, x): return x.ceil() if isinstance(x, R) else math.ceil(x)
    def fabs(self, x): return abs(x)
    def cos(self, x): return x.cos() if isinstance(x, R) else math.cos(x)
    def sin(self, x): return x.sin() if isinstance(x, R) else math.sin(x)
    def exp(self, x): return x.exp() if isinstance(x, R) else math.exp(x)
    def acos(self, x): return x.arccos() if isinstance(x, R) else math.acos(x)
    def pow(self, x, y): return x ** y if isinstance(x, R) else math.pow(x, y)
    def isclose(self, a, b, rel_tol=1e-9, abs_tol=0.0):
        if isinstance(a, R) or isinstance(b, R):
            d = abs(lift(a) - b)
            return bool(d <= abs_tol) or bool(d <= rel_tol * abs(lift(a))) or bool(d <= rel_tol * abs(lift(b)))
        return math.isclose(a, b, rel_tol=rel_tol, abs_tol=abs_tol)
    def isnan(self, x): return UNARY["isnan"](x) if isinstance(x, R) else math.isnan(x)
    def isinf(self, x): return UNARY["isinf"](x) if isinstance(x, R) else math.isinf(x)
    def isfinite(self, x): return UNARY["isfinite"](x) if isinstance(x, R) else math.isfinite(x)
    def degrees(self, x): return x.degrees() if isinstance(x, R) else math.degrees(x)
    def radians(self, x): return x.radians() if isinstance(x, R) else math.radians(x)
    def hypot(self, *a):
        if any(isinstance(x, R) for x in a):
            return sum((lift(x) * x for x in a), R.const(0)).sqrt()
        return math.hypot(*a)
    def fsum(self, it): return sum(it)


MATH = _Math("math")


class SeqPool:
    """multiprocessing.Pool stand-in: the same calls, run one after another in this process"""

    def __init__(self, processes=None, *a, **k):
        if processes is not None and processes < 1:
            raise ValueError("Number of processes must be at least 1")
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def map(self, f, it, chunksize=None): return [f(x) for x in it]
    def starmap(self, f, it, chunksize=None): return [f(*x) for x in it]
    def imap(self, f, it, chunksize=None): return iter([f(x) for x in it])
    def imap_unordered(self, f, it, chunksize=None): return iter([f(x) for x in it][::-1])      # one of the orders workers may finish in
    def apply_async(self, f, args=(), kwds={}, callback=None, error_callback=None):
        r = f(*args, **kwds)
        if callback:
            callback(r)
        return types.SimpleNamespace(get=lambda timeout=None: r, wait=lambda *a: None, ready=lambda: True, successful=lambda: True)
    def apply(self, f, args=(), kwds={}): return f(*args, **kwds)
    def map_async(self, f, it, *a, **k): 
        r = [f(x) for x in it]
        return types.SimpleNamespace(get=lambda timeout=None: r, wait=lambda *a: None)
    starmap_async = lambda self, f, it, *a, **k: self.map_async(lambda x: f(*x), it)
    def close(self): pass
    def join(self): pass
    def terminate(self): pass


PMG = ["pymatgen.core.lattice", "pymatgen.core.sites", "pymatgen.core.structure", "pymatgen.util.coord",
       "pymatgen.core.operations"]


def install(extra=()):
    """swap numpy/math/float in every loaded matersdk module and the pymatgen modules they drive"""
    import multiprocessing
    rep = {id(np): NPX, id(np.linalg): LINALG, id(math): MATH}
    for n, o in LOCAL.items():
        if n in sys.modules:
            rep[id(sys.modules[n])] = o
    byfn = {}
    for n in dir(_NPX):
        if not n.startswith("_") and hasattr(np, n) and callable(getattr(np, n)):
            byfn[id(getattr(np, n))] = getattr(NPX, n)
    for n in ("norm", "det", "inv", "solve"):
        byfn[id(getattr(np.linalg, n))] = getattr(LINALG, n)
    for n in dir(_Math):
        if not n.startswith("_") and hasattr(math, n):
            byfn[id(getattr(math, n))] = getattr(MATH, n)
    for name, mod in list(sys.modules.items()):
        if mod is None or not (name.startswith("matersdk") or name in PMG or name in extra):
            continue
        d = vars(mod)
        for k, v in list(d.items()):
            if k.startswith("__"):
                continue
            if id(v) in rep:
                d[k] = rep[id(v)]
            elif id(v) in byfn and callable(v) and not isinstance(v, type):
                d[k] = byfn[id(v)]
            elif v is multiprocessing:
                d[k] = types.SimpleNamespace(Pool=SeqPool, cpu_count=lambda: 1)
            elif v is multiprocessing.Pool:
                d[k] = SeqPool
        d["float"] = symfloat
    local_imports()


def local_imports():
    """import statements inside functions of the repository get the same stand-ins"""
    orig = builtins.__import__
    if getattr(orig, "_vp", False):
        return

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level == 0 and globals is not None and str(globals.get("__name__", "")).startswith("matersdk"):
            if name == "numpy" or (name.startswith("numpy.") and not fromlist):
                return NPX
            if name == "numpy.linalg":
                return LINALG
            if name == "math":
                return MATH
            if name in LOCAL:
                return LOCAL[name]
        return orig(name, globals, locals, fromlist, level)
    imp._vp = True
    builtins.__import__ = imp


class _Pct(ast.NodeTransformer):
    """text % value -> __vmod__(text, value): the % operator of str asks for machine floats, which a symbolic value is not"""

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Mod):
            return ast.copy_location(ast.Call(ast.copy_location(ast.Name("__vmod__", ast.Load()), n), [n.left, n.right], []), n)
        return n


def vmod(a, b):
    if not isinstance(a, str) or not has_sym(b):
        return a % b
    if isinstance(b, dict):
        return re.sub(r"%\((\w+)\)([-+ 0#]*\d*(?:\.\d+)?[a-zA-Z])", lambda m: pct("%" + m.group(2), b[m.group(1)]), a).replace("%%", "%")
    args = list(b) if isinstance(b, tuple) else [b]
    out = []
    for t in re.split(r"(%%|%[-+ 0#]*(?:\d+|\*)?(?:\.(?:\d+|\*))?[a-zA-Z])", a):
        if t == "%%":
            out.append("%")
        elif t.startswith("%") and len(t) > 1:
            while "*" in t:
                t = t.replace("*", str(args.pop(0)), 1)
            if not args:
                raise TypeError("not enough arguments for format string")
            out.append(pct(t, args.pop(0)))
        else:
            out.append(t)
    if args:
        raise TypeError("not all arguments converted during string formatting")
    return "".join(out)


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, name):
        path = self.get_filename(name)
        return self.source_to_code(self.get_data(path), path)

    def source_to_code(self, data, path, *, _optimize=-1):
        return compile(ast.fix_missing_locations(_Pct().visit(ast.parse(data, path))), path, "exec", dont_inherit=True)


class _Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name.split(".")[0] != "matersdk":
            return None
        sp = importlib.machinery.PathFinder.find_spec(name, path, target)
        if sp is not None and type(sp.loader) is importlib.machinery.SourceFileLoader:
            sp.loader = _Loader(sp.loader.name, sp.loader.path)
        return sp


def instrument():
    """symbolic mode: modules of the repository imported from here on format symbolic values with % too"""
    builtins.__vmod__ = vmod
    if _Finder not in sys.meta_path:
        sys.meta_path.insert(0, _Finder)


LOCAL = {}      # further stand-ins a check installs: module name -> object


def load(*names):
    """import modules of the repository's working tree"""
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    return [importlib.import_module(n) for n in names]
