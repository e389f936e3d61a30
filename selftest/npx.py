"""the numpy proxy against numpy: the same expressions on the same values (run by hand: python selftest/npx.py)"""
import sys, os, traceback
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import numpy
from fractions import Fraction
from engine import pyshim, sym, poly as P
from engine.sym import R, ENG
NPX = pyshim.NPX
A = [[1.5, -2.0, 0.25], [4.0, 0.5, -1.0], [2.0, 8.0, 3.0]]
B = [[0.5, 1.0, -0.75], [2.0, 0.0, 3.0], [1.0, -1.0, 4.0]]
V = [3.0, -1.0, 0.5]
I = [[1, 2, 0], [0, 3, 4]]
E = r'''
a + b
a - 2 * b
a / (b + 10)
a * 2
2 / (a + 9)
a ** 2
-a
abs(a)
a.T
a @ b
a @ v
v @ a
v @ v
np.dot(a, v)
np.matmul(a, b)
np.inner(v, v)
np.inner(a, b)
np.outer(v, v)
np.vdot(v, v)
np.tensordot(a, b, axes=1)
np.tensordot(a, b, axes=([0], [1]))
np.einsum("ij,jk->ik", a, b)
np.einsum("ij,ij->i", a, b)
np.cross(v, a[0])
np.cross(a, b)
np.sum(a)
np.sum(a, axis=0)
np.sum(a, axis=1, keepdims=True)
np.sum(a, axis=(0, 1))
np.sum(a, axis=-1)
a.sum()
a.sum(axis=1)
a.sum(0)
a.sum(axis=-1, keepdims=True)
np.prod(v)
np.cumsum(v)
a.cumsum(axis=0)
np.cumprod(v)
np.diff(v)
np.mean(a)
np.mean(a, axis=0)
a.mean()
a.mean(axis=1)
np.average(a, axis=0)
np.average(v, weights=[1, 2, 3])
np.std(v)
np.var(a, axis=0)
np.median(v)
np.max(a)
np.max(a, axis=0)
a.max()
a.max(axis=1)
np.amax(a)
np.amin(a, axis=1)
np.min(v)
a.min(axis=0)
np.ptp(v)
np.maximum(a, b)
np.minimum(a, 0)
np.clip(a, -1, 1)
a.clip(-1, 1)
np.argmax(v)
np.argmin(a, axis=1)
a.argmax(axis=0)
a.argmin()
np.sort(v)
np.sort(a, axis=0)
np.sort(a)
np.argsort(v)
np.argsort(a, axis=1)
v.argsort()
a.argsort(axis=1)
np.argsort(-v)
np.sort(v)[::-1]
np.lexsort((v, a[0]))
np.unique(np.array([3, 1, 3]))
np.unique(np.array([3, 1, 3]), return_counts=True)[1]
np.unique(v)
np.where(a > 0, a, 0)
np.where(a > 0)[0]
np.where(a > 0, 1.0, b)
np.where(v > 0, v, np.zeros(3))
np.nonzero(v > 0)[0]
np.argwhere(a > 1)
np.flatnonzero(v)
np.count_nonzero(a > 0)
np.count_nonzero(a > 0, axis=1)
np.any(a > 5)
np.all(a > -5)
np.any(a > 1, axis=0)
(a > 0).sum()
(a > 0).sum(axis=1)
(a > 0).any()
(a > 0).all(axis=1)
(a > 0) & (b > 0)
(a > 0) | (b > 0)
~(a > 0)
np.logical_and(a > 0, b > 0)
np.logical_not(a > 0)
np.logical_or.reduce([v > 0, v < -2])
a[a > 0]
a[:, 1]
a[1:, :2]
a[[0, 2]]
a[:, [2, 0]]
a[np.array([True, False, True])]
a[np.ix_([0, 2], [1, 2])]
a[..., 0]
a[None].shape
a[:, np.newaxis].shape
a[np.arange(3), [0, 1, 2]]
a.reshape(-1)
a.reshape(9, 1)
a.ravel()
a.flatten()
a.flatten("F")
np.ravel(a)
np.reshape(a, (1, 9))
a.tolist()
a.copy()
a.transpose()
np.transpose(a)
np.swapaxes(a, 0, 1)
np.moveaxis(a, 0, 1)
np.concatenate([a, b])
np.concatenate((a, b), axis=1)
np.vstack([a, v])
np.hstack([a, b])
np.stack([v, v])
np.stack([v, v], axis=1)
np.column_stack([v, v])
np.append(v, 4.0)
np.append(a, b, axis=0)
np.insert(a, 0, np.array([0, 0, 0]), axis=0)
np.insert(v, 1, 7.0)
np.delete(a, 1, axis=0)
np.delete(v, [0])
np.split(v, 3)[1]
np.array_split(v, 2)[0]
np.tile(v, 2)
np.tile(v, (2, 1))
np.repeat(v, 2)
np.repeat(a, 2, axis=0)
np.roll(v, 1)
np.flip(v)
np.flip(a, axis=0)
np.fliplr(a)
np.squeeze(a[None])
np.expand_dims(v, 0)
np.atleast_2d(v)
np.broadcast_to(v, (2, 3))
np.take(v, [2, 0])
np.take(a, [1], axis=0)
np.take_along_axis(a, np.argsort(a, axis=1), axis=1)
np.diag(a)
np.diag(v)
np.diagonal(a)
np.trace(a)
np.tril(a)
np.triu(a)
np.eye(3) * v
np.eye(3) * [1, 2, 3]
np.identity(3) + a
np.zeros(3) + v
np.zeros((2, 3))
np.zeros_like(a)
np.ones((2, 2)) * 3
np.full((2,), 1.5)
np.full_like(a, 2.0)
np.empty(0).shape
np.arange(3) * v[0]
np.linspace(0, 1, 5)
np.linspace(v[0], v[1], 4)
np.linspace(0, v[0], num=3, endpoint=False)
np.arange(0, 1, 0.25)
np.meshgrid(np.arange(2), np.arange(3), indexing="ij")[0]
np.sqrt(abs(a))
np.square(v)
np.power(v, 2)
np.power(abs(v), 3)
np.floor(a)
np.ceil(a)
np.rint(a)
np.round(a)
np.round(a, 1)
a.round(1)
np.abs(v)
np.absolute(a)
np.fabs(v)
np.sign(v)
np.isnan(a)
np.isfinite(v)
np.isclose(a, b)
np.allclose(a, a)
np.array_equal(a, a)
np.array_equal(a, b)
np.linalg.norm(v)
np.linalg.norm(a, axis=1)
np.linalg.norm(a)
np.linalg.norm(a, axis=1, keepdims=True)
np.linalg.det(a)
np.linalg.inv(a)
np.linalg.solve(a, v)
np.linalg.pinv(np.eye(3) * 2)
np.array([1, 2, 3]) * v
np.array([v, v])
np.array([v[0], 1, 2])
np.array([[v[0], 1.0], [2.0, 3.0]])
np.array(a.tolist())
np.array(list(v))
np.asarray(v)
np.array(v, dtype=float)
np.array(v, dtype=np.float64)
np.array([1, 2]).astype(float) * v[0]
v.astype(float)
v.astype(int)
np.floor(v).astype(int)
np.array(i)[0] + v
i * v
v[i % 3]
i.sum()
i / 2
i // 2
i % 2
a % 1
a - np.floor(a)
np.mod(a, 1)
np.remainder(a, 1.0)
divmod(7, 2)
np.divide(a, 2)
np.multiply(a, b)
np.subtract(a, b)
np.add(a, b)
np.negative(a)
np.true_divide(a, 4)
np.add.reduce(a)
np.add.reduce(a, axis=1)
np.multiply.outer(v, v)
np.maximum.reduce(v)
np.add.accumulate(v)
np.apply_along_axis(lambda r: r[0], 1, a)
np.vectorize(lambda x: x * 2)(v)
np.fromiter((x for x in [1.0, 2.0]), dtype=float)
np.searchsorted(np.sort(v), 0.0)
np.digitize(v, [0.0])
np.histogram(np.array([1, 2, 1]), bins=[0, 1, 2, 3])[0]
np.interp(0.5, [0, 1], [0, 2])
np.bincount([0, 1, 1])
np.in1d(i, [1, 2])
np.isin(i, [1, 2])
np.intersect1d([1, 2], [2, 3])
np.setdiff1d([1, 2], [2, 3])
np.kron(np.eye(2), a[:2, :2])
np.nan_to_num(a)
np.nansum(v)
np.ma.masked_array if False else 0
len(a)
a.shape
a.size
a.ndim
float(v[0])
int(v[0])
round(v[2], 1)
sum(v)
max(v)
min(v)
sorted(v)
list(map(float, v))
[x for row in a for x in row]
a[0, 0] > 1 and a[1, 1] < 1
"%.3f" % 1.5
(lambda c: (c.__setitem__((slice(None), 0), 0), c)[1])(a.copy())
(lambda c: (c.__setitem__(c > 1, 9.0), c)[1])(a.copy())
(lambda c: (c.__iadd__(b), c)[1])(a.copy())
(lambda c: (c.__imul__(2), c)[1])(a.copy())
(lambda c: (c.__itruediv__(2), c)[1])(a.copy())
(lambda c: (c.fill(2.0), c)[1])(a.copy())
(lambda c: (c.sort(), c)[1])(v.copy())
(lambda c: (c.sort(axis=0), c)[1])(a.copy())
(lambda c: (np.fill_diagonal(c, 0), c)[1])(a.copy())
(lambda c: (np.copyto(c, b), c)[1])(a.copy())
(lambda c: (np.put(c, [0], [9.0]), c)[1])(v.copy())
(lambda c: (np.add.at(c, [0, 0], 1.0), c)[1])(v.copy())
np.stack([a, b]) @ v
np.stack([a, b]) @ a
np.matmul(np.stack([a, b]), np.stack([b, a]))
a[None, :, :] - v[None, None, :]
np.linalg.norm(a[None] - b[:, None], axis=-1)
np.sqrt(((a[:, None] - b[None]) ** 2).sum(-1))
np.hypot(v[0], v[2])
np.ndindex(2, 2).__class__.__name__
np.prod([2, 3])
np.prod(a, axis=0)
a.prod()
a.dot(v)
v.dot(v)
a.item(0)
a[0].item(1)
v.nonzero()[0]
a.squeeze().shape
a.repeat(2, axis=0)
a.take([0], axis=0)
a.std()
a.var(axis=0)
a.trace()
a.diagonal()
a.swapaxes(0, 1)
np.array([a[0], b[0]]).reshape(-1, 3)
np.r_[v, 1.0]
np.c_[v, v]
np.array([]).reshape(0, 3).shape
np.concatenate([np.array([]), v])
np.zeros((0, 3)).shape
np.vstack([np.zeros((0, 3)), a])
np.max(np.array([1, 5]))
np.array([True, False]).any()
v == 3.0
v != np.array([3.0, 0, 0.5])
np.any(v != [3.0, -1.0, 0.5])
np.greater(v, 0)
np.less_equal(v, 0)
np.equal(v, v)
np.divide(1.0, v, out=np.zeros_like(v), where=v != 0)
np.divide(v, [1, 0, 2.0], out=np.ones(3), where=np.array([True, False, True]))
np.sqrt(v, out=np.zeros_like(v), where=v > 0)
np.sum(a, where=a > 0)
a.sum(where=a > 0)
np.sum(a, axis=0, where=a > 0)
np.max(a, where=a > 0, initial=0)
np.add(a, 1, out=a.copy())
np.multiply(a, b, out=np.empty_like(a))
np.maximum.reduce(a)
np.minimum.reduce(a, axis=1)
np.subtract.outer(v, v)
np.linalg.norm(a, axis=-1, keepdims=True)
np.power(v, 2, out=np.zeros_like(v), where=v > 0)
np.reciprocal(v, out=np.zeros_like(v), where=v != 0)
np.piecewise(v, [v < 0, v >= 0], [lambda x: -x, lambda x: x])
np.array([v[0], 2])[::-1]
np.nan_to_num(v)
np.select([v > 1, v > 0], [v, v * 2], 0)
np.inner(a, v)
np.linalg.multi_dot([a, b, v])
np.average(a, axis=0, weights=[1, 2, 3])
np.cumsum(a, axis=1)
np.argmax(a, axis=1)
np.argmin(v)
np.unravel_index(np.argmax(a), a.shape)
np.rot90(a)
np.ix_([0, 1], [1, 2])[0].shape
a[np.ix_([0, 1], [1, 2])]
np.take(a, [0, 2], axis=1)
np.lexsort((v, v))
np.ascontiguousarray(a)
np.einsum("ij,kj->ik", a, b)
np.einsum("i,i", v, v)
np.einsum("ij->j", a)
np.kron(v, v)
np.apply_along_axis(np.linalg.norm, 1, a)
np.apply_along_axis(lambda r: r.sum(), 0, a)
np.fromiter((x for x in v), dtype=float)
np.array(list(map(lambda r: r @ r, a)))
np.split(a, 3, axis=1)[1]
np.moveaxis(a[None], 0, -1)
np.clip(v, 0, 1)
np.hypot(v, v)
np.floor_divide(v, 0.5)
np.fmod(v, 0.75)
np.mod(v, 0.75)
v // 0.5
np.isclose(v, v + 1e-12)
np.isin(i, [0, 1])
np.in1d(i, [1])
np.percentile(v, 50)
np.linalg.inv(a) @ a
np.linalg.matrix_power(a, 2)
np.cross(a[0], a[1])
np.cross(a, v)
np.tile(v, (2, 2))
np.full((2,), v[0])
np.where(v > 0)[0]
np.argwhere(v > 0)
np.count_nonzero(v > 0)
np.extract(v > 0, v)
np.compress(v > 0, v)
np.searchsorted(np.sort(v), 0.2)
np.digitize(v, [0, 1])
np.histogram(v, bins=[-5, 0, 5])[0]
np.round(v, 3)
'''
def conv(np, x):
    return np.array(x)
def sym_(x):
    a = numpy.array(x, dtype=object)
    o = numpy.empty(a.shape, dtype=object)
    for k, q in enumerate(a.flat):
        o.flat[k] = R.const(q)
    return o.view(pyshim.SArr)
def plain(r):
    if isinstance(r, R):
        return float(r.v) if isinstance(r, sym.Ext) else float(P.p_eval(r.p, ENG.model))
    if isinstance(r, numpy.ndarray):
        return [plain(q) for q in r] if r.ndim else plain(r[()])
    if isinstance(r, (list, tuple)):
        return [plain(q) for q in r]
    if isinstance(r, (sym.SymBool,)):
        return bool(r)
    if isinstance(r, (bool, numpy.bool_)):
        return bool(r)
    return r if isinstance(r, str) else float(r)
def close(x, y):
    if isinstance(x, list) or isinstance(y, list):
        return isinstance(x, list) and isinstance(y, list) and len(x) == len(y) and all(close(p, q) for p, q in zip(x, y))
    if isinstance(x, str) or isinstance(y, str):
        return x == y
    return abs(x - y) < 1e-9
bad = 0
ENG.active = True
ENG.pc, ENG.pckeys, ENG.model, ENG.base, ENG.prefix, ENG.pos, ENG.trace, ENG.work, ENG.nonce = [], {}, {}, {}, [], 0, [], [], 0
for l in E.strip().splitlines():
    g = dict(np=numpy, a=numpy.array(A), b=numpy.array(B), v=numpy.array(V), i=numpy.array(I))
    w = plain(eval(l, g))
    try:
        g = dict(np=NPX, a=sym_(A), b=sym_(B), v=sym_(V), i=numpy.array(I), float=pyshim.symfloat)
        r = plain(eval(l, g))
        if not close(w, r):
            bad += 1
            print("DIFF ", l, w, r)
    except BaseException as e:
        bad += 1
        print("FAIL ", l, type(e).__name__, str(e)[:150])
        if len(sys.argv) > 1:
            traceback.print_exc()
print(bad, "of", len(E.strip().splitlines()), "differ")
sys.exit(1 if bad else 0)
