"""helpers shared by the checks of the Python package"""
import itertools, os, shutil, tempfile, contextlib
from fractions import Fraction
from engine import poly as P, sym as S, pyshim
from engine.sym import R, ENG

PYA = ("numpy is replaced by a proxy whose float arrays hold exact symbolic reals (the sources of /repo and the pymatgen modules "
       "they drive run unmodified on it); the replay of a counterexample uses the real numpy")
TEXT = "numbers written to a file are opaque tokens carrying the symbolic value and the rounding of their format"


def mods(*names, extra=()):
    def setup(env):
        pyshim.instrument()
        pyshim.load(*names)
        pyshim.install(extra)
    return setup


def imp(env, name):
    """module of the repository's working tree (shimmed or plain)"""
    if env.concrete:
        # results of imap_unordered come in any order: replay the order the exploration used
        import multiprocessing.pool as mp
        mp.Pool.imap_unordered = lambda self, f, it, chunksize=1: iter(self.map(f, list(it))[::-1])
    return pyshim.load(name)[0]


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="vpy")
    cwd = os.getcwd()
    try:
        os.chdir(d)
        yield d
    finally:
        os.chdir(cwd)
        shutil.rmtree(d, ignore_errors=True)


def val(x):
    """numeric value (at the current path's model when symbolic)"""
    if isinstance(x, S.Ext):
        return float(x.v)
    if isinstance(x, R):
        return float(P.p_eval(x.p, ENG.model))
    return float(x)


def same(a, b):
    if isinstance(a, R) or isinstance(b, R):
        a, b = R.lift(a), R.lift(b)
        if isinstance(a, S.Ext) or isinstance(b, S.Ext):
            return False
        return not P.p_add(a.p, b.p, -1)
    return abs(float(a) - float(b)) <= 1e-6 * max(1.0, abs(float(b)))


def close(env, a, b, tol, label):
    """|a-b| <= tol"""
    tol = tol + 1e-9 if env.concrete else tol
    env.check((a - b <= tol) & (b - a <= tol), label, info=(val(a), val(b)) if env.concrete else None)


def vec(x):
    return [x[i] for i in range(len(x))]


def match(env, key, vecs, want, label):
    """index of the element of `want` [(key, vector)] that (key, vecs) equals for every value of the inputs; None if
       there is no candidate"""
    best = None
    for i, (k, w) in enumerate(want):
        if k != key:
            continue
        if all(same(a, b) for a, b in zip(vecs, w)):
            best = (0.0, i)
            break
        d = max(abs(val(a) - val(b)) for a, b in zip(vecs, w))
        if best is None or d < best[0]:
            best = (d, i)
    env.check(best is not None, label + ": no atom of that species")
    if best[0] != 0.0 or env.concrete:
        for a, b in zip(vecs, want[best[1]][1]):
            env.check_eq(a, b, label)
    return best[1]


def frac2cart(fr, lat):
    return [sum((fr[k] * lat[k][j] for k in range(1, 3)), fr[0] * lat[0][j]) for j in range(3)]


def add(a, b):
    return [x + y for x, y in zip(a, b)]


def images(scaling):
    return [v for v in itertools.product(*[range(-(s // 2), s // 2 + 1) for s in scaling])]


def F(x):
    return Fraction(x).limit_denominator(10 ** 6)


def num(env, x):
    return R.const(x) if not env.concrete else float(x)
