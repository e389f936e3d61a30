"""The environment a harness talks to: symbolic (engine) or concrete (replay)."""
import math
from fractions import Fraction
from . import poly as P
from .poly import ONE
from . import sym as S
from .sym import R, ENG, PathAbort, Event


class SymEnv:
    concrete = False

    def __init__(self, params):
        self.params = params

    def real(self, name, lo=None, hi=None):
        return ENG.real(name, lo, hi)

    def choose(self, name, lo, hi):
        return ENG.choose(name, lo, hi)

    def assume(self, c):
        ENG.assume(c)

    def check(self, c, label, info=None):
        ENG.check(c, label)

    def check_eq(self, a, b, label):
        ENG.check_eq(a, b, label)

    def reach(self, label):
        ENG.reach(label)

    def deriv(self, v, var, d, label):
        """d is the derivative of v with respect to the input `var`"""
        a = P.T.byname.get(("var", var))
        dv = diff(R.lift(v).p, a.id) if a is not None else {}
        ENG.check_eq(R(dv), d, label)

    def const(self, x):
        return R.const(x)


def diff(p, aid, memo=None):
    """d p / d atom"""
    memo = {} if memo is None else memo
    out = {}
    for m, c in p.items():
        for i, (a, e) in enumerate(m):
            da = diff_atom(a, aid, memo)
            if not da:
                continue
            rest = m[:i] + m[i + 1:]
            mm = P.m_mul(rest, ((a, e - 1),)) if e != 1 else rest
            term = {mm: c * e}
            if mm and P.m_needs(mm):
                term = P.p_scale(P.m_expand(mm), c * e)
            out = P.p_add(out, P.p_mul(term, da))
    return out


def diff_atom(a, aid, memo):
    if a == aid:
        return {(): ONE}
    r = memo.get(a)
    if r is not None:
        return r
    at = P.T.atoms[a]
    if at.kind == "var":
        r = {}
    elif at.kind == "sqrt":
        de = diff(at.arg, aid, memo)
        r = P.p_mul(de, {((a, -1),): Fraction(1, 2)}) if de else {}
    elif at.kind == "rec":
        r = diff(at.arg, aid, memo)
    elif at.kind == "uf":
        ds = [diff(q, aid, memo) for q in at.arg]
        if not any(ds):
            r = {}
        elif at.fname == "cos":
            r = P.p_mul(P.p_scale(S.uf("sin", [R(at.arg[0])], -1, 1).p, -ONE), ds[0])
        elif at.fname == "sin":
            r = P.p_mul(S.uf("cos", [R(at.arg[0])], -1, 1).p, ds[0])
        elif at.fname == "exp":
            r = P.p_mul({((a, 1),): ONE}, ds[0])
        else:
            raise S.Unsupported("derivative of " + at.fname)
    memo[a] = r
    return r


class ConcreteFail(Exception):
    pass


class ConcreteEnv:
    concrete = True
    ties = False            # a replay that may sit on a boundary
    tol = 1e-6              # numerical noise that does not count as a difference

    def __init__(self, params, model, offset=None):
        self.params = {k: (float(v) if isinstance(v, Fraction) else v) for k, v in params.items()}
        self.model = model
        self.offset = offset or {}
        self.fails = []
        self.derivs = {}        # label -> (var, value, deriv)
        self.aborted = False

    def real(self, name, lo=None, hi=None):
        v = self.model.get(name)
        if v is None:
            v = 0.0
            if lo is not None and hi is not None:
                v = (float(lo) + float(hi)) / 2
        return v + self.offset.get(name, 0.0)

    def choose(self, name, lo, hi):
        return int(round(self.model.get(name, lo)))

    def assume(self, c):
        if not c:
            raise PathAbort("assume")

    def check(self, c, label, info=None):
        if not bool(c):
            self.fails.append((label, repr(info) if info is not None else ""))
            raise PathAbort("failed")

    def check_eq(self, a, b, label):
        a, b = float(a), float(b)
        if not (abs(a - b) <= self.tol * max(1.0, abs(a), abs(b))):
            self.fails.append((label, "%r != %r" % (a, b)))
            raise PathAbort("failed")

    def reach(self, label):
        pass

    def deriv(self, v, var, d, label):
        self.derivs.setdefault(label, []).append((var, float(v), float(d)))

    def const(self, x):
        return float(x) if isinstance(x, Fraction) else x
