"""Symbolic execution engine: symbolic reals/booleans with forking control flow, path
   exploration by deterministic re-execution, and SMT (z3) verdicts on every obligation."""
import sys, time, math
from fractions import Fraction
from . import poly as P
from .poly import T, ONE, ZERO, to_frac

try:
    import z3
except ImportError:                                             # pragma: no cover
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
    import z3


class PathAbort(BaseException):
    """this path ends here (infeasible, assumption failed, or finished)"""

    def __init__(self, *a):
        super().__init__(*a)
        _note(self)


def _note(e):
    """remembered, so that a bare `except:` in the code under test cannot swallow the engine's own exceptions"""
    eng = globals().get("ENG")
    if eng is not None and eng.active and eng.dead is None:
        eng.dead = e


class Event(BaseException):
    """the code under test did something definite and bad on this path (division by zero, ...)"""

    def __init__(self, label):
        super().__init__(label)
        self.label = label
        _note(self)


class Unsupported(BaseException):
    """the engine cannot encode this operation: the run gives no answer"""

    def __init__(self, *a):
        super().__init__(*a)
        _note(self)


class Inconclusive(BaseException):
    pass


# ------------------------------------------------------------------------------ formulas
# ("le",p) p<=0   ("lt",p) p<0   ("eq",p)   ("ne",p)   ("and",[..])  ("or",[..])  ("true",)  ("false",)
TRUE, FALSE = ("true",), ("false",)


def f_not(f):
    k = f[0]
    if k == "true":
        return FALSE
    if k == "false":
        return TRUE
    if k == "le":
        return ("lt", P.p_scale(f[1], -ONE))
    if k == "lt":
        return ("le", P.p_scale(f[1], -ONE))
    if k == "eq":
        return ("ne", f[1])
    if k == "ne":
        return ("eq", f[1])
    if k == "and":
        return f_or([f_not(g) for g in f[1]])
    if k == "or":
        return f_and([f_not(g) for g in f[1]])
    raise ValueError(k)


def f_and(fs):
    out = []
    for f in fs:
        if f[0] == "false":
            return FALSE
        if f[0] == "true":
            continue
        if f[0] == "and":
            out.extend(f[1])
        else:
            out.append(f)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else ("and", out)


def f_or(fs):
    out = []
    for f in fs:
        if f[0] == "true":
            return TRUE
        if f[0] == "false":
            continue
        if f[0] == "or":
            out.extend(f[1])
        else:
            out.append(f)
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else ("or", out)


def sqrt_linear(p):
    """p = a*s + b or a*(s - t) with s, t square-root atoms, a, b rational: return data, else None"""
    if len(p) > 2:
        return None
    s = None
    b = ZERO
    other = None
    for m, c in p.items():
        if not m:
            b = c
        elif len(m) == 1 and m[0][1] == 1 and T.atoms[m[0][0]].kind == "sqrt":
            if s is None:
                s = (m[0][0], c)
            else:
                other = (m[0][0], c)
        else:
            return None
    if s is None or (other is not None and other[1] != -s[1]):
        return None
    return s, b, other


def f_rel(rel, p):
    """build a relation p rel 0, folding constants, clearing denominators"""
    sl = sqrt_linear(p) if p else None
    if sl is not None:
        (a, c), b, other = sl
        e = T.atoms[a].arg
        if other is not None:
            d = P.p_add(e, T.atoms[other[0]].arg, -1)
            return f_rel(rel, d if c > 0 else P.p_scale(d, -ONE))
        k = -b / c                        # compare s with k
        d = P.p_add(e, {(): k * k} if k else {}, -1)
        if rel in ("eq", "ne"):
            if k < 0:
                return FALSE if rel == "eq" else TRUE
            return f_rel(rel, d)
        if c > 0:                         # s <= k / s < k
            if k < 0 or (k == 0 and rel == "lt"):
                return FALSE
            return f_rel(rel, d)
        if k < 0 or (k == 0 and rel == "le"):
            return TRUE
        return f_rel(rel, P.p_scale(d, -ONE))
    if not p:
        return TRUE if rel in ("le", "eq") else FALSE
    p = P.p_clear(p, rel in ("eq", "ne"))
    if not p:
        return TRUE if rel in ("le", "eq") else FALSE
    if len(p) == 1:
        (m, c), = p.items()
        if not m:
            return TRUE if {"le": c <= 0, "lt": c < 0, "eq": c == 0, "ne": c != 0}[rel] else FALSE
    lo, hi = P.p_interval(p)
    if rel == "le":
        if hi < 0:
            return TRUE
        if lo > 0:
            return FALSE
    elif rel == "lt":
        if hi < 0:
            return TRUE
        if lo > 0:
            return FALSE
    elif lo > 0 or hi < 0:
        return FALSE if rel == "eq" else TRUE
    # normalise the leading coefficient's magnitude
    c = abs(p[max(p)])
    if c != 1:
        p = P.p_scale(p, 1 / c)
    return (rel, p)


def f_eval(f, model):
    k = f[0]
    if k == "true":
        return True
    if k == "false":
        return False
    if k == "and":
        return all(f_eval(g, model) for g in f[1])
    if k == "or":
        return any(f_eval(g, model) for g in f[1])
    v = P.p_eval(f[1], model)
    if k == "le":
        return v <= 0
    if k == "lt":
        return v < 0
    if k == "eq":
        return v == 0 if isinstance(v, Fraction) else abs(v) < 1e-12
    return v != 0


def f_closure(f, memo={}):
    key = f_key(f)
    r = memo.get(key)
    if r is None:
        if f[0] in ("and", "or"):
            r = frozenset().union(*[f_closure(g) for g in f[1]])
        elif f[0] in ("true", "false"):
            r = frozenset()
        else:
            r = frozenset(P.p_closure(f[1]))
        memo[key] = r
    return r


def f_key(f):
    if f[0] in ("and", "or"):
        return (f[0], tuple(f_key(g) for g in f[1]))
    if len(f) == 1:
        return f
    return (f[0], P.p_key(f[1]))


class SymBool:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        return ENG.decide(self.f)

    def __and__(self, o):
        return SymBool(f_and([self.f, b_of(o)]))
    __rand__ = __and__

    def __or__(self, o):
        return SymBool(f_or([self.f, b_of(o)]))
    __ror__ = __or__

    def __invert__(self):
        return SymBool(f_not(self.f))

    def __eq__(self, o):
        return bool(self) == bool(o)

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __mul__(self, o):
        return (1 if bool(self) else 0) * o
    __rmul__ = __mul__

    def __add__(self, o):
        return (1 if bool(self) else 0) + o
    __radd__ = __add__


def b_of(o):
    if isinstance(o, SymBool):
        return o.f
    return TRUE if o else FALSE


def mkbool(f):
    if f[0] == "true":
        return True
    if f[0] == "false":
        return False
    return SymBool(f)


DEG = 180 / Fraction(math.pi)
TINY, TOL = Fraction(1, 10 ** 12), Fraction(1, 10 ** 9)


class R:
    """symbolic real"""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p

    @staticmethod
    def const(x):
        f = to_frac(x)
        return R({(): f} if f else {})

    # -------- helpers
    def is_const(self):
        return not self.p or (len(self.p) == 1 and () in self.p)

    def cval(self):
        return self.p.get((), ZERO)

    @staticmethod
    def lift(o):
        if isinstance(o, R):
            return o
        if isinstance(o, SymBool):
            return R.const(int(bool(o)))
        if isinstance(o, float) and (o != o or o in (math.inf, -math.inf)):
            return Ext(o)
        if getattr(o, "ndim", 0):
            return None
        try:
            return R.const(o)
        except TypeError:
            return None

    # -------- arithmetic
    def __add__(self, o):
        o = R.lift(o)
        return NotImplemented if o is None else R(P.p_add(self.p, o.p))

    def __radd__(self, o):
        return self.__add__(o)

    def __sub__(self, o):
        o = R.lift(o)
        return NotImplemented if o is None else R(P.p_add(self.p, o.p, -1))

    def __rsub__(self, o):
        o = R.lift(o)
        return NotImplemented if o is None else R(P.p_add(o.p, self.p, -1))

    def __mul__(self, o):
        o = R.lift(o)
        return NotImplemented if o is None else R(P.p_mul(self.p, o.p))

    def __rmul__(self, o):
        return self.__mul__(o)

    def __neg__(self):
        return R(P.p_scale(self.p, -ONE))

    def __pos__(self):
        return self

    def inv(self):
        if self.is_const():
            c = self.cval()
            if c == 0:
                raise Event("division by zero")
            return R({(): 1 / c})
        if ENG.decide(f_rel("eq", self.p)):
            raise Event("division by zero")
        return R(P.p_inv(self.p))

    def __truediv__(self, o):
        o = R.lift(o)
        if o is None:
            return NotImplemented
        if o.is_const() and o.cval() != 0:
            return R(P.p_scale(self.p, 1 / o.cval()))
        return R(P.p_mul(self.p, o.inv().p))

    def __rtruediv__(self, o):
        o = R.lift(o)
        return NotImplemented if o is None else o.__truediv__(self)

    def __floordiv__(self, o):
        return R.const((self / o).floor())

    def __rfloordiv__(self, o):
        return R.const((R.lift(o) / self).floor())

    def __mod__(self, o):
        o = R.lift(o)
        if o is None:
            return NotImplemented
        return self - o * (self / o).floor()

    def __rmod__(self, o):
        o = R.lift(o)
        return NotImplemented if o is None else o.__mod__(self)

    def fmod(self, o):
        o = R.lift(o)
        return self - o * R.const((self / o).trunc())

    def __divmod__(self, o):
        q = (self / o).floor()
        return q, self - R.lift(o) * q

    def __pow__(self, n):
        if isinstance(n, R):
            if not n.is_const():
                raise Unsupported("symbolic exponent")
            n = n.cval()
        n = to_frac(n)
        if n.denominator == 1:
            n = int(n)
            if n >= 0:
                return R(P.p_pow(self.p, n))
            return R(P.p_pow(self.inv().p, -n))
        if n == Fraction(1, 2):
            return self.sqrt()
        if n == Fraction(-1, 2):
            return self.sqrt().inv()
        if n.denominator == 2:
            return self.sqrt() ** n.numerator
        raise Unsupported("power %s" % n)

    def __rpow__(self, o):
        if self.is_const():
            return R.lift(o) ** self.cval()
        raise Unsupported("symbolic exponent")

    def sqrt(self):
        if not self.p:
            return self
        if self.is_const():
            c = self.cval()
            if c < 0:
                raise Event("square root of a negative number")
            r = P.isqrt_exact(c)
            if r is not None:
                return R({(): r})
        if not P.p_interval(self.p)[0] >= 0 and not p_is_sos(self.p) and ENG.decide(f_rel("lt", self.p)):
            raise Event("square root of a negative number")
        if len(self.p) == 1:
            (m, c), = self.p.items()
            if all(e % 2 == 0 for _, e in m):
                rc = P.isqrt_exact(c)
                if rc is not None:
                    return abs(R({tuple((a, e // 2) for a, e in m): rc}))
        key = ("sqrt", P.p_key(self.p))
        a = T.new("sqrt", key, "sqrt%d" % len(T.atoms), self.p, 0)
        P.note_sqrt(a.id, self.p)
        return R({((a.id, 1),): ONE})

    def __abs__(self):
        if ENG.decide(f_rel("lt", self.p)):
            return -self
        return self

    # -------- comparisons
    def _cmp(self, o, rel, swap):
        o = R.lift(o)
        if o is None:
            return NotImplemented
        if isinstance(o, Ext):
            x, y = (o.v, 0.0) if swap else (0.0, o.v)
            return {"lt": x < y, "le": x <= y, "eq": x == y, "ne": x != y}[rel]
        d = P.p_add(o.p, self.p, -1) if swap else P.p_add(self.p, o.p, -1)
        return mkbool(f_rel(rel, d))

    def __lt__(self, o): return self._cmp(o, "lt", False)
    def __le__(self, o): return self._cmp(o, "le", False)
    def __gt__(self, o): return self._cmp(o, "lt", True)
    def __ge__(self, o): return self._cmp(o, "le", True)

    def __eq__(self, o):
        if getattr(o, "ndim", 0):
            return NotImplemented
        if not isinstance(o, (R, int, float, Fraction)) and not hasattr(o, "item"):
            return False
        return self._cmp(o, "eq", False)

    def __ne__(self, o):
        if getattr(o, "ndim", 0):
            return NotImplemented
        if not isinstance(o, (R, int, float, Fraction)) and not hasattr(o, "item"):
            return True
        return self._cmp(o, "ne", False)

    def __hash__(self):
        if self.is_const():
            return hash(self.cval())
        raise Unsupported("hash of a symbolic value")

    def __bool__(self):
        return bool(self._cmp(0, "ne", False))

    # -------- conversions
    def floor(self):
        return ENG.floor(self)

    def ceil(self):
        return -ENG.floor(-self)

    def trunc(self):
        if self.is_const():
            return int(self.cval())
        if ENG.decide(f_rel("lt", self.p)):
            return self.ceil()
        return self.floor()

    __int__ = trunc
    __trunc__ = trunc
    __floor__ = floor
    __ceil__ = ceil

    def __index__(self):
        if self.is_const() and self.cval().denominator == 1:
            return int(self.cval())
        raise Unsupported("symbolic value used as an index")

    def rint(self):
        f = (self + Fraction(1, 2)).floor()
        if ENG.decide(f_rel("eq", (self - f + Fraction(1, 2)).p)) and f % 2:
            return f - 1
        return f

    def __round__(self, n=None):
        if n is None:
            return self.rint()
        if self.is_const() or n <= 0:
            return R.const(Fraction((self * 10 ** n).rint(), 10 ** n))
        if ENG.grid is not None and n >= ENG.grid:
            return self             # the case states that its inputs carry no more decimals than that
        # rounding to decimals: the value plus a bounded error, the same one for the same value
        k = (n, frozenset(self.p.items()))
        r = ENG.rounds.get(k)
        if r is None:
            r = self + ENG.fresh("round", -1, 1) * Fraction(1, 2) / 10 ** n
            ENG.rounds[k] = ENG.rounds[(n, frozenset(r.p.items()))] = r
        return r

    def __float__(self):
        if self.is_const():
            return float(self.cval())
        raise Unsupported("symbolic value converted to a machine float")

    def conjugate(self): return self
    @property
    def real(self): return self
    @property
    def imag(self): return R({})

    def item(self): return self

    # -------- numpy ufunc method hooks
    def cos(self): return uf("cos", [self], -1, 1)
    def sin(self): return uf("sin", [self], -1, 1)
    def exp(self): return uf("exp", [self], 0, None)
    def log(self): return uf("log", [self])
    def tanh(self): return uf("tanh", [self], -1, 1)
    def arccos(self): return uf("acos", [self], 0, Fraction(355, 113))
    def arcsin(self): return uf("asin", [self])
    def square(self): return self * self
    def fabs(self): return abs(self)
    def degrees(self): return self * DEG
    def radians(self): return self / DEG
    rad2deg, deg2rad = degrees, radians

    def __deepcopy__(self, memo): return self
    def __copy__(self): return self

    def __repr__(self):
        if self.is_const():
            return "R(%s)" % self.cval()
        return "R<%s>" % p_str(self.p)

    def __format__(self, spec):
        if self.is_const():
            return format(float(self.cval()), spec)
        return ENG.format_hook(self, spec)

    def __str__(self):
        return self.__format__("")


class Ext(R):
    """a non-finite floating value: nan, inf or -inf"""
    __slots__ = ("v",)

    def __init__(self, v):
        self.p = None
        self.v = v

    def is_const(self): return True
    def cval(self): return self.v

    def _sgn(self, o):
        """sign of the other operand, as a float"""
        if isinstance(o, Ext):
            return o.v
        if ENG.decide(f_rel("eq", o.p)):
            return 0.0
        return -1.0 if ENG.decide(f_rel("lt", o.p)) else 1.0

    def _bin(op, rev=False):
        def f(self, o):
            o = R.lift(o)
            if o is None:
                return NotImplemented
            b = self._sgn(o) if op in "*/" else (o.v if isinstance(o, Ext) else 0.0)
            x, y = (b, self.v) if rev else (self.v, b)
            if op == "/" and y == 0:
                r = x * math.inf
            else:
                r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y}[op]()
            return R.lift(float(r)) if r == r and abs(r) != math.inf else Ext(r)
        return f

    __add__ = __radd__ = _bin("+")
    __sub__, __rsub__ = _bin("-"), _bin("-", True)
    __mul__ = __rmul__ = _bin("*")
    __truediv__, __rtruediv__ = _bin("/"), _bin("/", True)
    def __neg__(self): return Ext(-self.v)
    def __abs__(self): return Ext(abs(self.v))
    def inv(self): return R.const(0) if self.v == self.v else self
    def sqrt(self): return Ext(self.v if self.v > 0 else math.nan)
    def __pow__(self, n): return Ext(self.v ** float(n)) if float(n) > 0 else self.inv()
    def __bool__(self): return True
    def __hash__(self): return hash(self.v)
    def __float__(self): return self.v
    def _nan(self, *a): return Ext(math.nan)
    cos = sin = exp = log = tanh = arccos = arcsin = degrees = radians = _nan

    def _conv(self, *a):
        raise ValueError("cannot convert float %s to integer" % ("NaN" if self.v != self.v else "infinity"))
    trunc = floor = ceil = rint = __int__ = __trunc__ = __floor__ = __ceil__ = __index__ = __round__ = _conv

    def _c(op):
        def f(self, o):
            if isinstance(o, (str, bytes)) or o is None:
                return op == "ne"
            o = R.lift(o)
            if o is None:
                return NotImplemented
            y = o.v if isinstance(o, Ext) else 0.0
            x = self.v
            return {"lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y, "eq": x == y, "ne": x != y}[op]
        return f
    __lt__, __le__, __gt__, __ge__, __eq__, __ne__ = _c("lt"), _c("le"), _c("gt"), _c("ge"), _c("eq"), _c("ne")
    def __repr__(self): return "R(%s)" % self.v
    def __format__(self, spec): return format(self.v, spec)
    def __str__(self): return str(self.v)


def nonzero(r):
    """whether r is a finite or infinite non-zero number"""
    return not (ENG.decide(f_rel("eq", r.p)) if not isinstance(r, Ext) else False)


def div(a, b):
    """IEEE style division (numpy arrays): no exception on a zero divisor"""
    a, b = R.lift(a), R.lift(b)
    if isinstance(a, Ext) or isinstance(b, Ext) or (not b.is_const() and nonzero(b)) or (b.is_const() and b.cval() != 0):
        return a / b
    if ENG.decide(f_rel("eq", a.p)):
        return Ext(math.nan)
    return Ext(-math.inf if ENG.decide(f_rel("lt", a.p)) else math.inf)


def p_str(p, limit=8):
    out = []
    for m, c in sorted(p.items())[:limit]:
        out.append(str(c) + "".join("*%s^%d" % (T.atoms[a].name, e) for a, e in m))
    return " + ".join(out) + (" + ..." if len(p) > limit else "")


def p_is_sos(p):
    """syntactically a sum of squares of atoms with positive coefficients"""
    return all(c > 0 and all(e % 2 == 0 for _, e in m) for m, c in p.items())


def uf(fname, args, lo=None, hi=None):
    if all(a.is_const() for a in args):
        c = [a.cval() for a in args]
        if fname in ("cos", "exp") and c[0] == 0:
            return R.const(1)
        if fname in ("sin", "tanh") and c[0] == 0:
            return R.const(0)
        if fname in ("acos", "asin", "cos", "sin", "exp", "tanh") and abs(c[0]) <= (1 if fname[0] == "a" else 50):
            v = Fraction(getattr(math, fname)(float(c[0])))
            e = Fraction(1, 10 ** 12) * max(1, abs(v))
            lo, hi = v - e, v + e
    ps = [a.p for a in args]
    if fname == "cos" and len(ps[0]) == 1:
        (m, c), = ps[0].items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and T.atoms[m[0][0]].kind == "uf" and T.atoms[m[0][0]].fname == "acos":
            return R(dict(T.atoms[m[0][0]].arg[0]))         # cos(arccos(x)) = x
    key = ("uf", fname, tuple(P.p_key(p) for p in ps))
    a = T.new("uf", key, "%s%d" % (fname, len(T.atoms)), ps, lo, hi)
    a.fname = fname
    return R({((a.id, 1),): ONE})


# ------------------------------------------------------------------------------ z3 encoding
class Z3Enc:
    def __init__(self):
        self.vars = {}
        self.fcache = {}

    def var(self, aid):
        v = self.vars.get(aid)
        if v is None:
            v = z3.Real("%s!%d" % (T.atoms[aid].name, aid))
            self.vars[aid] = v
        return v

    def poly(self, p):
        terms = []
        for m, c in p.items():
            t = z3.RealVal(str(c))
            fs = []
            for a, e in m:
                fs.extend([self.var(a)] * e)
            if fs:
                pr = fs[0]
                for f in fs[1:]:
                    pr = pr * f
                t = pr if c == 1 else t * pr
            terms.append(t)
        if not terms:
            return z3.RealVal(0)
        return terms[0] if len(terms) == 1 else z3.Sum(terms)

    def free(self, p):
        """polynomial with reciprocal powers as symbols of their own"""
        terms = []
        for m, c in p.items():
            t = z3.RealVal(str(c))
            for a, e in m:
                v = self.var(a) if e > 0 else z3.Real("inv!%d" % a)
                for _ in range(abs(e)):
                    t = t * v
            terms.append(t)
        return z3.Sum(terms) if terms else z3.RealVal(0)

    def f(self, f):
        k = f_key(f)
        r = self.fcache.get(k)
        if r is None:
            r = self._f(f)
            self.fcache[k] = r
        return r

    def _f(self, f):
        k = f[0]
        if k == "true":
            return z3.BoolVal(True)
        if k == "false":
            return z3.BoolVal(False)
        if k == "and":
            return z3.And([self.f(g) for g in f[1]])
        if k == "or":
            return z3.Or([self.f(g) for g in f[1]])
        # move negative coefficients to the other side (keeps terms readable, helps preprocessing)
        t = self.poly(f[1])
        if k == "le":
            return t <= 0
        if k == "lt":
            return t < 0
        if k == "eq":
            return t == 0
        return t != 0

    def axioms(self, atoms):
        out = []
        for aid in sorted(atoms):
            a = T.atoms[aid]
            if a.kind == "rec":
                continue
            if a.lo is not None:
                out.append(self.var(aid) >= z3.RealVal(str(to_frac(a.lo))))
            if a.hi is not None:
                out.append(self.var(aid) <= z3.RealVal(str(to_frac(a.hi))))
            if a.kind == "sqrt":
                # s*s == e, denominators cleared (p_mul would fold s*s back into e)
                e, = [P.p_clear(a.arg, True)] if not any(x < 0 for m in a.arg for _, x in m) else [None]
                if e is not None:
                    s = self.var(aid)
                    out.append(s * s == self.poly(e))
                else:
                    d = p_den(a.arg)
                    num = P.p_mul(a.arg, d)
                    num = P.p_clear(num, True) if any(x < 0 for m in num for _, x in m) else num
                    s = self.var(aid)
                    out.append(s * s * self.poly(d) == self.poly(num))
            for g in a.axioms:
                out.append(self.f(g))
        return out


def p_den(p):
    neg = {}
    for m in p:
        for a, e in m:
            if e < 0 and e < neg.get(a, 0):
                neg[a] = e
    r = {(): ONE}
    for a, e in neg.items():
        at = T.atoms[a]
        base = at.arg if at.kind == "rec" else {((a, 1),): ONE}
        r = P.p_mul(r, P.p_pow(base, -e))
    return r


# ------------------------------------------------------------------------------ engine
class Stats:
    def __init__(self):
        self.paths = self.queries = self.sat = self.unsat = self.unknown = 0
        self.solver_s = 0.0
        self.obligations = self.discharged = self.folded = 0
        self.forks = 0
        self.aborted = 0
        self.events = 0
        self.labels = {}
        self.reached = {}

    def as_dict(self):
        return dict(self.__dict__)


class Engine:
    def __init__(self):
        self.enc = None
        self.timeout_ms = 20000
        self.reset()

    def reset(self):
        P.T.reset()
        P._icache.clear()
        f_closure.__defaults__[0].clear()
        self.enc = Z3Enc()
        self.stats = Stats()
        self.active = False
        self.dead = None
        self.formats = []
        self.rounds = {}
        self.choices = set()
        self.grid = None
        self.ident = {}

    # -------------------------------------------------- solver
    def solve(self, fs, want_model=True, timeout=None, extra=()):
        """fs: list of formulas. returns ('sat', {aid: Fraction|float}) | ('unsat', None) | ('unknown', None)"""
        st = self.stats
        atoms = set()
        for f in fs:
            atoms |= f_closure(f)
        s = z3.Solver()
        s.set("timeout", int(timeout or self.timeout_ms))
        s.add(self.enc.axioms(atoms))
        for f in fs:
            s.add(self.enc.f(f))
        for e in extra:
            s.add(e)
        t0 = time.time()
        r = s.check()
        if r == z3.unknown:
            # second opinion: the nlsat tactic
            try:
                s2 = z3.Then("simplify", "propagate-values", "solve-eqs", "qfnra-nlsat").solver()
                s2.set("timeout", int(timeout or self.timeout_ms))
                s2.add(s.assertions())
                r = s2.check()
                s = s2
            except z3.Z3Exception:
                pass
        st.solver_s += time.time() - t0
        st.queries += 1
        if r == z3.unsat:
            st.unsat += 1
            return "unsat", None
        if r == z3.unknown:
            st.unknown += 1
            return "unknown", None
        st.sat += 1
        if not want_model:
            return "sat", None
        m = s.model()
        out = {}
        for aid in atoms:
            if T.atoms[aid].kind in ("rec", "sqrt"):
                continue
            v = self.enc.vars.get(aid)
            if v is None:
                continue
            mv = m.eval(v, model_completion=True)
            out[aid] = z3_num(mv)
        return "sat", out

    def slice(self, f):
        """constraints of the path condition that share variables (transitively) with f"""
        atoms = set(f_closure(f))
        rest = list(self.pc)
        res = []
        changed = True
        while changed:
            changed = False
            nr = []
            for g in rest:
                c = f_closure(g)
                if c & atoms:
                    if not c <= atoms:
                        atoms |= c
                    res.append(g)
                    changed = True
                else:
                    nr.append(g)
            rest = nr
        return res

    # -------------------------------------------------- path exploration
    def explore(self, fn, max_paths=100000, deadline=None, on_violation=None, progress=None):
        """run fn() on every feasible path. returns list of violation candidates"""
        self.violations = []
        self.inconclusive = []
        self.on_violation = on_violation
        work = [([], [], {})]            # (decision prefix, path condition of the prefix, model)
        self.truncated = None
        self.active = True
        try:
            while work:
                if self.stats.paths >= max_paths:
                    self.truncated = "max_paths %d reached, %d prefixes left" % (max_paths, len(work))
                    break
                if deadline and time.time() > deadline:
                    self.truncated = "deadline reached, %d prefixes left" % len(work)
                    break
                prefix, pc, model = work.pop()
                if pc and model is None:
                    # pending: pc's last element not yet known to be satisfiable
                    self.pc = pc[:-1]
                    last = pc[-1]
                    v, m = self.solve(self.slice(last) + [last])
                    if v == "unsat":
                        continue
                    base = dict(prefix[-1][3]) if len(prefix[-1]) > 3 else {}
                    if v == "sat":
                        base.update(m)
                    model = base
                self.prefix = prefix
                self.pos = 0
                self.trace = []
                self.pc = []
                self.pckeys = {}
                self.model = dict(model or {})
                self.base = dict(model or {})
                self.work = work
                self.nonce = 0
                self.stats.paths += 1
                self.formats = []
                self.rounds = {}
                self.dead = None
                try:
                    fn()
                    if self.dead is not None:
                        raise self.dead
                except PathAbort:
                    self.stats.aborted += 1
                except Event as e:
                    self.stats.events += 1
                    self.record_violation("event:" + e.label, TRUE)
                if progress:
                    progress(self)
                if self.stop_now:
                    break
        finally:
            self.active = False
        if not self.stop_now:
            self.flush()
        return self.violations

    stop_now = False

    def set_model(self, m):
        b = dict(self.base)
        b.update(m)
        self.base = b
        self.model = dict(b)

    def add_pc(self, f):
        if f[0] == "and":
            for g in f[1]:
                self.add_pc(g)
            return
        self.pc.append(f)
        self.pckeys[f_key(f)] = True

    def decide(self, f):
        if f[0] == "true":
            return True
        if f[0] == "false":
            return False
        if not self.active:
            raise Unsupported("symbolic branch outside an exploration")
        if self.dead is not None:
            raise self.dead
        k = f_key(f)
        v = self.known(f, k)
        if v is not None:
            return v
        # decisions made within the replayed prefix
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            v = d[1]
            if d[0] != "b":
                raise RuntimeError("non-deterministic re-execution")
            self.trace.append(("b", v))
            self.add_pc(f if v else f_not(f))
            return v
        v = f_eval(f, self.model)
        self.stats.forks += 1
        alt = f_not(f) if v else f
        # an algebraically impossible alternative is cheap to rule out now; others wait in the worklist
        self.work.append((self.trace + [("b", not v, None, self.base)], self.pc + [alt], None))
        self.trace.append(("b", v))
        self.add_pc(f if v else f_not(f))
        return v

    def known(self, f, k=None):
        if f[0] in ("and", "or"):
            return None
        k = k or f_key(f)
        ks = self.pckeys
        if k in ks:
            return True
        nf = f_not(f)
        nk = f_key(nf)
        if nk in ks:
            return False
        rel, key = k
        if rel == "le" and (("lt", key) in ks or ("eq", key) in ks):
            return True
        if rel == "eq":
            neg = P.p_key(P.p_scale(f[1], -ONE))
            if ("eq", neg) in ks:
                return True
            if ("lt", key) in ks or ("lt", neg) in ks or ("ne", neg) in ks:
                return False
        if rel == "ne":
            neg = P.p_key(P.p_scale(f[1], -ONE))
            if ("lt", key) in ks or ("lt", neg) in ks or ("ne", neg) in ks:
                return True
            if ("eq", neg) in ks:
                return False
        if rel in ("le", "lt"):
            neg = P.p_key(P.p_scale(f[1], -ONE))
            if rel == "le" and ("eq", neg) in ks:
                return True
            if rel == "lt":
                if ("eq", key) in ks or ("eq", neg) in ks or ("lt", neg) in ks or ("le", neg) in ks:
                    return False
            elif ("lt", neg) in ks:
                return False
        return None

    def floor(self, x):
        if x.is_const():
            return math.floor(x.cval())
        lo, hi = P.p_interval(x.p)
        if lo > -1e15 and hi < 1e15:
            a, b = math.floor(lo + 1e-9), math.floor(hi - 1e-9)
            if a == b and math.floor(lo) == a and math.floor(hi) == a:
                return a
        for _ in range(10000):
            if self.pos < len(self.prefix):
                d = self.prefix[self.pos]
                self.pos += 1
                if d[0] != "f":
                    raise RuntimeError("non-deterministic re-execution")
                k, v = d[2], d[1]
                inside = f_and([f_rel("le", (R.const(k) - x).p), f_rel("lt", (x - k - 1).p)])
                self.trace.append(("f", v, k))
                self.add_pc(inside if v else f_not(inside))
                if v:
                    return k
                continue
            mv = P.p_eval(x.p, self.model)
            k = math.floor(mv)
            inside = f_and([f_rel("le", (R.const(k) - x).p), f_rel("lt", (x - k - 1).p)])
            if inside[0] == "true":
                return k
            if inside[0] == "false":
                raise PathAbort("floor hint inconsistent")
            self.stats.forks += 1
            self.work.append((self.trace + [("f", False, k, self.base)], self.pc + [f_not(inside)], None))
            self.trace.append(("f", True, k))
            self.add_pc(inside)
            return k
        raise Inconclusive("floor: too many values")

    def choose(self, name, lo, hi):
        """a symbolic integer in [lo, hi], concretised by forking"""
        a = T.new("var", ("var", name), name, None, lo, hi)
        self.choices.add(name)
        if self.pos < len(self.prefix):
            d = self.prefix[self.pos]
            self.pos += 1
            if d[0] != "c":
                raise RuntimeError("non-deterministic re-execution")
            k = d[1]
        else:
            k = lo
            for j in range(hi, lo, -1):
                self.work.append((self.trace + [("c", j)], list(self.pc), self.with_base(a.id, j)))
            self.stats.forks += hi - lo
        self.trace.append(("c", k))
        self.base = dict(self.base)
        self.base[a.id] = Fraction(k)
        self.model[a.id] = Fraction(k)
        return k

    def with_base(self, aid, k):
        b = dict(self.base)
        b[aid] = Fraction(k)
        return b

    def real(self, name, lo=None, hi=None):
        a = T.byname.get(("var", name))
        if a is None:
            a = T.new("var", ("var", name), name, None,
                      None if lo is None else to_frac(lo), None if hi is None else to_frac(hi))
            if a.lo is not None and a.lo == a.hi:
                pass
        return R({((a.id, 1),): ONE})

    def fresh(self, prefix, lo=None, hi=None):
        self.nonce += 1
        return self.real("%s#%d" % (prefix, self.nonce), lo, hi)

    def assume(self, c):
        f = b_of(c)
        if f[0] == "true":
            return
        if f[0] == "false":
            raise PathAbort("assume false")
        if self.known(f) is True:
            return
        inprefix = self.pos < len(self.prefix)
        if f_eval(f, self.model):
            self.add_pc(f)
            return
        if self.known(f) is False:
            raise PathAbort("assume false")
        v, m = self.solve(self.slice(f) + [f])
        if v == "unsat":
            raise PathAbort("assume infeasible")
        self.add_pc(f)
        if v == "sat":
            # keep later decisions of a replayed prefix consistent: the prefix model already satisfied them
            self.set_model(m)

    def check(self, c, label):
        """obligation: c holds for every input on this path"""
        if self.dead is not None:
            raise self.dead
        st = self.stats
        st.obligations += 1
        st.labels[label] = st.labels.get(label, 0) + 1
        if self.pos < len(self.prefix):
            # decided already on the path this one was forked from
            f = b_of(c)
            st.obligations -= 1
            st.labels[label] -= 1
            return
        f = b_of(c)
        if f[0] == "true":
            st.folded += 1
            st.discharged += 1
            return
        nf = f_not(f)
        if f[0] != "false" and self.known(f) is True:
            st.folded += 1
            st.discharged += 1
            return
        v, m = self.solve(self.slice(nf) + [nf])
        if v == "unsat":
            st.discharged += 1
            return
        if v == "unknown":
            # maybe the path model itself refutes the condition
            if not f_eval(f, self.model):
                self.record_violation(label, nf, None)
                raise PathAbort("violation")
            self.inconclusive.append(label)
            return
        self.record_violation(label, nf, m)
        raise PathAbort("violation")

    def check_eq(self, a, b, label):
        d = R.lift(a) - R.lift(b)
        if isinstance(d, Ext):
            self.check(isinstance(a, (R, float)) and isinstance(b, (R, float)) and (R.lift(a) == R.lift(b)) is True, label)
            return
        if not d.p and self.pos >= len(self.prefix):
            pa = R.lift(a).p
            if pa and (len(pa) > 1 or () not in pa):
                # equal normal forms: the solver confirms the identity at the end of the exploration
                self.ident.setdefault(frozenset(pa.items()), (pa, R.lift(b).p))
        if d.p and all(abs(c) < TINY for c in d.p.values()):
            # constants the machine rounded (1/3, sqrt(3)): equal up to 1e-9
            self.check(mkbool(f_and([f_rel("le", P.p_add(d.p, {(): TOL}, -1)), f_rel("le", P.p_add(P.p_scale(d.p, -ONE), {(): TOL}, -1))])), label)
            return
        self.check(mkbool(f_rel("eq", d.p)), label)

    def flush(self):
        """identities closed by the normal form, confirmed by the solver for all values of all atoms"""
        todo, self.ident = list(self.ident.values()), {}
        todo = [q for q in todo if len(q[0]) <= 2000]
        for i in range(0, len(todo), 400):
            fs = [self.enc.free(a) != self.enc.free(b) for a, b in todo[i:i + 400]]
            v, _ = self.solve([], want_model=False, extra=[z3.Or(fs)])
            if v == "sat":
                raise RuntimeError("normal form and solver disagree on an identity")

    def reach(self, label):
        """vacuity witness: this point must be reached on some path whose condition is satisfiable"""
        self.stats.reached[label] = self.stats.reached.get(label, 0) + 1

    def record_violation(self, label, nf, model=None):
        base = dict(self.base)
        if model:
            base.update(model)
        # the whole path condition together with the negated obligation must be satisfiable
        cands = []
        full = self.pc + ([nf] if nf[0] != "true" else [])
        v, m = self.solve(full) if full else ("sat", {})
        if v == "unsat":
            # path infeasible (a hint was wrong): nothing to report
            self.stats.discharged += 1
            return
        if v == "sat":
            b2 = dict(self.base)
            b2.update(m)
            cands.append(b2)
        cands.append(base)
        viol = {"label": label, "models": [self.export(c) for c in cands], "pc": list(self.pc), "nf": nf,
                "trace": list(self.trace)}
        # more candidate models, nicer numbers first
        viol["models"] = self.nice_models(full) + viol["models"]
        self.violations.append(viol)
        if self.on_violation and self.on_violation(viol):
            self.stop_now = True

    def nice_models(self, fs):
        """models with dyadic input values and, for disequalities, a visible margin"""
        out = []
        atoms = set()
        for f in fs:
            atoms |= f_closure(f)
        vs = [a for a in sorted(atoms) if T.atoms[a].kind == "var"]
        margin = []
        for f in fs[-1:]:
            if f[0] == "ne":
                t = self.enc.poly(f[1])
                margin = [z3.Or(t > z3.RealVal("1/100"), t < z3.RealVal("-1/100"))]
            elif f[0] == "lt":
                margin = [self.enc.poly(f[1]) < z3.RealVal("-1/100")]
        tries = []
        for den in (2, 8):
            ints = [z3.ToReal(z3.Int("n!%d" % a)) == self.enc.var(a) * den for a in vs]
            tries.append(ints + margin)
        tries.append(margin)
        for den in (16, 64):
            ints = [z3.ToReal(z3.Int("n!%d" % a)) == self.enc.var(a) * den for a in vs]
            tries.append(ints)
        for extra in tries:
            if not extra:
                continue
            v, m = self.solve(fs, timeout=4000, extra=extra)
            if v == "sat":
                b = dict(self.base)
                b.update(m)
                e = self.export(b)
                if e not in out:
                    out.append(e)
        return out

    def export(self, base):
        out = {}
        for aid, v in base.items():
            a = T.atoms[aid]
            if a.kind == "var":
                out[a.name] = [float(v), str(v)]
        for a in T.atoms:
            if a.kind == "var" and a.name not in out:
                v = P.a_eval(a.id, {})
                out[a.name] = [float(v), str(v)]
        return out

    # tokens for text formatting, installed by the text shim
    def format_hook(self, r, spec):
        raise Unsupported("formatting a symbolic value")


def z3_num(v):
    if z3.is_rational_value(v):
        return Fraction(v.numerator_as_long(), v.denominator_as_long())
    if z3.is_algebraic_value(v):
        a = v.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    if z3.is_int_value(v):
        return Fraction(v.as_long())
    return Fraction(0)


ENG = Engine()
