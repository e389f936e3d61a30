"""Exact symbolic reals: Laurent polynomials over Q whose indeterminates ("atoms") are
   input variables, square roots, reciprocals of multi-term polynomials, and applications of
   uninterpreted functions.  Everything is interned, so a term built twice is the same term."""
from fractions import Fraction
import math

ZERO = Fraction(0)
ONE = Fraction(1)


class Atom:
    __slots__ = ("id", "kind", "name", "arg", "lo", "hi", "axioms", "deps", "fname")

    def __init__(self, id, kind, name, arg=None, lo=None, hi=None):
        self.id, self.kind, self.name, self.arg = id, kind, name, arg
        self.lo, self.hi = lo, hi
        self.axioms = []      # list of (rel, R) known to hold for this atom
        self.deps = frozenset()
        self.fname = None


class Table:
    def __init__(self):
        self.reset()

    def reset(self):
        self.atoms = []
        self.byname = {}
        self.cache = {}

    def new(self, kind, key, name, arg=None, lo=None, hi=None):
        a = self.byname.get(key)
        if a is not None:
            return a
        a = Atom(len(self.atoms), kind, name, arg, lo, hi)
        self.atoms.append(a)
        self.byname[key] = a
        return a


T = Table()


def to_frac(x):
    """Concrete number -> Fraction; doubles are read as the short decimal they print as."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, float):
        if x != x or x in (math.inf, -math.inf):
            raise NonFinite(x)
        if x.is_integer():
            return Fraction(int(x))
        return Fraction(repr(float(x)))
    # numpy scalars
    it = getattr(x, "item", None)
    if it is not None:
        return to_frac(x.item())
    raise TypeError("not a number: %r" % (type(x),))


class NonFinite(Exception):
    pass


# --------------------------------------------------------------------------------------
# polynomials as dict {monomial: Fraction}; monomial = tuple of (atom_id, exp) sorted
# --------------------------------------------------------------------------------------
def p_add(a, b, sb=1):
    if not b:
        return a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m)
        if v is None:
            r[m] = c if sb == 1 else -c
        else:
            v = v + c if sb == 1 else v - c
            if v == 0:
                del r[m]
            else:
                r[m] = v
    return r


def p_scale(a, c):
    if c == 0:
        return {}
    if c == 1:
        return a
    return {m: v * c for m, v in a.items()}


def m_mul(m1, m2):
    """product of monomials; returns (monomial, list of (sqrt atom, k)) where s^(2k) must be expanded"""
    if not m1:
        return m2
    if not m2:
        return m1
    i = j = 0
    n1, n2 = len(m1), len(m2)
    out = []
    while i < n1 and j < n2:
        a1, e1 = m1[i]
        a2, e2 = m2[j]
        if a1 == a2:
            e = e1 + e2
            if e:
                out.append((a1, e))
            i += 1
            j += 1
        elif a1 < a2:
            out.append(m1[i])
            i += 1
        else:
            out.append(m2[j])
            j += 1
    if i < n1:
        out.extend(m1[i:])
    if j < n2:
        out.extend(m2[j:])
    return tuple(out)


def m_needs(m):
    atoms = T.atoms
    for a, e in m:
        if e >= 2 and atoms[a].kind == "sqrt":
            return True
        if e >= 1 and atoms[a].kind == "rec":
            return True
    return False


def m_expand(m):
    """monomial with sqrt^>=2 or rec^>=1 -> polynomial"""
    atoms = T.atoms
    keep = []
    factors = []
    for a, e in m:
        k = atoms[a].kind
        if k == "sqrt" and e >= 2:
            if e & 1:
                keep.append((a, 1))
            factors.append((atoms[a].arg, e // 2))
        elif k == "rec" and e >= 1:
            factors.append((atoms[a].arg, e))
        else:
            keep.append((a, e))
    r = {tuple(keep): ONE}
    for p, n in factors:
        r = p_mul(r, p_pow(p, n))
    return r


def p_mul(a, b):
    if not a or not b:
        return {}
    if len(a) == 1 and () in a:
        return p_scale(b, a[()])
    if len(b) == 1 and () in b:
        return p_scale(a, b[()])
    r = {}
    ext = None
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            c = c1 * c2
            if m and m_needs(m):
                if ext is None:
                    ext = {}
                ext[m] = ext.get(m, ZERO) + c
                continue
            v = r.get(m)
            if v is None:
                r[m] = c
            else:
                v = v + c
                if v == 0:
                    del r[m]
                else:
                    r[m] = v
    if ext:
        for m, c in ext.items():
            if c:
                r = p_add(r, p_scale(m_expand(m), c))
    return r


def p_pow(p, n):
    r = {(): ONE}
    b = p
    while n:
        if n & 1:
            r = p_mul(r, b)
        n >>= 1
        if n:
            b = p_mul(b, b)
    return r


def p_key(p):
    return tuple(sorted(p.items()))


def p_atoms(p, acc=None):
    acc = set() if acc is None else acc
    for m in p:
        for a, _ in m:
            acc.add(a)
    return acc


def p_closure(p):
    """all atoms p depends on, transitively (through sqrt/rec/uf arguments)"""
    seen = set()
    st = list(p_atoms(p))
    while st:
        a = st.pop()
        if a in seen:
            continue
        seen.add(a)
        at = T.atoms[a]
        if at.kind in ("sqrt", "rec"):
            st.extend(p_atoms(at.arg))
        elif at.kind == "uf":
            for q in at.arg:
                st.extend(p_atoms(q))
        for f in at.axioms:
            st.extend(f_atoms_direct(f))
    return seen


def f_atoms_direct(f):
    if f[0] in ("and", "or"):
        r = set()
        for g in f[1]:
            r |= f_atoms_direct(g)
        return r
    if f[0] in ("true", "false"):
        return set()
    return p_atoms(f[1])


# ------------------------------------------------------------------ intervals (floats)
INF = math.inf


def i_mul(a, b):
    c = []
    for x in a:
        for y in b:
            if x == 0 or y == 0:
                c.append(0.0)
            else:
                c.append(x * y)
    return min(c), max(c)


def i_pow(a, n):
    lo, hi = a
    if n < 0:
        if lo > 0 or hi < 0:
            lo, hi = sorted((1.0 / lo if lo not in (INF, -INF) else 0.0, 1.0 / hi if hi not in (INF, -INF) else 0.0))
            n = -n
        elif lo >= 0:
            lo, hi = (1.0 / hi if hi not in (INF, 0.0) else 0.0), INF
            n = -n
        else:
            return (-INF, INF) if n & 1 else (0.0, INF)
    try:
        if n % 2 == 0:
            if lo >= 0:
                return lo ** n, hi ** n
            if hi <= 0:
                return hi ** n, lo ** n
            return 0.0, max(lo ** n, hi ** n)
        return lo ** n, hi ** n
    except OverflowError:
        return -INF, INF


_icache = {}


def a_interval(aid):
    v = _icache.get(aid)
    if v is not None:
        return v
    a = T.atoms[aid]
    lo = -INF if a.lo is None else float(a.lo)
    hi = INF if a.hi is None else float(a.hi)
    if a.kind == "sqrt":
        l2, h2 = p_interval(a.arg)
        lo = max(lo, 0.0, math.sqrt(l2) * (1 - 1e-12) if l2 > 0 else 0.0)
        hi = min(hi, math.sqrt(h2) * (1 + 1e-12) if 0 <= h2 < INF else INF)
    elif a.kind == "rec":
        l2, h2 = p_interval(a.arg)
        lo, hi = max(lo, l2), min(hi, h2)
    _icache[aid] = (lo, hi)
    return lo, hi


def p_interval(p):
    lo = hi = 0.0
    mag = 0.0
    for m, c in p.items():
        iv = (1.0, 1.0)
        for a, e in m:
            iv = i_mul(iv, i_pow(a_interval(a), e))
        cf = float(c)
        iv = i_mul(iv, (cf, cf))
        if iv[0] != iv[0] or iv[1] != iv[1]:
            return -INF, INF
        lo += iv[0]
        hi += iv[1]
        mag += max(abs(iv[0]), abs(iv[1]))
    s = mag * 1e-12 if mag < INF else 0.0
    if lo != lo or hi != hi:
        return -INF, INF
    return lo - s, hi + s


# ------------------------------------------------------------------ clearing denominators
def p_clear(p, eq=False):
    """multiply p by a positive (nonzero if eq) product of atoms so that no exponent is negative"""
    for _ in range(60):
        neg = {}
        for m in p:
            for a, e in m:
                if e < 0 and e < neg.get(a, 0):
                    neg[a] = e
        if not neg:
            return p
        mult = {(): ONE}
        for a, e in sorted(neg.items()):
            k = -e
            f = {((a, 1),): ONE}
            if not eq:
                lo, hi = a_interval(a)
                if T.atoms[a].kind == "sqrt" or lo >= 0:
                    pass
                elif hi <= 0:
                    f = {((a, 1),): -ONE}
                elif k & 1:
                    k += 1
            # a 'rec' atom raised to a positive power would expand at once: multiply lazily
            mult = {m_mul(m, ((a, k),)): c * (-1 if f[((a, 1),)] < 0 and k & 1 else 1) for m, c in mult.items()}
        mm, mc = next(iter(mult.items()))
        r = {}
        ext = {}
        for m, c in p.items():
            m2 = m_mul(m, mm)
            if m2 and m_needs(m2):
                ext[m2] = ext.get(m2, ZERO) + c * mc
            else:
                v = r.get(m2, ZERO) + c * mc
                if v == 0:
                    r.pop(m2, None)
                else:
                    r[m2] = v
        for m, c in ext.items():
            if c:
                r = p_add(r, p_scale(m_expand(m), c))
        p = r
    raise RuntimeError("p_clear did not terminate")


def p_inv(p):
    """1/p, p known non-zero"""
    if len(p) == 1:
        (m, c), = p.items()
        return {tuple((a, -e) for a, e in m): 1 / c}
    # factor out the common monomial
    common = None
    for m in p:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {a: min(e, d.get(a, 0)) for a, e in common.items()}
            for a, e in d.items():
                if a not in common and e < 0:
                    common[a] = e
    # atoms absent from an earlier monomial but negative elsewhere are handled by min with 0
    mins = {}
    atoms = set()
    for m in p:
        atoms |= {a for a, _ in m}
    for a in atoms:
        mins[a] = min(dict(m).get(a, 0) for m in p)
    cm = tuple(sorted((a, e) for a, e in mins.items() if e))
    inv_cm = tuple((a, -e) for a, e in cm)
    q = {m_mul(m, inv_cm): c for m, c in p.items()}
    lead = max(q)
    lc = q[lead]
    q = p_scale(q, 1 / lc)
    if any(m_needs(m) for m in q):
        qq = {}
        for m, c in q.items():
            qq = p_add(qq, p_scale(m_expand(m), c) if m_needs(m) else {m: c})
        q = qq
        if len(q) == 1:
            r = p_inv(q)
            return p_mul(p_scale(r, 1 / lc), {inv_cm: ONE})
    sq = T.cache.get(p_key(q))
    if sq is not None:                      # q = s*s/scale for a known square root s
        aid, scale = sq
        return p_mul({inv_cm: scale / lc}, {((aid, -2),): ONE})
    key = ("rec", p_key(q))
    a = T.new("rec", key, "rec%d" % len(T.atoms), q)
    return p_mul({inv_cm: 1 / lc}, {((a.id, -1),): ONE})


def note_sqrt(aid, p):
    """remember that atom aid squared is p, under p's normalised form"""
    if len(p) > 1:
        lc = p[max(p)]
        T.cache.setdefault(p_key(p_scale(p, 1 / lc)), (aid, lc))


def isqrt_exact(f):
    if f < 0:
        return None
    n, d = f.numerator, f.denominator
    a, b = math.isqrt(n), math.isqrt(d)
    if a * a == n and b * b == d:
        return Fraction(a, b)
    return None


# ------------------------------------------------------------------ evaluation in a model
def p_eval(p, model):
    """exact Fraction if possible, otherwise float"""
    exact = True
    tot = ZERO
    ftot = 0.0
    for m, c in p.items():
        v = c
        fl = False
        for a, e in m:
            x = a_eval(a, model)
            if isinstance(x, float) and not fl:
                v = float(v)
                fl = True
            if fl:
                x = float(x)
            if e < 0 and x == 0:
                return math.nan
            try:
                v = v * x ** e
            except OverflowError:
                return math.nan
        if fl:
            exact = False
            ftot += v
        else:
            tot += v
    if exact:
        return tot
    return ftot + float(tot)


def a_eval(aid, model):
    v = model.get(aid)
    if v is not None:
        return v
    a = T.atoms[aid]
    if a.kind == "var":
        v = Fraction(0)
        if a.lo is not None and a.hi is not None:
            v = (Fraction(a.lo) + Fraction(a.hi)) / 2
        elif a.lo is not None and v < a.lo:
            v = Fraction(a.lo)
        elif a.hi is not None and v > a.hi:
            v = Fraction(a.hi)
    elif a.kind == "sqrt":
        x = p_eval(a.arg, model)
        if isinstance(x, Fraction):
            r = isqrt_exact(x)
            v = r if r is not None else (math.sqrt(x) if x >= 0 else 0.0)
        else:
            v = math.sqrt(x) if x >= 0 else 0.0
    elif a.kind == "rec":
        v = p_eval(a.arg, model)
    elif a.kind == "uf":
        fn = UF_EVAL.get(a.fname)
        if fn is None:
            v = Fraction(0)
        else:
            try:
                v = float(fn(*[float(p_eval(q, model)) for q in a.arg]))
            except Exception:
                v = 0.0
    model[aid] = v
    return v


UF_EVAL = {"cos": math.cos, "sin": math.sin, "acos": lambda x: math.acos(max(-1.0, min(1.0, x))),
           "exp": math.exp, "log": math.log, "atan2": math.atan2, "asin": lambda x: math.asin(max(-1.0, min(1.0, x))),
           "tanh": math.tanh}
