"""small periodic systems with symbolic degrees of freedom, shared by the Python neighbour/descriptor checks"""
from fractions import Fraction as Q
from checks.pyh import *

Z = {"H": 1, "Li": 3, "O": 8, "Si": 14}
LATS = {"ortho": [[3, 0, 0], [0, 4, 0], [0, 0, 5]],
        "hex": [[4, 0, 0], [-2, Q(7, 2), 0], [0, 0, 9]],
        "tri": [[3, Q(1, 2), 0], [-1, 4, Q(1, 2)], [1, -1, 6]],
        "wide": [[9, 0, 0], [0, 9, 0], [0, 0, 9]],
        "left": [[0, 4, 0], [3, 0, 0], [0, 0, 5]]}
# name: (lattice, scaling, rcut, [(element, frac coords, symbolic axes)])
SYS = {
    "one": ("ortho", (3, 1, 1), Q(16, 5), [("Li", (0, 0, 0), "x")]),
    "pair": ("ortho", (3, 3, 1), Q(14, 5), [("Si", (0, 0, 0), ""), ("Li", (Q(1, 4), Q(1, 4), Q(1, 2)), "x")]),
    "same": ("hex", (3, 3, 1), Q(13, 4), [("Li", (Q(1, 8), 0, 0), ""), ("Li", (Q(1, 4), Q(1, 2), 0), "y")]),
    "unsorted": ("ortho", (3, 1, 1), Q(5, 2), [("Si", (0, 0, 0), ""), ("H", (Q(1, 2), Q(1, 4), 0), "x"), ("Li", (Q(1, 4), Q(3, 4), Q(1, 2)), "")]),
    "tri": ("tri", (3, 3, 1), 3, [("O", (0, 0, 0), ""), ("H", (Q(1, 4), Q(1, 4), Q(1, 8)), "y")]),
    "zaxis": ("left", (1, 1, 3), 4, [("H", (0, 0, Q(1, 8)), ""), ("Li", (Q(1, 2), 0, Q(1, 4)), "z"), ("H", (Q(1, 2), Q(1, 2), Q(3, 4)), "")]),
    "outside": ("ortho", (3, 3, 1), Q(14, 5), [("Li", (Q(-1, 4), 0, 0), ""), ("H", (Q(5, 4), Q(1, 4), 0), "y")]),
    "cube": ("ortho", (3, 3, 3), 3, [("Li", (0, 0, 0), ""), ("Si", (Q(1, 2), Q(1, 4), Q(1, 4)), "")]),
    "four": ("ortho", (3, 1, 1), Q(9, 4), [("O", (0, 0, 0), ""), ("H", (Q(1, 4), 0, Q(1, 8)), "x"), ("O", (Q(1, 2), Q(1, 2), 0), ""), ("H", (Q(1, 2), Q(1, 4), Q(1, 2)), "")]),
}
import itertools
_E = ["Li", "H", "O", "H", "Si", "Li", "H", "O", "Li", "H", "H", "Li"]
SYS["crowd"] = ("wide", (1, 1, 1), Q(9, 2), [(e, (Q(p[0], 3) + Q(i % 5, 97), Q(p[1], 3) + Q(i % 7, 83), Q(p[2], 3) + Q(i % 3, 71)), "z" if i == 4 else "")
                                             for i, (e, p) in enumerate(zip(_E, itertools.product((0, 1), (0, 1), (0, 1, 2))))])


class System:
    pass


def make(env, DS, name, rsym=False, span=None, mind=Q(1, 10), table=None):
    """a DStructure whose marked coordinates (or cutoff) are symbolic; no two images coincide"""
    lat, scaling, rcut, atoms = (table or SYS)[name]
    y = System()
    span = span or ((Q(2, 5), Q(3, 5)) if name == "crowd" else (0, 1))
    y.name, y.scaling = name, list(scaling)
    y.lat = [[num(env, v) for v in r] for r in LATS[lat]]
    y.el = [a[0] for a in atoms]
    y.z = [Z[e] for e in y.el]
    y.fr = []
    moving = []
    for i, (e, f, ax) in enumerate(atoms):
        row = []
        for k in range(3):
            if "xyz"[k] in ax and not rsym:
                row.append(env.real("u%d%d" % (i, k), *span))
                moving.append(i)
            else:
                row.append(num(env, f[k]))
        y.fr.append(row)
    y.rcut = env.real("rcut", Q(1, 2), Q(9, 2)) if rsym else num(env, rcut)
    y.cart = [frac2cart(f, y.lat) for f in y.fr]
    y.img = images(scaling)
    y.n = len(y.el)
    # every image of every atom: (owner, Z, coordinates)
    y.all = [(a, y.z[a], add(y.cart[a], frac2cart([num(env, v) for v in s], y.lat)), s) for s in y.img for a in range(y.n)]
    for c in set(moving):
        for a in range(y.n):
            if a != c:
                for s in y.img:
                    d2 = dist2(y.cart[c], add(y.cart[a], frac2cart([num(env, v) for v in s], y.lat)))
                    env.assume(d2 >= num(env, mind * mind))
    y.structure = DS(lattice=y.lat, species=y.el, coords=y.fr)
    # centres come in the order of the atomic numbers (stable)
    y.centres = sorted(range(y.n), key=lambda i: y.z[i])
    return y


def dist2(a, b):
    d = [p - q for p, q in zip(a, b)]
    return d[0] * d[0] + d[1] * d[1] + d[2] * d[2]


def within(y, c):
    """images closer than the cutoff to centre c, the centre itself left out: [(owner, Z, coords, d2)]"""
    out = []
    for a, z, x, s in y.all:
        if a == c and s == (0, 0, 0):
            continue
        d2 = dist2(x, y.cart[c])
        if d2 <= y.rcut * y.rcut:
            out.append((a, z, x, d2))
    return out


def off_cutoff(env, y):
    """in a replay, distances that equal the cutoff up to rounding are ties of floating-point arithmetic"""
    if env.concrete and not env.ties:
        for c in range(y.n):
            for a, z, x, s in y.all:
                env.assume(abs(dist2(x, y.cart[c]) - y.rcut ** 2) > 1e-9)
