"""Python smooth descriptor: values and derivatives"""
import types
from engine.runner import Case
from checks.common import REAL
from checks.pyh import *
from checks.pysys import SYS, make, within, off_cutoff, Z
from fractions import Fraction as Q
ASSUMPTIONS = [REAL, PYA, "neighbours keep a positive distance from the centre", "0 < rcut_smooth < rcut"]
SET = mods("matersdk.feature.deepmd.se")


def rows(env, x, r, r2, rc, rs):
    """documented row of one neighbour"""
    if r2 >= rc * rc:
        s = num(env, 0)
    elif r2 <= rs * rs:
        s = 1 / r
    else:
        u = (r - rs) / (rc - rs)
        s = (u * u * u * (-6 * u * u + 15 * u - 10) + 1) / r
    return [s] + [s * v / r for v in x]


def direct(env):
    """neighbour tables handed to the descriptor directly: all three components symbolic"""
    np = pyshim.NPX if not env.concrete else __import__("numpy")
    SP = imp(env, "matersdk.feature.deepmd.se_pair").DpseTildeRPairDescriptor
    rc, rs = num(env, 4), num(env, 2)
    ax = env.params["axes"]
    base = [[num(env, Q(v)) for v in p] for p in ((Q(1, 2), 1, Q(-1, 4)), (1, -1, Q(3, 2)))]
    c0 = [num(env, Q(v)) for v in (Q(1, 4), 1, 2)]
    x = [env.real("xyz"[k], -5, 5) if ax >> k & 1 else base[0][k] for k in range(3)]
    r2 = x[0] * x[0] + x[1] * x[1] + x[2] * x[2]
    env.assume(r2 >= num(env, Q(1, 16)))
    if env.params["band"] == 0:
        env.assume(r2 < rs * rs)
    elif env.params["band"] == 1:
        env.assume(r2 > rs * rs)
        env.assume(r2 < rc * rc)
    else:
        env.assume(r2 > rc * rc)
    r = np.sqrt(r2)
    q = base[1]
    qr = np.sqrt(q[0] * q[0] + q[1] * q[1] + q[2] * q[2])
    zero3 = [num(env, 0)] * 3
    # two centres of species 8 and one of species 1; the moving neighbour (species 1) sits in slot 2 of the first centre
    f = lambda v: add(v, c0)
    nb = types.SimpleNamespace(
        key_nbr_atomic_numbers=np.array([[1, 8, 8], [8, 8, 1], [8, 1, 0]]) * num(env, 1),
        key_nbr_distances=np.array([[num(env, 0), qr, qr], [num(env, 0), qr, r], [num(env, 0), qr, num(env, 0)]]),
        key_nbr_coords=np.array([[c0, f(q), f(q)], [c0, f(q), f(x)], [c0, f(q), zero3]]))
    d = SP.create("v1", structure_neighbors=nb, center_atomic_number=8, nbr_atomic_number=1, rcut=rc, rcut_smooth=rs)
    w = 3
    T = d.get_tildeR(max_num_nbrs=w)
    D = d.calc_derivative(max_num_nbrs=w)
    env.check(T.shape == (2, w, 4) and D.shape == (2, w, 4, 3), "shape of the descriptor")
    want = [rows(env, x, r, r2, rc, rs), rows(env, q, qr, q[0] * q[0] + q[1] * q[1] + q[2] * q[2], rc, rs)]
    for i in range(2):
        for k in range(w):
            for a in range(4):
                if k == 0:
                    env.check_eq(T[i][0][a], want[i][a], "row of a neighbour")
                else:
                    env.check_eq(T[i][k][a], 0, "padding row")
                for j in range(3):
                    if k:
                        env.check_eq(D[i][k][a][j], 0, "padding derivative")
                    elif i == 0 and ax >> j & 1:
                        # derivatives are with respect to the centre's position
                        env.deriv(T[0][0][a], "xyz"[j], -D[0][0][a][j], "derivative %d %d" % (a, j))
    env.reach("end")


def system(env):
    DS = imp(env, "matersdk.io.publicLayer.structure").DStructure
    N = imp(env, "matersdk.io.publicLayer.neigh")
    SE = imp(env, "matersdk.feature.deepmd.se").DpseTildeRDescriptor
    np = pyshim.NPX if not env.concrete else __import__("numpy")
    y = make(env, DS, env.params["sys"], False)
    off_cutoff(env, y)
    rc = y.rcut if env.params["rc"] == 0 else num(env, 2)
    rs = num(env, Q(3, 2))
    nb = N.StructureNeighborsDescriptor.create("v1", structure=y.structure, rcut=y.rcut, scaling_matrix=y.scaling)
    zs = sorted(set(y.z))
    ctr = zs[::-1] if env.params["rev"] else zs
    lists = {c: within(y, c) for c in y.centres}
    sel = [max(sum(1 for q in l if q[1] == z) for l in lists.values()) + 1 + i for i, z in enumerate(zs)]
    out = SE.create("v1", structure_neighbors=nb, center_atomic_numbers_lst=ctr, nbr_atomic_numbers_lst=zs, sel=sel,
                    rcut=rc, rcut_smooth=rs).get_tildeR()
    total = sum(sum(1 for c in y.centres if y.z[c] == zc) * s * 4 for zc in ctr for s in sel)
    env.check(tuple(out.shape) == (total,), "length of the descriptor", info=(out.shape, total))
    pos = 0
    for zc in ctr:
        for t, zn in enumerate(zs):
            for c in [c for c in y.centres if y.z[c] == zc]:
                want = []
                for a, z, x, d2 in lists[c]:
                    if z == zn:
                        want.append((0, rows(env, [p - q for p, q in zip(x, y.cart[c])], np.sqrt(d2), d2, rc, rs)))
                n = len(want)
                for k in range(sel[t]):
                    row = [out[pos + a] for a in range(4)]
                    pos += 4
                    if k < n:
                        want.pop(match(env, 0, row, want, "row of every neighbour, once"))
                    else:
                        for v in row:
                            env.check_eq(v, 0, "padding row")
    env.reach("end")


FN = ["se_pair.py: get_tildeR, _get_s, _get_tildeR, calc_derivative, _calc_derivative; premise.py: extract_feature_pair", "se.py: get_tildeR; se_pair.py; premise.py; neigh.py"]


def cases(tier):
    out = []
    for ax in (1, 2, 4, 7) if tier == "quick" else (1, 2, 4, 3, 5, 6, 7):
        for band in (0, 1, 2):
            out.append(Case("direct_%d_%d" % (ax, band), fn=direct, setup=SET, params=dict(axes=ax, band=band), reach=["end"], functions=FN[:1], budget=600,
                            bounds="neighbour components (mask %d) symbolic in [-5,5], distance %s" % (ax, ("below rcut_smooth", "between the cutoffs", "beyond rcut")[band])))
    for s in SYS:
        if s in ("cube",) or (tier == "quick" and s in ("four",)):
            continue
        for rcm in (0, 1) if s != "crowd" or tier != "quick" else (0,):
            out.append(Case("system_%s_%d" % (s, rcm), fn=system, setup=SET, params=dict(sys=s, rc=rcm, rev=rcm), reach=["end"], functions=FN[1:], budget=600,
                            bounds="system %s, marked coordinate symbolic, descriptor cutoff %s the list cutoff" % (s, ("equal to", "below")[rcm])))
    return out
