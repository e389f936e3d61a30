"""averages over structures and trajectories: displacements, bond lengths, bond angles"""
import os
from engine.runner import Case
from engine.sym import ENG
from checks.common import REAL
from checks.pyh import *
from checks.pysys import SYS, make, within, off_cutoff, dist2, Z
from checks.mvgen import text, Frame
from checks.p18 import quiet
from fractions import Fraction as Q
ASSUMPTIONS = [REAL, PYA, TEXT, "atoms of the expanded cell keep a distance of at least 0.1", "arccos and exp are uninterpreted functions with cos(arccos(x)) = x",
               "at least one bond or angle of the requested kind exists", "multiprocessing pools run their calls one after another"]
SET = mods("matersdk.feature.avg.msd", "matersdk.feature.avg.avgbond", "matersdk.feature.avg.avgangle", "matersdk.io.pwmat.output.movement")
H = Q(1, 2)
# small clusters in a wide cell: the neighbour set of every centre is fixed, directions and lengths move
CL = {
    "two": ("wide", (1, 1, 1), 3, [("Si", (H, H, H), ""), ("Li", (Q(3, 4), H, H), ""), ("Li", (Q(2, 5), Q(7, 10), H), "z")]),
    "three": ("wide", (1, 1, 1), 3, [("Li", (Q(3, 4), H, H), ""), ("Si", (H, H, H), ""), ("Li", (H, Q(7, 10), H), "z"), ("Li", (Q(2, 5), Q(3, 10), Q(3, 5)), "")]),
    "mixed": ("wide", (1, 1, 1), 3, [("H", (Q(7, 10), H, H), ""), ("Si", (H, H, H), ""), ("Li", (H, Q(3, 4), H), "z"), ("H", (Q(3, 10), Q(2, 5), H), "")]),
    "twin": ("wide", (1, 1, 1), 2, [("O", (Q(1, 5), H, H), ""), ("H", (Q(1, 5), Q(3, 5), H), "z"), ("H", (Q(3, 10), Q(2, 5), H), ""), ("O", (Q(4, 5), H, H), ""), ("H", (Q(4, 5), Q(2, 5), H), "")]),
    "uneven": ("wide", (1, 1, 1), Q(3, 2), [("O", (Q(1, 5), H, H), ""), ("H", (Q(3, 10), H, H), ""), ("Li", (Q(1, 5), Q(31, 50), H), "z"), ("O", (Q(4, 5), H, H), ""), ("H", (Q(9, 10), H, H), ""),
                                            ("Li", (Q(4, 5), Q(2, 5), Q(11, 20)), ""), ("Li", (Q(4, 5), H, Q(2, 5)), ""), ("H", (Q(1, 10), Q(9, 20), H), "")]),
    "five": ("wide", (1, 1, 1), 2, [("Si", (H, H, H), ""), ("Li", (Q(17, 25), H, H), ""), ("Li", (H, Q(7, 10), H), ""), ("Li", (Q(113, 200), Q(37, 100), Q(63, 100)), ""), ("Li", (Q(9, 25), Q(43, 100), Q(16, 25)), ""),
                                    ("Li", (H, H, Q(7, 10)), "z"), ("H", (Q(61, 100), Q(89, 200), Q(39, 100)), "")]),
    "wrap": ("ortho", (3, 1, 1), Q(11, 4), [("Si", (0, H, H), ""), ("Li", (H, Q(3, 4), H), "z")]),
}


def plain(env, tag, zs, box, x):
    f = Frame()
    f.z, f.box, f.x = zs, box, x
    f.e = [num(env, -1)] * 3
    f.f = [[num(env, 0)] * 3 for _ in zs]
    f.v = f.ea = f.m = None
    f.vel = False
    return f


def frames(env, n, zs, free):
    out = []
    for t in range(n):
        box = [[num(env, v) for v in r] for r in ((4, 0, 0), (-1, 5, 0), (Q(1, 2), 0, 6))]
        box[2][2] = env.real("c%d" % t, 5, 7)
        x = [[env.real("x%d%d%d" % (t, i, j), -1, 2) if free == "all" or (t, i) in free else num(env, Q((3 * t + 2 * i + j) % 8, 8)) for j in range(3)] for i in range(len(zs))]
        out.append(plain(env, "t%d" % t, zs, box, x))
    return out


def acos(v):
    import math
    return v.arccos() if isinstance(v, R) else math.acos(max(-1.0, min(1.0, v)))


def traj(env):
    p = env.params
    fr = frames(env, p["frames"], p["z"], p["free"])
    M = imp(env, "matersdk.feature.avg.msd")
    B = imp(env, "matersdk.feature.avg.avgbond")
    MV = imp(env, "matersdk.io.pwmat.output.movement").Movement
    cart = [[frac2cart(x, f.box) for x in f.x] for f in fr]
    n = len(p["z"])
    cpus = env.choose("cpus", 1, 4)
    with scratch() as d, quiet(cpus):
        path = os.path.join(d, "MOVEMENT")
        open(path, "w").write("".join(text(env, f) for f in fr))
        mv = MV(movement_path=path)
        msd = M.Msd(trajectory=mv)
        a, b = msd.calc_msd(), msd.calc_msd_sub_centroid()
        env.check(len(a) == len(b) == len(fr) - 1, "one value per step", info=(len(a), len(b)))
        q = env.real("q", 0, 2)
        di = M.DiffractionIntensity(trajectory=mv, q=q).calc_di()
        env.check(len(di) == len(a), "one intensity per step")
        for t in range(len(fr) - 1):
            D = [[u - v for u, v in zip(x, y)] for x, y in zip(cart[t + 1], cart[t])]
            w = sum(sum(v * v for v in r) for r in D)
            env.check_eq(a[t] * n, w, "mean squared displacement of a step")
            cm = [sum(r[j] for r in D) / n for j in range(3)]
            w2 = sum(sum((r[j] - cm[j]) * (r[j] - cm[j]) for j in range(3)) for r in D)
            env.check_eq(b[t] * n, w2, "mean squared displacement without the drift of the centroid")
            if env.concrete:
                import math
                env.check_eq(di[t], math.exp(-q * q * a[t] / 3), "diffraction intensity")
            else:
                env.check_eq(di[t], (-(q * q) * a[t] / 3).exp(), "diffraction intensity")
        for i, j in p["pairs"]:
            L = B.PairBond(movement_path=path, atom1_idx=i, atom2_idx=j).get_frames_pair_bond()
            env.check(len(L) == len(fr), "one bond length per frame")
            for t in range(len(fr)):
                env.check_eq(L[t] * L[t], dist2(cart[t][i], cart[t][j]), "bond length of two atoms")
                env.check(L[t] >= 0, "bond lengths are not negative")
    env.reach("end")


def bonds(env):
    """average bond length of one structure"""
    DS = imp(env, "matersdk.io.publicLayer.structure").DStructure
    N = imp(env, "matersdk.io.publicLayer.neigh")
    B = imp(env, "matersdk.feature.avg.avgbond")
    y = make(env, DS, env.params["sys"], env.params["rsym"])
    off_cutoff(env, y)
    nb = N.StructureNeighborsDescriptor.create("v1", structure=y.structure, rcut=y.rcut, scaling_matrix=y.scaling)
    lists = {c: within(y, c) for c in y.centres}
    sq = lambda v: v.sqrt() if isinstance(v, R) else v ** 0.5
    for z1 in sorted(set(y.z)):
        for z2 in sorted(set(y.z)):
            w = [sq(q[3]) for c in y.centres if y.z[c] == z1 for q in lists[c] if q[1] == z2]
            if not w:
                continue
            g = B.AvgBond.get_avg_bond_length(nb, z1, z2)
            env.check_eq(g * len(w), sum(w[1:], w[0]), "average bond length of a pair of species")
            g = B.ParallelFunction.get_avg_bond_length(y.structure, y.rcut, y.scaling, z1, z2)
            env.check_eq(g * len(w), sum(w[1:], w[0]), "average bond length of a structure")
            env.reach("bonds")


def angles(env):
    DS = imp(env, "matersdk.io.publicLayer.structure").DStructure
    N = imp(env, "matersdk.io.publicLayer.neigh")
    A = imp(env, "matersdk.feature.avg.avgangle").AvgAngle
    B = imp(env, "matersdk.feature.avg.avgbond").AvgBond
    y = make(env, DS, env.params["sys"], span=env.params["span"], table=CL)
    off_cutoff(env, y)
    nb = N.StructureNeighborsDescriptor.create("v1", structure=y.structure, rcut=y.rcut, scaling_matrix=y.scaling)
    lists = {c: within(y, c) for c in y.centres}
    sq = lambda v: v.sqrt() if isinstance(v, R) else v ** 0.5
    deg = (lambda v: v.degrees()) if not env.concrete else __import__("math").degrees
    zs = sorted(set(y.z))
    for z1, z2, z3 in [(a, b, c) for a in zs for b in zs for c in zs if b <= c or env.params.get("full")]:
        cos, per = [], []
        for c in y.centres:
            if y.z[c] != z1:
                continue
            l2 = [q for q in lists[c] if q[1] == z2]
            l3 = [q for q in lists[c] if q[1] == z3]
            todo = [(l2[i], l2[j]) for i in range(len(l2)) for j in range(i + 1, len(l2))] if z2 == z3 else [(a, b) for a in l2 for b in l3]
            for a, b in todo:
                u, v = ([p - q for p, q in zip(k[2], y.cart[c])] for k in (a, b))
                dt = u[0] * v[0] + u[1] * v[1] + u[2] * v[2]
                cs = dt / (sq(a[3]) * sq(b[3]))
                cos.append(cs)
                per.append((deg(acos(cs)), a[3], b[3]))
        if not cos:
            continue
        if env.concrete:
            # collinear neighbours: rounding may push the cosine beyond 1
            env.assume(all(abs(abs(c) - 1) > 1e-6 for c in cos))
        ang, q = A.get_avg_bond(nb, z1, z2, z3)
        env.check_eq(ang * len(cos), sum((p[0] for p in per[1:]), per[0][0]), "average bond angle")
        s = sum((c + Q(1, 3)) * (c + Q(1, 3)) for c in cos) if not env.concrete else sum((c + 1 / 3) ** 2 for c in cos)
        if env.params["sys"] != "five" or env.concrete:
            env.check_eq(1 - q, 3 * s / 8, "order parameter of the angles")
        for a0, w0 in env.params["win"]:
            std, eps = num(env, a0), num(env, w0)
            if env.concrete:
                env.ties or env.assume(all(abs(abs(p[0] - a0) - w0) > 1e-6 for p in per))
            got = B.get_bond_lengths_lst_according2angle(nb, z1, z2, z3, std, eps)
            want = [p for p in per if bool(p[0] - std < eps) and bool(std - p[0] < eps)]
            env.check(tuple(got.shape) == (len(want), 3), "one row per angle in the window", info=(got.shape, len(want)))
            rows = []
            for p in want:
                sm, lg = (p[1], p[2]) if bool(p[1] <= p[2]) else (p[2], p[1])
                rows.append((0, [p[0], sq(sm), sq(lg)]))
            for r in got:
                rows.pop(match(env, 0, vec(r), rows, "angle with its shorter and longer bond, once"))
        env.reach("angles")


def film(env):
    """average bond lengths along a trajectory"""
    p = env.params
    B = imp(env, "matersdk.feature.avg.avgbond").AvgBond
    zs = [14, 3]
    fr, xs = [], []
    for t in range(p["frames"]):
        box = [[num(env, v) for v in r] for r in ((4, 0, 0), (0, 5, 0), (0, 0, 9))]
        x = [[num(env, 0)] * 3, [num(env, Q(1, 4)), num(env, Q(t % 3, 8)), env.real("z%d" % t, Q(1, 16), Q(1, 4)) if t < 2 or t > 9 else num(env, Q(t, 40))]]
        fr.append(plain(env, "t%d" % t, zs, box, x))
    rc = num(env, Q(29, 10))
    cpus = env.choose("cpus", 1, 4)
    sq = lambda v: v.sqrt() if isinstance(v, R) else v ** 0.5
    with scratch() as d, quiet(cpus):
        path = os.path.join(d, "MOVEMENT")
        open(path, "w").write("".join(text(env, f) for f in fr))
        for e1, e2 in (("Si", "Li"), ("Li", "Si")):
            g = B(movement_path=path, element_1=e1, element_2=e2, rcut=rc).get_frames_avg_bond(scaling_matrix=[3, 1, 1])
            env.check(len(g) == len(fr), "one average per frame", info=len(g))
            for t, f in enumerate(fr):
                c = [frac2cart(x, f.box) for x in f.x]
                w = []
                for k in (-1, 0, 1):
                    d2 = dist2(c[0], add(c[1], [num(env, 4 * k), num(env, 0), num(env, 0)]))
                    if env.concrete:
                        env.ties or env.assume(abs(d2 - 2.9 ** 2) > 1e-9)
                    if bool(d2 <= rc * rc):
                        w.append(sq(d2))
                if w:
                    env.check_eq(g[t] * len(w), sum(w[1:], w[0]), "average bond length of a frame")
                    env.reach("film")


FN = ["msd.py: Msd, MsdParallelFunction, DiffractionIntensity; avgbond.py: PairBond; movement.py: Movement.get_all_frame_structures",
      "avgbond.py: AvgBond.get_avg_bond_length, ParallelFunction.get_avg_bond_length", "avgangle.py: AvgAngle.get_avg_bond; avgbond.py: AvgBond.get_bond_lengths_lst_according2angle",
      "avgbond.py: AvgBond.get_frames_avg_bond"]


def cases(tier):
    T = tier == "thorough"
    out = []
    for n, z, free in [(2, [14, 3], "all"), (3, [3], "all"), (3, [14, 3, 3], [(0, 1), (1, 0), (2, 2)]), (12, [14, 3], [(0, 1), (1, 0), (10, 1), (11, 0)])] + ([(4, [14, 3, 3], "all"), (5, [1, 8], "all")] if T else []):
        out.append(Case("traj_%d_%d" % (n, len(z)), fn=traj, setup=SET, params=dict(frames=n, z=z, free=free, pairs=[(0, len(z) - 1), (len(z) - 1, 0)]), reach=["end"], functions=FN[:1], budget=400,
                        bounds="%d frames of %d atoms, positions symbolic (%s), a lattice component per frame symbolic, 1-4 processors" % (n, len(z), free)))
    for s in SYS:
        for rs in (0, 1):
            if s == "cube" and not rs:
                continue
            if not T and ((s == "cube") or (rs and s in ("four", "same", "outside", "crowd"))):
                continue
            out.append(Case("bonds_%s_%d" % (s, rs), fn=bonds, setup=SET, params=dict(sys=s, rsym=rs), reach=["bonds"], functions=FN[1:2], budget=500,
                            bounds="system %s, %s symbolic, all species pairs" % (s, "cutoff in [0.5,4.5]" if rs else "marked coordinate in [0,1]")))
    for s in CL:
        for span in [(Q(2, 5), Q(3, 5)), (Q(7, 20), H)] if T else [(Q(2, 5), Q(3, 5))]:
            out.append(Case("angles_%s_%s" % (s, span[1].denominator), fn=angles, setup=SET, params=dict(sys=s, span=(Q(13, 25), Q(27, 50)) if s == "uneven" else (Q(13, 20), Q(17, 25)) if s == "five" else span, full=T, win=[] if s in ("uneven", "five") else [(100, 15), (5, 20)] if T or s in ("two", "wrap") else [(100, 15)]), reach=["angles"], functions=FN[2:3], budget=400,
                            bounds="cluster %s, one coordinate symbolic in [%s,%s], all species triples" % ((s,) + span)))
    for n in (1, 2, 11) if not T else (1, 2, 3, 11):
        out.append(Case("film_%d" % n, fn=film, setup=SET, params=dict(frames=n), reach=["film"], functions=FN[3:], budget=400, bounds="%d frames of 2 atoms, height of one symbolic, 1-4 processors" % n))
    return out
