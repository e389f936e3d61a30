"""Python species-pair neighbour features"""
from engine.runner import Case
from checks.common import REAL
from checks.pyh import *
from checks.pysys import SYS, make, within, off_cutoff, Z
ASSUMPTIONS = [REAL, PYA, "atoms of the expanded cell keep a distance of at least 0.1", "repetition counts are odd"]
SET = mods("matersdk.feature.deepmd.premise")
FN = ["premise.py: DpFeaturePairPremiseV1.extract_feature_pair, expand_rc", "neigh.py: StructureNeighborsV1"]


def pair(env):
    DS = imp(env, "matersdk.io.publicLayer.structure").DStructure
    N = imp(env, "matersdk.io.publicLayer.neigh")
    PR = imp(env, "matersdk.feature.deepmd.premise").DpFeaturePairPremiseDescriptor
    y = make(env, DS, env.params["sys"], env.params["rsym"])
    off_cutoff(env, y)
    nb = N.StructureNeighborsDescriptor.create("v1", structure=y.structure, rcut=y.rcut, scaling_matrix=y.scaling)
    pr = PR.create("v1", structure_neighbors=nb)
    zs = sorted(set(y.z))
    lists = {c: within(y, c) for c in y.centres}
    for zc in zs:
        for zn in zs:
            rows = [c for c in y.centres if y.z[c] == zc]
            per = [[q for q in lists[c] if q[1] == zn] for c in rows]
            w = max(len(l) for l in per)
            an, d, rc = pr.extract_feature_pair(center_atomic_number=zc, nbr_atomic_number=zn)
            env.check(an.shape == (len(rows), w) and d.shape == (len(rows), w) and rc.shape == (len(rows), w, 3), "shape of the pair features",
                      info=(an.shape, len(rows), w))
            wide = w + 2
            ex = pr.expand_rc(center_atomic_number=zc, nbr_atomic_number=zn, max_num_nbrs=wide)
            env.check(ex.shape == (len(rows), wide, 3), "shape of the expanded coordinates")
            for i, c in enumerate(rows):
                want = [(zn, [p - q for p, q in zip(x, y.cart[c])]) for a, z, x, d2 in per[i]]
                d2s = [q[3] for q in per[i]]
                prev = None
                for k in range(wide):
                    if k < len(per[i]):
                        env.check(bool(an[i][k] == zn), "neighbour species")
                        m = match(env, zn, vec(rc[i][k]), want, "relative coordinates of every neighbour of the pair, once")
                        want.pop(m)
                        d2 = d2s.pop(m)
                        env.check_eq(d[i][k] * d[i][k], d2, "neighbour distance")
                        if prev is not None:
                            env.check(d2 >= prev - (1e-6 if env.concrete else 0), "nearest neighbour first")
                        prev = d2
                        for j in range(3):
                            env.check_eq(ex[i][k][j], rc[i][k][j], "expanded coordinates")
                    else:
                        if k < w:
                            env.check(bool(an[i][k] == 0), "padding species")
                            env.check_eq(d[i][k], 0, "padding distance")
                            for j in range(3):
                                env.check_eq(rc[i][k][j], 0, "padding coordinates")
                        for j in range(3):
                            env.check_eq(ex[i][k][j], 0, "padding of the expanded coordinates")
                env.check(not want, "no neighbour of the pair is missing")
    env.reach("end")


def cases(tier):
    out = []
    for s in SYS:
        for rs in (0, 1):
            if s == "cube" and (not rs or tier == "quick"):
                continue
            if tier == "quick" and rs and s in ("four", "same", "outside", "crowd"):
                continue
            out.append(Case("pair_%s_%d" % (s, rs), fn=pair, setup=SET, params=dict(sys=s, rsym=rs), reach=["end"], functions=FN, budget=500,
                            bounds="system %s, %s symbolic, all species pairs" % (s, "cutoff in [0.5,4.5]" if rs else "marked coordinate in [0,1]")))
    return out
