"""Python neighbour lists"""
from engine.runner import Case
from checks.common import REAL
from checks.pyh import *
from checks import pysys
from checks.pysys import SYS, make, within, off_cutoff, dist2
ASSUMPTIONS = [REAL, PYA, "atoms of the expanded cell keep a distance of at least 0.1", "repetition counts are odd"]


def nblist(env):
    DS = imp(env, "matersdk.io.publicLayer.structure").DStructure
    N = imp(env, "matersdk.io.publicLayer.neigh")
    y = make(env, DS, env.params["sys"], env.params["rsym"])
    off_cutoff(env, y)
    nb = N.StructureNeighborsDescriptor.create("v1", structure=y.structure, rcut=y.rcut, scaling_matrix=y.scaling)
    an, ds, co = nb.key_nbr_atomic_numbers, nb.key_nbr_distances, nb.key_nbr_coords
    lists = [within(y, c) for c in y.centres]
    width = 1 + max(len(l) for l in lists)
    env.check(an.shape == (y.n, width) and ds.shape == (y.n, width) and co.shape == (y.n, width, 3), "shape of the neighbour arrays",
              info=(an.shape, width))
    for i, c in enumerate(y.centres):
        want = [(z, x) for a, z, x, d2 in lists[i]]
        d2s = [d2 for a, z, x, d2 in lists[i]]
        env.check(bool(an[i][0] == y.z[c]), "the centre comes first: species")
        env.check_eq(ds[i][0], 0, "the centre comes first: distance")
        for j in range(3):
            env.check_eq(co[i][0][j], y.cart[c][j], "the centre comes first: position")
        prev = None
        for k in range(1, width):
            if k <= len(lists[i]):
                env.check(len(want) > 0, "no more neighbours than images within the cutoff")
                m = match(env, int(an[i][k]), vec(co[i][k]), want, "every image within the cutoff exactly once")
                want.pop(m)
                d2 = d2s.pop(m)
                env.check_eq(ds[i][k] * ds[i][k], d2, "neighbour distance")
                env.check(ds[i][k] >= 0, "neighbour distance sign")
                if prev is not None:
                    env.check(d2 >= prev - (1e-6 if env.concrete else 0), "neighbours in order of distance")
                prev = d2
            else:
                env.check(bool(an[i][k] == 0), "padding species")
                env.check_eq(ds[i][k], 0, "padding distance")
                for j in range(3):
                    env.check_eq(co[i][k][j], 0, "padding position")
        env.check(not want, "no image within the cutoff is missing")
    env.reach("end")


SET = mods("matersdk.io.publicLayer.neigh")
FN = ["neigh.py: StructureNeighborsV1._get_key_neighs_info", "structure.py: make_supercell_, get_key_idxs"]


def cases(tier):
    out = []
    for s in SYS:
        for rs in (0, 1):
            if s == "cube" and not rs:
                continue
            if tier == "quick" and rs and s in ("four", "same", "crowd"):
                continue
            out.append(Case("nblist_%s_%d" % (s, rs), fn=nblist, setup=SET, params=dict(sys=s, rsym=rs), reach=["end"], functions=FN,
                            bounds="system %s, %s symbolic" % (s, "cutoff in [0.5,4.5]" if rs else "marked coordinate in [0,1]"), budget=500))
    return out
