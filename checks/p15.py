"""adjacency matrix"""
from engine.runner import Case
from checks.common import REAL
from checks.pyh import *
from checks.pysys import SYS, make, dist2, off_cutoff
ASSUMPTIONS = [REAL, PYA, "atoms of the expanded cell keep a distance of at least 0.1", "repetition counts are odd"]
SET = mods("matersdk.feature.graph.edge")
FN = ["edge.py: AdjacentMatrix.get_adjacent_matrix, _get_shifted_supercell_frac_coords"]


def adj(env):
    DS = imp(env, "matersdk.io.publicLayer.structure").DStructure
    A = imp(env, "matersdk.feature.graph.edge").AdjacentMatrix
    y = make(env, DS, env.params["sys"], env.params["rsym"])
    off_cutoff(env, y)
    m = A(structure=y.structure, rcut=y.rcut, scaling_matrix=y.scaling).get_adjacent_matrix()
    env.check(tuple(m.shape) == (y.n, y.n), "shape")
    for i in range(y.n):
        for j in range(y.n):
            want = 0
            for a, z, x, s in y.all:
                if a == j and not (i == j and s == (0, 0, 0)) and dist2(x, y.cart[i]) <= y.rcut * y.rcut:
                    want += 1
            env.check(bool(m[i][j] == want), "number of images within the cutoff", info=(i, j, m[i][j], want))
    env.reach("end")


def even(env):
    DS = imp(env, "matersdk.io.publicLayer.structure").DStructure
    A = imp(env, "matersdk.feature.graph.edge").AdjacentMatrix
    s = DS(lattice=[[3, 0, 0], [0, 4, 0], [0, 0, 5]], species=["Li"], coords=[[0, 0, 0]])
    sc = [env.choose("s%d" % k, -1, 5) for k in range(3)]
    ok = all(v > 0 and v % 2 == 1 for v in sc)
    try:
        A(structure=s, rcut=num(env, 3), scaling_matrix=sc)
        made = True
    except AssertionError:
        made = False
    env.check(made == ok, "only positive odd repetition counts are accepted", info=sc)
    env.reach("end")


def cases(tier):
    out = [Case("even", fn=even, setup=SET, reach=["end"], functions=["edge.py: AdjacentMatrix.__init__"], bounds="repetition counts -1..5 per axis")]
    for s in SYS:
        for rs in (0, 1):
            if s == "cube" and not rs:
                continue
            out.append(Case("adj_%s_%d" % (s, rs), fn=adj, setup=SET, params=dict(sys=s, rsym=rs), reach=["end"], functions=FN, budget=500,
                            bounds="system %s, %s symbolic" % (s, "cutoff in [0.5,4.5]" if rs else "marked coordinate in [0,1]")))
    return out
