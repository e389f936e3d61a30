"""Python neighbour counts and neighbour index lists"""
from engine.runner import Case
from checks.common import REAL
from checks.pyh import *
from checks.pysys import SYS, make, within, off_cutoff, Z
ASSUMPTIONS = [REAL, PYA, "atoms of the expanded cell keep a distance of at least 0.1", "repetition counts are odd"]
SET = mods("matersdk.io.publicLayer.neigh")


def counts(env):
    DS = imp(env, "matersdk.io.publicLayer.structure").DStructure
    U = imp(env, "matersdk.io.publicLayer.neigh").StructureNeighborsUtils
    y = make(env, DS, env.params["sys"], env.params["rsym"])
    off_cutoff(env, y)
    lists = [within(y, c) for c in y.centres]
    m = U.get_max_num_nbrs_real(structure=y.structure, rcut=y.rcut, scaling_matrix=y.scaling)
    env.check(int(m) == max(len(l) for l in lists), "largest neighbour count", info=(int(m), [len(l) for l in lists]))
    els = sorted(set(y.el)) + ["Pb"]
    d = U.get_max_num_nbrs_real_element(structure=y.structure, rcut=y.rcut, nbr_elements=els, scaling_matrix=y.scaling)
    env.check(sorted(d) == sorted(els), "elements reported")
    for e in els:
        w = max(sum(1 for q in l if q[1] == Z.get(e)) for l in lists)
        env.check(int(d[e]) == w, "largest neighbour count per element", info=(e, d[e], w))
    env.reach("end")


def indices(env):
    DS = imp(env, "matersdk.io.publicLayer.structure").DStructure
    N = imp(env, "matersdk.io.publicLayer.neigh")
    y = make(env, DS, env.params["sys"], env.params["rsym"])
    off_cutoff(env, y)
    nb = N.StructureNeighborsDescriptor.create("v1", structure=y.structure, rcut=y.rcut, scaling_matrix=y.scaling)
    lists = {c: within(y, c) for c in y.centres}
    zs = sorted(set(y.z))
    ctr = zs if env.params["order"] == 0 else zs[::-1]
    real = {z: max(sum(1 for q in l if q[1] == z) for l in lists.values()) for z in zs}
    cap = [real[z] + env.params["spare"] for z in zs]
    padded = env.params["spare"] > 0
    out = N.StructureNeighborsUtils.get_nbrs_indices(struct_nbr=nb, center_atomic_numbers=ctr, nbr_atomic_numbers=zs,
                                                     **({"max_num_nbrs": cap} if padded else {}))
    if not padded:
        # without padding the width of a block is the largest count among centres of one species: one species here
        cap = [max(sum(1 for q in lists[c] if q[1] == z) for c in y.centres) for z in zs]
    rows = [c for z in ctr for c in y.centres if y.z[c] == z]
    env.check(tuple(out.shape) == (len(rows), sum(cap)), "shape of the index list", info=(out.shape, len(rows), cap))
    for i, c in enumerate(rows):
        off = 0
        for t, z in enumerate(zs):
            row = [int(v) for v in out[i][off:off + cap[t]]]
            want = sorted([q for q in lists[c] if q[1] == z], key=lambda q: pyshim.K(q[3]))
            k = len(want)
            env.check(sorted(row[:k]) == sorted(q[0] + 1 for q in want), "owner indices of the neighbours", info=(row, want))
            env.check(all(v == 0 for v in row[k:]), "unused slots hold 0", info=row)
            # nearest first: the distance of the listed owners never decreases
            best = {}
            for q in want:
                best.setdefault(q[0] + 1, []).append(q[3])
            prev = None
            for v in row[:k]:
                d2 = best[v].pop(0)
                if prev is not None:
                    env.check(d2 >= prev - (1e-6 if env.concrete else 0), "nearest neighbour first")
                prev = d2
            off += cap[t]
    env.reach("end")


FN = ["neigh.py: StructureNeighborsUtils.get_max_num_nbrs_real, get_max_num_nbrs_real_element", "neigh.py: StructureNeighborsUtils.get_nbrs_indices, _get_nbrs_indices; structure.py: get_site_index"]


def cases(tier):
    out = []
    for s in SYS:
        for rs in (0, 1):
            if s == "cube" and (not rs or tier == "quick"):
                continue
            if tier == "quick" and rs and s in ("four", "same", "outside", "crowd"):
                continue
            b = "system %s, %s symbolic" % (s, "cutoff in [0.5,4.5]" if rs else "marked coordinate in [0,1]")
            out.append(Case("counts_%s_%d" % (s, rs), fn=counts, setup=SET, params=dict(sys=s, rsym=rs), reach=["end"], functions=FN[:1], bounds=b, budget=500))
            sp = [(0, 1), (1, 2)] if tier == "thorough" else [(rs, 1 + rs)]
            if s in ("one", "same"):
                sp.append((0, 0))
            for o, k in sp:
                out.append(Case("indices_%s_%d_%d%d" % (s, rs, o, k), fn=indices, setup=SET, params=dict(sys=s, rsym=rs, order=o, spare=k), reach=["end"],
                                functions=FN[1:], bounds=b + ", %d spare slots" % k, budget=500))
    return out
