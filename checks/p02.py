"""C++ neighbour lists: exactly the periodic images within the cutoff"""
from engine.runner import Case
from checks.common import REAL, MEM
H = "nblist.cc"
FN = ["source/nblist/include/neighborList.h: NeighborList(...), build, sort", "source/nblist/include/binLinkedList.h: Supercell, BinLinkedList"
      "(...), get_scaling_matrix, build, get_bin_idx, get_neigh_bins, get_neigh_atoms", "source/nblist/include/structure.h: all"]
LATNAME = ["cubic 4", "orthorhombic 3x5x7", "hexagonal-like", "triclinic with negative components", "fcc primitive", "flat 1x6x6",
           "rotated axes", "wide 8x6x6"]
ASSUMPTIONS = [REAL, MEM, "no two atoms or images closer than 1/8 Angstrom", "positions within the home cell along periodic axes (as the code's callers supply them)"]


def nb(name, entry="nb_list", budget=300, **p):
    d = dict(lat=0, mode=0, pbc=7, natoms=2, rc=3, rclo=2, rchi=4, bin=0, sort=0, nimg=2, extra=0)
    d.update(p)
    m = d["mode"]
    sy = ["fractional coordinate %d of the last atom%s" % (k, " in [1/4,1/2]" if m & 64 else "") for k in range(3) if m >> k & 1]
    if m & 8:
        sy.append("cutoff in [%s,%s]" % (d["rclo"], d["rchi"]))
    if m & 16:
        sy.append("lattice scale in [0.75,1.5]")
    b = "%s lattice, %d atoms, periodic axes mask %d, cutoff %s, symbolic: %s; images up to %d cells" % (
        LATNAME[d["lat"]], d["natoms"], d["pbc"], d["rc"], ", ".join(sy) or "-", d["nimg"])
    return Case(name, entry=entry, harness=H, params=d, reach=["end"], functions=FN, bounds=b, budget=budget, max_paths=200000)


LIST = [(1, 1, 7, 0, 4, 3), (2, 2, 7, 0, 3, 2), (3, 4, 7, 0, 3, 2), (3, 1, 7, 0, 5, 3), (4, 2, 7, 0, 3, 3), (5, 2, 7, 0, 3, 4),
        (6, 1, 7, 0, 3, 2), (6, 4, 7, 0, 5, 3), (6, 2, 7, 0, 5, 3), (6, 4, 0, 0, 5, 3), (6, 36, 3, 0, 5, 3), (3, 33, 0, 0, 5, 3),
        (3, 34, 5, 2, 5, 3), (7, 1, 7, 0, 3, 1), (1, 1, 6, 0, 4, 3), (3, 2, 5, 0, 3, 2), (3, 4, 3, 0, 3, 2), (6, 2, 4, 0, 3, 2),
        (2, 1, 0, 0, 4, 2), (1, 1, 7, 4, 4, 3), (3, 4, 7, 2, 3, 2), (0, 1, 7, 8, 3, 2), (5, 2, 7, 1, 3, 4), (7, 1, 7, 3, 3, 1),
        (1, 1, 2, 5, 4, 3)]


def cases(tier):
    out = [nb("lat%d_m%d_pbc%d_bin%d" % (l, m, p, b), lat=l, mode=m, pbc=p, bin=b, rc=r, nimg=n) for l, m, p, b, r, n in LIST]
    out += [nb("sorted_lat%d_m%d" % (l, m), lat=l, mode=m, pbc=p, rc=r, nimg=n, sort=1, natoms=k) for l, m, p, r, n, k in
            [(0, 1, 7, 3, 2, 2), (3, 2, 7, 3, 2, 2), (2, 4, 3, 4, 2, 3), (7, 1, 0, 6, 1, 4)]]
    out += [nb("many%d_lat%d_m%d_pbc%d" % (k, l, m, p), lat=l, mode=m, pbc=p, rc=r, nimg=n, sort=so, natoms=k) for l, m, p, r, n, so, k in
            [(7, 65, 7, 3, 1, 0, 12), (3, 66, 3, 4, 2, 1, 7), (0, 68, 7, 5, 2, 0, 6)]]
    out.insert(0, nb("cubic_rc", mode=8, natoms=2, rclo=2, rchi=4))
    out.insert(0, nb("cubic_scale", mode=16, natoms=2, rc=3))
    out.insert(0, nb("cubic_1d", mode=1, natoms=2, rc=5))
    if tier == "thorough":
        out.insert(0, nb("cubic_2d", mode=3, natoms=2, rc=3, budget=1500))
        out += [nb("t_lat%d_m%d_pbc%d_rc%d" % (l, m, p, r), lat=l, mode=m, pbc=p, rc=r, nimg=n, budget=1500, natoms=k)
                for l, m, p, r, n, k in [(3, 3, 7, 3, 2, 2), (2, 5, 7, 3, 2, 2), (6, 6, 7, 3, 2, 2), (7, 7, 0, 4, 1, 2), (3, 7, 0, 3, 1, 2),
                                         (3, 8, 7, 3, 3, 2), (1, 24, 7, 3, 3, 2), (3, 4, 7, 3, 2, 4), (2, 1, 7, 6, 3, 3), (0, 9, 7, 3, 2, 2)]]
    return out
