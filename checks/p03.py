"""flattened neighbour arrays and buffer-size counts"""
from checks.p02 import nb, ASSUMPTIONS                                         # noqa: F401
FN = ["source/nblist/include/neighborList.h: find_info4mlff, get_max_num_neigh_atoms, get_max_num_neigh_atoms_ssss"]


def cases(tier):
    L = [(0, 1, 7, 3, 2, 2, 0), (0, 1, 7, 4, 2, 3, 3), (1, 1, 7, 4, 3, 2, 1), (2, 2, 7, 3, 2, 3, 2), (3, 4, 7, 3, 2, 3, 4), (4, 2, 7, 3, 3, 2, 1),
         (5, 2, 7, 3, 4, 2, 0), (6, 4, 0, 5, 3, 4, 2), (7, 1, 5, 3, 1, 4, 5), (3, 34, 5, 5, 3, 2, 1), (7, 2, 0, 5, 1, 1, 2), (3, 1, 0, 6, 1, 4, 0), (7, 66, 7, 4, 1, 12, 3), (0, 65, 7, 5, 2, 5, 1), (7, 66, 0, 3, 0, 9, 2), (7, 2, 0, 3, 0, 5, 1)]
    if tier == "thorough":
        L += [(0, 3, 7, 3, 2, 2, 1), (3, 3, 7, 3, 2, 2, 2), (0, 8, 7, 3, 2, 2, 1), (2, 1, 7, 5, 3, 4, 1), (7, 7, 0, 4, 1, 3, 1), (6, 2, 7, 5, 3, 4, 0)]
    out = []
    for i, (l, m, p, r, n, k, e) in enumerate(L):
        for sort in ((0, 1) if tier == "thorough" else (i % 2,)):
            c = nb("flat%d_lat%d_m%d_pbc%d_n%d_x%d_s%d" % (i, l, m, p, k, e, sort), entry="nb_flat", lat=l, mode=m, pbc=p, rc=r, nimg=n,
                   natoms=k, extra=e, sort=sort, budget=300 if tier == "quick" else 1500)
            c.functions = c.functions + FN
            c.bounds += "; %d spare slots" % e
            if e:
                c.reach = ["end", "padding"]
            out.append(c)
    return out
