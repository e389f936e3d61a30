"""the Python binding of the neighbour list"""
from engine.runner import Case
from checks.common import REAL, MEM
H = "nbbind.cc"
ASSUMPTIONS = [REAL, MEM, "the C APIs of Python and numpy are replaced by a stand-in (cxx/fake/Python.h, numpy/arrayobject.h) with reference counts, strides, "
               "ownership flags and the error indicator; SWIG's generated argument passing is outside", "arguments of the documented shapes and types"]


def cases(tier):
    out = []
    L = [(0, 7, 1, 3, 2, 0, 0), (1, 5, 2, 3, 3, 1, 0), (1, 7, 0, 5, 1, 0, 1), (0, 0, 2, 3, 3, 1, 1), (1, 3, 4, 3, 2, 0, 1)]
    if tier == "thorough":
        L = [x + (s, c) for x in [(0, 7, 1, 3, 2), (1, 5, 2, 3, 3), (0, 7, 1, 5, 1), (0, 0, 2, 3, 3), (1, 3, 4, 3, 2), (1, 7, 1, 3, 4), (2, 3, 2, 4, 2), (0, 2, 5, 3, 2)] for s in (0, 1) for c in (0, 1)]
    for l, p, m, r, n, so, ca in L:
        out.append(Case("py_lat%d_pbc%d_m%d_n%d_s%d_c%d" % (l, p, m, n, so, ca), entry="py_nblist", harness=H, params=dict(lat=l, pbc=p, mode=m, rc=r, natoms=n, sort=so, cart=ca), reach=["end", "slot", "too small"],
                        functions=["source/nblist/bind/nblist_bind.cc: find_info4mlff", "source/nblist/include/*"], budget=300 if tier == "quick" else 1500,
                        bounds="%d atoms, lattice %d, periodic axes mask %d, a coordinate symbolic; all memory layouts of the arguments, %s, %s, -1..2 spare slots" % (n, l, p, "sorted" if so else "unsorted", "Cartesian" if ca else "fractional")))
    return out
