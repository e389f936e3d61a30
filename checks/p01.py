"""C++ structures, supercells, cell geometry"""
from engine.runner import Case
from checks.common import REAL, MEM
H = "nblist.cc"
F = "source/nblist/include/structure.h: "
B = "source/nblist/include/binLinkedList.h: "
ASSUMPTIONS = [REAL, MEM]


def cases(tier):
    out = [Case("struct_forms", harness=H, reach=["arrays", "pointers"], functions=[F + "Structure(...) x4, calc_cart_coords, accessors"],
                bounds="1..3 atoms; any lattice with entries in [-4,4]; fractional coordinates in [-2,2]; array/pointer and cart/frac forms")]
    for n, s in ((1, 4), (2, 3)):
        out.append(Case("supercell_images_%d" % n, entry="supercell_images", harness=H, params=dict(natoms=n, smax=s), reach=["end"],
                        functions=[F + "make_supercell, set_atom_info", B + "Supercell(...), assign_prim_cell_idx, assign_owned_atom_idxs"],
                        bounds="%d atom(s), scaling 1..%d per axis (odd and even), symbolic lattice and positions" % (n, s)))
    out += [Case("cell_geometry%d" % a, entry="cell_geometry", harness=H, params=dict(row=a), reach=["end"],
                 functions=[F + "get_interplanar_distances"], bounds="one arbitrary basis vector in [-8,8]^3, |det| >= 1/2") for a in range(3)]
    out += [Case("cell_box%d_%d%d%d" % ((a,) + s), entry="cell_box", harness=H, params=dict(s0=s[0], s1=s[1], s2=s[2], axis=a), reach=["end"],
                 functions=[F + "get_vertexes, get_limit_xyz, get_projected_lengths"],
                 bounds="scaling %s, the lattice components along one Cartesian axis arbitrary in [-8,8]" % (s,))
            for a in range(3) for s in ((1, 1, 1), (1, 2, 3))]
    if tier == "thorough":
        out.append(Case("cell_geometry_all", entry="cell_geometry", harness=H, params=dict(row=-1), reach=["end"], budget=900,
                        functions=[F + "get_interplanar_distances"], bounds="any lattice with entries in [-4,4], |det| >= 1/2"))
        out.append(Case("supercell_images_5", entry="supercell_images", harness=H, params=dict(natoms=2, smax=5), reach=["end"],
                        budget=900, bounds="2 atoms, scaling 1..5 per axis"))
        out += [Case("cell_box%d_%d%d%d" % ((a,) + s), entry="cell_box", harness=H, params=dict(s0=s[0], s1=s[1], s2=s[2], axis=a),
                     reach=["end"], bounds="scaling %s" % (s,)) for a in range(3) for s in ((2, 2, 2), (3, 1, 2), (5, 3, 1), (4, 4, 4))]
    return out
