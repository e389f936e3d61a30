"""DP environment matrix: values, placement, padding"""
from fractions import Fraction as Q
from engine.runner import Case
from checks.common import REAL, MEM
H = "deepmd.cc"
FN = {"envmat": ["source/descriptor/deepmd/include/envMatrix.h: EnvMatrix::find_value, find_deriv"],
      "se4pw": ["source/descriptor/deepmd/include/se4pw.h: Se4pw::get_prime*, find_value, find_deriv"],
      "tilder": ["source/descriptor/deepmd/include/se.h: TildeR (constructors, generate, deriv), PairTildeR"]}
ASSUMPTIONS = [REAL, MEM, "the moving atom keeps a positive distance from its neighbours", "cutoffs rc=4, rs=2, some cases 5/0, 3.5/3.25 and 7/0.5 (the switching function itself is decided for all cutoffs by P04)"]
SHAPES = ["3 atoms in a line", "3 atoms with a second type", "isolated and bonded centres", "4 atoms, some beyond the cutoff", "14 atoms, 12 neighbours"]


def grid(kind, tier):
    out = []
    g = [(0, 1), (0, 2), (0, 4), (1, 1), (1, 2), (1, 4), (2, 7), (3, 7)]
    for shape, axes in g:
        for k in ("envmat", "se4pw", "tilder"):
            p = dict(shape=shape, axes=axes, rc=4, rs=2, symtypes=5 if kind == "values" else 3, ntypes=2, cap0=3, cap1=4)
            if k == "tilder":
                variants = [(shape % 2, shape // 2)] if tier == "quick" else [(o, f) for o in (0, 1) for f in (0, 1)]
            else:
                variants = [None]
            for v in variants:
                q = dict(p)
                if v:
                    q.update(order=v[0], form=v[1])
                out.append(Case("%s_%s_%d_%d%s" % (k, kind, shape, axes, "_%d%d" % v if v else ""), entry="%s_%s" % (k, kind), harness=H,
                                params=q, reach=["end"], functions=FN[k],
                                bounds="system shape %d, coordinates along axes mask %d symbolic, neighbour types symbolic (mask %d), capacity 3+4" % (
                                    shape, axes, q["symtypes"])))
    # three species with different numbers of slots
    for k in ("envmat", "se4pw", "tilder"):
        for shape, axes in ((1, 1), (3, 4)):
            p = dict(shape=shape, axes=axes, rc=4, rs=2, symtypes=(5 if tier == "thorough" else 4) if kind == "values" else 2, ntypes=3, cap0=2, cap1=1, cap2=3)
            if k == "tilder":
                p.update(order=shape % 2, form=shape // 2)
            out.append(Case("%s_%s_3sp_%d" % (k, kind, shape), entry="%s_%s" % (k, kind), harness=H, params=p, reach=["end"], functions=FN[k],
                            bounds="system shape %d, axes mask %d, three species (types of %d atoms symbolic), capacity 2+1+3" % (shape, axes, p["symtypes"])))
    # other cutoffs: from the origin on, a narrow range, a wide one
    for i, (rc, rs) in enumerate(((5, 0), (Q(7, 2), Q(13, 4)), (7, Q(1, 2)))):
        for j, k in enumerate(("envmat", "se4pw", "tilder")):
            p = dict(shape=(i + j) % 2, axes=1 << (i + j) % 3, rc=rc, rs=rs, symtypes=0, ntypes=2, cap0=3, cap1=4)
            if k == "tilder":
                p.update(order=0, form=1)
            out.append(Case("%s_%s_cut%d" % (k, kind, i), entry="%s_%s" % (k, kind), harness=H, params=p, reach=["end"], functions=FN[k],
                            bounds="system shape %d, axes mask %d, rc=%s, rs=%s" % (p["shape"], p["axes"], rc, rs)))
    # many neighbours
    for k, axes in (("envmat", 1), ("se4pw", 4), ("tilder", 2)):
        p = dict(shape=4, axes=axes, rc=4, rs=2, symtypes=0, ntypes=2, cap0=11, cap1=12)
        if k == "tilder":
            p.update(order=1, form=0)
        out.append(Case("%s_%s_many" % (k, kind), entry="%s_%s" % (k, kind), harness=H, params=p, reach=["end"], functions=FN[k],
                        bounds="14 atoms, 3 centres with up to 12 neighbours, axes mask %d, capacity 11+12" % axes))
    if tier == "thorough":
        for shape in (0, 1):
            for axes in (3, 5, 6):
                for k in ("envmat", "se4pw", "tilder"):
                    p = dict(shape=shape, axes=axes, rc=4, rs=2, symtypes=5 if kind == "values" else 3, ntypes=2, cap0=4, cap1=3)
                    if k == "tilder":
                        p.update(order=0, form=0)
                    out.append(Case("%s_%s_%d_%d_t" % (k, kind, shape, axes), entry="%s_%s" % (k, kind), harness=H, params=p, reach=["end"],
                                    functions=FN[k], budget=2400, bounds="system shape %d, axes mask %d" % (shape, axes)))
    return out


def cases(tier):
    return grid("values", tier)
