"""edits of a structure: sorting, reordering, removing vacancies, counting, centroid, vacuum"""
import os
from engine.runner import Case
from checks.common import REAL
from checks.pyh import *
from checks.pysys import LATS
from fractions import Fraction as Q
ASSUMPTIONS = [REAL, PYA, TEXT]
SET = mods("matersdk.io.publicLayer.structure")
ZZ = {"H": 1, "Li": 3, "O": 8, "Si": 14, "X0+": 0}


def build(env, p):
    pool = p["pool"]
    # every assignment of species to the sites
    el = list(p["els"]) if p.get("els") else [pool[env.choose("s%d" % i, 0, len(pool) - 1)] for i in range(p["n"])]
    lat = [[num(env, v) for v in r] for r in LATS[p["lat"]]]
    x = [[env.real("x%d%d" % (i, j), -2, 2) for j in range(3)] for i in range(p["n"])]
    m = [env.real("m%d" % i, -3, 3) for i in range(p["n"])]
    DS = imp(env, "matersdk.io.publicLayer.structure").DStructure
    s = DS(lattice=lat, species=el, coords=x, site_properties={"magmom": m} if p.get("mag") else None)
    return DS, s, el, lat, x, m


def same_atoms(env, s, lat, el, x, m, order, what):
    """sites of s are the atoms `order` of the original, with their lattice, positions and moments"""
    env.check(s.num_sites == len(order), what + ": number of atoms", info=(s.num_sites, len(order)))
    for a, b in zip(s.lattice.matrix, lat):
        for u, v in zip(a, b):
            env.check_eq(u, v, what + ": lattice")
    env.check([str(q.specie) for q in s.sites] == [el[i] for i in order], what + ": species", info=[str(q.specie) for q in s.sites])
    cart = s.cart_coords
    for q, i in enumerate(order):
        for j in range(3):
            env.check_eq(s.frac_coords[q][j], x[i][j], what + ": fractional coordinates")
            env.check_eq(cart[q][j], frac2cart(x[i], lat)[j], what + ": Cartesian coordinates")
        if m is not None:
            env.check_eq(s.sites[q].properties["magmom"], m[i], what + ": moment")


def edit(env):
    p = env.params
    DS, s, el, lat, x, m = build(env, p)
    mm = m if p.get("mag") else None
    ids = list(range(p["n"]))
    byz = sorted(ids, key=lambda i: ZZ[el[i]])
    if p["what"] == "sort":
        r = s.reformat_elements_()
        same_atoms(env, s, lat, el, x, mm, byz, "sorting by atomic number")
        s.reformat_elements_()
        same_atoms(env, s, lat, el, x, mm, byz, "sorting twice")
    elif p["what"] == "order":
        names = p["order"]
        t = s.reformat_elements(elements_lst=list(names))
        want = [i for nm in names for i in ids if el[i] == nm]
        env.assume(bool(want))
        same_atoms(env, t, lat, el, x, mm, want, "reordered copy")
        same_atoms(env, s, lat, el, x, mm, ids, "original of the reordered copy")
    elif p["what"] == "vac":
        s.remove_vacanies()
        want = [i for i in ids if el[i] != "X0+"]
        same_atoms(env, s, lat, el, x, mm, want, "without vacancies")
    elif p["what"] == "count":
        c = {z: sum(ZZ[e] == z for e in el) for z in set(ZZ[e] for e in el)}
        g = [int(v) for v in s.get_natoms()]
        env.check(g == [p["n"]] + [c[z] for z in sorted(c)], "atom counts in order of atomic number", info=(g, el))
        for order in ([14, 3, 1], [3, 14, 8], [1]):
            g = [int(v) for v in s.get_natoms(atomic_numbers_order=order)]
            env.check(g == [p["n"]] + [c.get(z, 0) for z in order], "atom counts in the requested order", info=(g, el))
        ce = s.get_centroid()
        for j in range(3):
            env.check_eq(ce[j] * p["n"], sum(frac2cart(r, lat)[j] for r in x), "centroid")
        same_atoms(env, s, lat, el, x, mm, ids, "unchanged by counting")
    elif p["what"] == "file":
        sp = lambda v: "{}".format(v) if not env.concrete else repr(float(v))
        with scratch() as d:
            L = ["  %d atoms" % p["n"], "Lattice vector"] + ["  " + "  ".join(map(sp, r)) for r in lat] + ["Position"]
            L += [" %d  %s 1 1 1" % (ZZ[el[i]], "  ".join(map(sp, x[i]))) for i in ids]
            open("a.config", "w").write("\n".join(L) + "\n")
            a = DS.from_file(file_format="pwmat", file_path=os.path.join(d, "a.config"))
            same_atoms(env, a, lat, el, x, None, ids, "file order")
            a = DS.from_file(file_format="pwmat", file_path=os.path.join(d, "a.config"), sort=True)
            same_atoms(env, a, lat, el, x, None, byz, "sorted on reading")
            a = DS.from_file(file_format="pwmat", file_path=os.path.join(d, "a.config"), sort=False)
            same_atoms(env, a, lat, el, x, None, ids, "file order")
    env.reach("end")


def vacuum(env):
    p = env.params
    DS = imp(env, "matersdk.io.publicLayer.structure").DStructure
    ax = p["axis"]
    lat = [[num(env, v) for v in r] for r in LATS[p["lat"]]]
    lat[ax][ax] = env.real("c", 4, 40)
    x = [[num(env, Q(i + j, 8)) for j in range(3)] for i in range(p["n"])]
    for i in range(p["n"]):
        x[i][ax] = env.real("x%d" % i, -1, 2) if i < 3 else x[i][ax]
    s = DS(lattice=lat, species=["Li"] * p["n"], coords=x)
    g = [bool(v) for v in s.judge_vacuum_exist()]
    env.check(len(g) == 3, "one answer per axis")
    for j in range(3):
        t = [frac2cart(r, lat)[j] for r in x]
        hi = lo = t[0]
        for v in t[1:]:
            hi = v if bool(v > hi) else hi
            lo = v if bool(v < lo) else lo
        a2 = sum(v * v for v in lat[j])
        ext = hi - lo + 10
        if env.concrete:
            env.ties or env.assume(abs(a2 ** 0.5 - ext) > 1e-9)
        env.check(g[j] == bool(a2 > ext * ext), "vacuum along an axis exactly when the lattice vector is more than 10 A longer than the atoms extend", info=(j, g))
    env.reach("end")


FN = ["structure.py: DStructure.reformat_elements_, reformat_elements, remove_vacanies, get_natoms, get_centroid, from_file(sort)", "structure.py: DStructure.judge_vacuum_exist"]


def cases(tier):
    T = tier == "thorough"
    out = []
    B = "%d sites, every assignment of the species %s, every coordinate%s symbolic"
    for n in (1, 2, 3, 4) if not T else (1, 2, 3, 4, 5):
        pool = ["Si", "H", "Li"]
        for what in ("sort", "count", "file"):
            for mag in (0, 1) if what == "sort" else (0,):
                if n == 5 and what != "sort":
                    continue
                out.append(Case("%s_%d_%d" % (what, n, mag), fn=edit, setup=SET, params=dict(n=n, pool=pool, lat=("ortho", "tri", "hex")[n % 3], what=what, mag=mag), reach=["end"], functions=FN[:1],
                                budget=300, bounds=B % (n, pool, " and moment" if mag else "")))
        for mag in (0, 1):
            for order in (["Si", "Li", "H"], ["Li", "H"], ["H", "Si", "Li", "O"]):
                out.append(Case("order_%d_%d_%s" % (n, mag, "".join(order)), fn=edit, setup=SET, params=dict(n=n, pool=pool, lat="tri", what="order", mag=mag, order=order), reach=["end"], functions=FN[:1],
                                budget=300, bounds=B % (n, pool, "") + ", order %s" % order))
            out.append(Case("vac_%d_%d" % (n, mag), fn=edit, setup=SET, params=dict(n=n, pool=["X0+", "Li", "H"], lat="hex", what="vac", mag=mag), reach=["end"], functions=FN[:1], budget=300,
                            bounds=B % (n, ["X0+", "Li", "H"], "")))
    els = ["Si", "O", "Si", "H", "O", "X0+", "H", "Li", "H", "Si", "Li", "X0+", "H", "O"]
    for what, e in [("sort", els), ("count", [q for q in els if q != "X0+"]), ("file", [q for q in els if q != "X0+"]), ("order", els), ("vac", els)]:
        out.append(Case("%s_wide" % what, fn=edit, setup=SET, params=dict(n=len(e), pool=None, els=e, lat="tri", what=what, mag=int(what != "file"), order=["H", "Si", "O", "Li"]), reach=["end"], functions=FN[:1],
                        budget=300, bounds="%d sites of mixed species, every coordinate and moment symbolic" % len(e)))
    for lat in ("ortho", "hex", "tri"):
        for ax in range(3):
            for n in ((1, 2) if lat != "ortho" else (1, 2, 3)):
                if lat == "tri" and n == 2 and not T:
                    continue
                out.append(Case("vacuum_%s_%d_%d" % (lat, ax, n), fn=vacuum, setup=SET, params=dict(lat=lat, axis=ax, n=n), reach=["end"], functions=FN[1:], budget=300,
                                bounds="%d atoms at symbolic positions along axis %d, that lattice component symbolic in [4,40]" % (n, ax)))
    return out
