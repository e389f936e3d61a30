"""Python supercells: every image once, home-cell atoms identified"""
from engine.runner import Case
from checks.common import REAL
from checks.pyh import *
from checks import pysys
from checks.pysys import LATS, Z
from fractions import Fraction as Q
ASSUMPTIONS = [REAL, PYA, "repetition counts are odd, as make_supercell_ documents"]
PAT = [["Li"], ["Si", "H"], ["H", "Si", "H"], ["Si", "Li", "H", "Li"],
       ["Si", "Li", "H", "Li", "Si", "H", "H", "Li", "Si", "Li", "H", "Si"]]


def supercell(env):
    DS = imp(env, "matersdk.io.publicLayer.structure").DStructure
    p = env.params
    lat = [[num(env, v) for v in r] for r in LATS[p["lat"]]]
    if p["symlat"]:
        k = env.real("a", 2, 6)
        lat = [[k * v for v in r] for r in lat] if p["lat"] != "ortho" else [[k, lat[0][1], lat[0][2]], lat[1], [lat[2][0], lat[2][1], env.real("c", 2, 9)]]
    el = PAT[p["pat"]]
    n = len(el)
    fr = [[env.real("x%d_%d" % (i, j), -1, 2) for j in range(3)] for i in range(n)]
    s = DS(lattice=lat, species=el, coords=fr)
    sc = p["scaling"]
    cart = [frac2cart(f, lat) for f in fr]
    want = [(Z[el[a]], add(cart[a], frac2cart([num(env, v) for v in im], lat))) for im in images(sc) for a in range(n)]
    raw = s.make_supercell_(scaling_matrix=list(sc), reformat_mark=False)
    srt = s.make_supercell_(scaling_matrix=list(sc), reformat_mark=True)
    key = [int(v) for v in s.get_key_idxs(list(sc))]
    for S_, tag in ((raw, "as built"), (srt, "sorted")):
        env.check(len(S_) == len(want), tag + ": number of atoms")
        for i in range(3):
            for j in range(3):
                env.check_eq(S_.lattice.matrix[i][j], lat[i][j] * sc[i], tag + ": lattice")
        left = list(want)
        for site in S_.sites:
            m = match(env, site.specie.Z, vec(site.coords), left, tag + ": every image exactly once")
            left.pop(m)
    zs = [site.specie.Z for site in srt.sites]
    env.check(zs == sorted(zs), "sorted by atomic number")
    env.check(len(key) == n and key == sorted(set(key)), "one home-cell index per atom")
    order = sorted(range(n), key=lambda i: Z[el[i]])
    for i, k in enumerate(key):
        env.check(0 <= k < len(srt), "home-cell index in range")
        env.check(srt.sites[k].specie.Z == Z[el[order[i]]], "home-cell species")
        for j in range(3):
            env.check_eq(srt.cart_coords[k][j], cart[order[i]][j], "home-cell atoms keep their positions")
    # the input structure is untouched
    env.check(len(s) == n, "input unchanged")
    for i in range(n):
        for j in range(3):
            env.check_eq(s.cart_coords[i][j], cart[i][j], "input unchanged")
    env.reach("end")


def owner(env):
    """get_site_index: the in-cell index (1-based) of any image, 0 for a point that is no image of an atom"""
    DS = imp(env, "matersdk.io.publicLayer.structure").DStructure
    p = env.params
    lat = [[num(env, v) for v in r] for r in LATS[p["lat"]]]
    n = p["n"]
    fr = [[num(env, Q((3 * i + 2 * j) % 7, 8)) for j in range(3)] for i in range(n)]
    a = env.choose("atom", 0, n - 1)
    ax = env.choose("axis", 0, 2)
    fr[a][ax] = env.real("u", -1, 2)
    import numpy as np
    s = DS(lattice=lat, species=["Li"] * n, coords=fr)
    cart = [frac2cart(f, lat) for f in fr]
    b = env.choose("target", 0, n)
    im = [env.choose("i%d" % k, -1, 1) for k in range(3)]
    arr = (lambda v: pyshim.NPX.array(v)) if not env.concrete else np.array
    if b < n:
        # no other atom is an image of the target
        t = fr[b]
        for o in range(n):
            if o != b and all(same(fr[o][k], t[k]) for k in range(3) if k != ax):
                for m in range(-3, 4):
                    d = fr[o][ax] - t[ax] - m
                    env.assume((d > num(env, Q(1, 100))) | (d < num(env, Q(-1, 100))))
        x = add(cart[b], frac2cart([num(env, v) for v in im], lat))
        env.check(int(s.get_site_index(arr(x))) == b + 1, "owner of an image")
        env.reach("owner")
    else:
        # a point that differs from every atom along z (coordinates are eighths)
        if ax == 2:
            for m in range(-4, 4):
                d = fr[a][2] - num(env, Q(1, 16)) - im[2] - m
                env.assume((d > num(env, Q(1, 100))) | (d < num(env, Q(-1, 100))))
        x = frac2cart([num(env, Q(1, 4)), num(env, Q(1, 8)), num(env, Q(1, 16)) + im[2]], lat)
        env.check(int(s.get_site_index(arr(x))) == 0, "no atom there")
        env.reach("none")


SET = mods("matersdk.io.publicLayer.structure")
FN = ["structure.py: DStructure.make_supercell_, get_key_idxs, _get_bidx2aidx_supercell, reformat_elements_", "structure.py: DStructure.get_site_index"]


def cases(tier):
    out = []
    sc = [(1, 1, 1), (3, 1, 1), (1, 3, 1), (1, 1, 3), (3, 3, 1), (1, 3, 3), (3, 3, 3), (5, 1, 1), (1, 5, 1)]
    if tier == "thorough":
        sc += [(1, 1, 5), (3, 1, 3), (5, 3, 1), (3, 5, 3), (5, 5, 3), (7, 1, 1)]
    k = 0
    for s in sc:
        for pat in range(4):
            for lat in (("ortho", "hex", "tri", "left")[(k + pat) % 4],) if tier == "quick" else ("ortho", "hex", "tri", "left"):
                sym = 1 if lat == "ortho" else 0
                out.append(Case("supercell_%d%d%d_%d_%s" % (s + (pat, lat)), fn=supercell, setup=SET, reach=["end"], functions=FN[:1],
                                params=dict(scaling=s, pat=pat, lat=lat, symlat=sym),
                                bounds="%d atoms at symbolic positions in [-1,2], repetition %s, lattice %s" % (len(PAT[pat]), s, lat)))
        k += 1
    for s in ((1, 1, 3), (3, 1, 1), (3, 3, 1)):
        out.append(Case("supercell_%d%d%d_many" % s, fn=supercell, setup=SET, reach=["end"], functions=FN[:1], params=dict(scaling=s, pat=4, lat="hex", symlat=0),
                        bounds="12 atoms at symbolic positions in [-1,2], repetition %s, lattice hex" % (s,)))
    for lat in ("ortho", "hex", "tri") if tier == "quick" else tuple(LATS):
        for n in (2, 3) if tier == "quick" else (2, 3, 4):
            out.append(Case("owner_%s_%d" % (lat, n), fn=owner, setup=SET, reach=["owner", "none"], functions=FN[1:],
                            params=dict(lat=lat, n=n), bounds="%d atoms, one symbolic coordinate in [-1,2], images -1..1" % n))
    return out
