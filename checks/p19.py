"""k-point input: path files, IN.KPT, meshes"""
import os, warnings
from engine.runner import Case
from engine.sym import ENG
from checks.common import REAL
from checks.pyh import *
from checks.pysys import LATS
from fractions import Fraction as Q
ASSUMPTIONS = [REAL, PYA, TEXT, "the symmetry analysis of pymatgen/spglib is replaced by a stand-in that hands over symbolic high-symmetry points",
               "IN.KPT segments have at least one point between labelled points (two adjacent labels mark a break)"]
SET = mods("matersdk.calculation.kpath.kpathSampler", "matersdk.calculation.kpoints.kmesh", "matersdk.io.pwmat.input.inkpt")
BOHR = Q("0.529177249")


def recip(env, lat):
    """rows b_i with a_i . b_j = delta_ij"""
    c = lambda a, b: [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
    v = sum((x * y for x, y in zip(lat[0], c(lat[1], lat[2]))), num(env, 0))
    return [[x / v for x in c(lat[(i + 1) % 3], lat[(i + 2) % 3])] for i in range(3)]


def two_pi(env):
    import math
    return 2 * (R.const(math.pi) if not env.concrete else math.pi)


def lattice(env, name):
    lat = [[num(env, v) for v in r] for r in LATS[name]]
    if env.params.get("scale"):
        k = env.real("a", *env.params["scale"])
        lat = [[k * v for v in r] for r in lat]
    return lat


def norm2(v):
    return v[0] * v[0] + v[1] * v[1] + v[2] * v[2]


def path(env):
    """HIGHK and gen.kpt"""
    DS = imp(env, "matersdk.io.publicLayer.structure").DStructure
    M = imp(env, "matersdk.calculation.kpath.kpathSampler")
    p = env.params
    lat = lattice(env, p["lat"])
    s = DS(lattice=lat, species=["Li"], coords=[[0, 0, 0]])
    arr = (lambda v: pyshim.NPX.array(v)) if not env.concrete else __import__("numpy").array
    pts = {"\\Gamma": [num(env, 0)] * 3, "M": [env.real("mx", Q(1, 8), 1), num(env, 0), num(env, 0)], "K": [num(env, Q(1, 3)), num(env, Q(1, 3)), num(env, 0)],
           "A": [num(env, 0), num(env, 0), env.real("az", Q(1, 8), 1) * (1 - 2 * env.choose("below", 0, 1))], "L": [num(env, Q(1, 2)), num(env, Q(-1, 4)), num(env, Q(1, 2) - env.choose("lz", 0, 1))]}
    paths = [["\\Gamma", "M", "K", "\\Gamma", "A", "L"], ["L", "M"], ["K", "A"], ["A", "L"], ["M", "K"]][:p["paths"]]
    base = M.KpathSampler.__mro__[1]
    init = base.__init__

    def stand_in(self, structure, *a, **k):
        self._structure = structure
        self._kpath = {"kpoints": {n: arr(list(v)) for n, v in pts.items()}, "path": [list(q) for q in paths]}
    nm = lambda q: "G" if q == "\\Gamma" else q
    dim = p["dim"]
    keep = {nm(k): v for k, v in pts.items() if dim == 3 or k not in ("A", "L")}
    want = [[nm(x) for x in q if nm(x) in keep] for q in paths]
    want = [q for q in want if dim == 3 or len(q) > 1]
    if not env.concrete:
        ENG.exact_print = False
    base.__init__ = stand_in
    try:
        k = M.KpathSampler(structure=s, dimension=dim)
    finally:
        base.__init__ = init
    env.check(sorted(k.kpoints) == sorted(keep), "high-symmetry points", info=sorted(k.kpoints))
    for n, v in keep.items():
        for a, b in zip(k.kpoints[n], v):
            env.check_eq(a, b, "coordinates of a high-symmetry point")
    env.check([list(q) for q in k.kpaths] == want, "paths along existing points", info=k.kpaths)
    den = num(env, p["density"])
    B = recip(env, lat)
    fl = pyshim.symfloat if not env.concrete else float
    with scratch() as d:
        k.HIGHK_file_path, k.gen_kpt_path = d + "/HIGHK", d + "/gen.kpt"
        for again in range(2):
            # writing twice replaces the files
            k.output_HIGHK_file()
            k.output_gen_kpt(density=den)
        L = open(d + "/HIGHK").read().splitlines()[1:]
        env.check(len(L) == len(keep), "one line per high-symmetry point")
        for l in L:
            t = l.split()
            env.check(t[3] in keep, "name of a point")
            for a, b in zip(t[:3], keep[t[3]]):
                close(env, fl(a), b, num(env, Q(1, 10 ** 6)), "printed coordinates")
        L = open(d + "/gen.kpt").read().splitlines()[1:]
        seg = [(q[i], q[i + 1]) for q in want for i in range(len(q) - 1)]
        env.check(len(L) == 3 * len(seg), "three lines per segment", info=(len(L), len(seg)))
        for i, (a, b) in enumerate(seg):
            n = L[3 * i].strip()
            env.check(n.isdigit(), "the number of points is an integer", info=n)
            n = int(n)
            for l, q in ((L[3 * i + 1], a), (L[3 * i + 2], b)):
                t = l.split()
                env.check(t[3] == q, "end points of a segment", info=(t, q))
                for x, y in zip(t[:3], keep[q]):
                    close(env, fl(x), y, num(env, Q(1, 10 ** 6)), "printed coordinates")
            dk = [y - x for x, y in zip(keep[a], keep[b])]
            l2 = norm2(frac2cart(dk, B))
            if env.concrete:
                q = (l2 ** 0.5) / den
                env.ties or env.assume(abs(q - round(q)) > 1e-9)
            # n = ceil(length / density)
            env.check(l2 <= n * den * n * den, "enough points on a segment", info=(n, val(l2)))
            env.check((l2 > (n - 1) * den * (n - 1) * den) | (n == 0), "no more points than the density asks for", info=(n, val(l2)))
        env.reach("end")


def inkpt(env):
    I = imp(env, "matersdk.io.pwmat.input.inkpt").Inkpt
    DS = imp(env, "matersdk.io.publicLayer.structure").DStructure
    p = env.params
    lat = lattice(env, p["lat"])
    B = recip(env, lat)
    tp = two_pi(env)
    sp = lambda x: "{}".format(x) if not env.concrete else repr(float(x))
    with scratch() as d:
        f, ac = d + "/IN.KPT", d + "/atom.config"
        L = ["  1 atoms", "Lattice vector"] + ["  " + "  ".join(sp(v) for v in r) for r in lat] + ["Position", " 3  0.0 0.0 0.0 1 1 1"]
        open(ac, "w").write("\n".join(L) + "\n")
        for rnd in range(2 if p["again"] else 1):
            labels = p["labels"] if rnd == 0 else p["labels"][:-1]
            n = len(labels)
            k = [[env.real("k%d%d%d" % (rnd, i, j), -1, 1) if i == p["sym"] or j == 0 else num(env, Q((2 * i + 3 * j) % 7 + i % 2, 8)) for j in range(3)] for i in range(n)]
            w = [env.real("w%d%d" % (rnd, i), 0, 1) for i in range(n)]
            fl, a0 = env.choose("iflag%d" % rnd, 1, 2), env.choose("a0%d" % rnd, 0, 1)
            open(f, "w").write("  %d\n  %d  %d\n" % (n, fl, a0) + "".join("  %s  %s%s\n" % ("  ".join(map(sp, k[i])), sp(w[i]), "  " + labels[i] if labels[i] else "") for i in range(n)))
            x = I(in_kpt_path=f)
            env.check(x.iflag == fl and x.a0 == a0, "flags", info=(x.iflag, x.a0))
            env.check(x.get_num_kpts() == n, "number of k points", info=x.get_num_kpts())
            got = x.get_kpt_coords_frac()
            env.check(tuple(got.shape) == (n, 3), "shape")
            A, Bo = x.get_kpt_coords_A(atom_config_path=ac), x.get_kpt_coords_Bohr(atom_config_path=ac)
            cart = [[v * tp for v in frac2cart(q, B)] for q in k]
            for i in range(n):
                for j in range(3):
                    env.check_eq(got[i][j], k[i][j], "fractional coordinates")
                    env.check_eq(A[i][j], cart[i][j], "Cartesian coordinates (1/Angstrom)")
                    env.check_eq(Bo[i][j], cart[i][j] * num(env, BOHR), "Cartesian coordinates (1/Bohr)")
            ww = x.get_kpt_weights()
            env.check(len(ww) == n, "number of weights")
            for a, b in zip(ww, w):
                env.check_eq(a, b, "weights")
            h = x.get_hsp()
            idx = [i for i in range(n) if labels[i]]
            env.check(list(h["hsp"]) == [labels[i] for i in idx], "labels of the high-symmetry points")
            env.check(len(h["coords_frac"]) == len(idx), "number of labelled points")
            for q, i in zip(h["coords_frac"], idx):
                for j in range(3):
                    env.check_eq(q[j], k[i][j], "coordinates of the high-symmetry points")
            # the abscissa grows by the distance between neighbouring points and stands still at a break
            D, Db = x.get_distance_from_gamma_A(atom_config_path=ac), x.get_distance_from_gamma_bohr(atom_config_path=ac)
            env.check(len(D) == n and len(Db) == n, "one abscissa per k point", info=len(D))
            env.check_eq(D[0], 0, "the abscissa starts at zero")
            for i in range(n):
                env.check_eq(Db[i], D[i] * num(env, BOHR), "abscissa in 1/Bohr")
                if i:
                    st = D[i] - D[i - 1]
                    if labels[i] and labels[i - 1]:
                        env.check_eq(st, 0, "no step at a break of the path")
                    else:
                        dk = [a - b for a, b in zip(cart[i], cart[i - 1])]
                        env.check_eq(st * st, norm2(dk), "step between neighbouring points")
                        env.check(st >= (0 if not env.concrete else -1e-9), "the abscissa never decreases")
            env.reach("read%d" % rnd)


def kmesh(env):
    K = imp(env, "matersdk.calculation.kpoints.kmesh").KMesh
    p = env.params
    lat = lattice(env, p["lat"])
    if p["which"] == 1:
        lat[2][2] = env.real("c", 8, 30)
    z = [num(env, 0), env.real("z", 0, 1) if p["which"] != 2 else num(env, Q(1, 4))]
    sp = lambda x: "{}".format(x) if not env.concrete else repr(float(x))
    den = env.real("density", Q(1, 50), 1) if p["which"] == 2 else num(env, Q(1, 20))
    with scratch() as d:
        L = ["  2 atoms", "Lattice vector"] + ["  " + "  ".join(sp(v) for v in r) for r in lat] + ["Position"] + [" 3  0.0 0.0 %s 1 1 1" % sp(v) for v in z]
        open(d + "/a", "w").write("\n".join(L) + "\n")
        k = K(file_format="pwmat", file_path=d + "/a")
        env.check([int(v) for v in k.get_kmesh(0)] == [1, 1, 1], "density 0 asks for one point")
        got = k.get_kmesh(den)
        vac = k.structure.judge_vacuum_exist()
    B = recip(env, lat)
    cart = [frac2cart([num(env, 0), num(env, 0), v], lat) for v in z]
    for i in range(3):
        n = got[i]
        env.check(bool(n >= 1) and bool(n == int(n)), "a positive integer", info=val(n))
        n = int(n)
        # |b_i| / density, half way cases may go either way
        l2 = norm2(B[i])
        t = (cart[1][i] - cart[0][i])
        ext2 = t * t
        a2 = norm2(lat[i])
        # vacuum: |a_i| - extent > 10
        ext = t if t >= 0 else -t
        if env.concrete:
            q = l2 ** 0.5 / den
            env.ties or env.assume(abs(q % 1 - 0.5) > 1e-9 and abs(a2 ** 0.5 - ext - 10) > 1e-9)
            wantvac = a2 ** 0.5 - ext > 10
        else:
            wantvac = bool(a2 > (ext + 10) * (ext + 10))
        env.check(bool(vac[i]) == wantvac, "vacuum along an axis", info=(i, vac[i]))
        if wantvac:
            env.check(n == 1, "one point along a vacuum direction", info=n)
        else:
            hi, lo = (n + num(env, Q(1, 2))) * den, (n - num(env, Q(1, 2))) * den
            env.check(l2 <= hi * hi, "mesh fine enough for the density", info=(n, val(l2)))
            if n > 1:
                env.check(l2 >= lo * lo, "mesh no finer than the density asks for", info=(n, val(l2)))
    env.reach("end")


FN = ["kpathSampler.py: KpathSampler.__init__, _get_kpoints, _get_kpaths, output_HIGHK_file, output_gen_kpt", "inkpt.py: Inkpt", "kmesh.py: KMesh.get_kmesh; structure.py: judge_vacuum_exist"]


def cases(tier):
    out = []
    T = tier == "thorough"
    for lat in ("ortho", "hex", "tri", "left"):
        for dim in (2, 3):
            for den in (Q(1, 10), Q(1, 20)) if T else (Q(1, 10) if dim == 2 else Q(3, 20),):
                out.append(Case("path_%s_%d_%d" % (lat, dim, den.denominator), fn=path, setup=SET, params=dict(lat=lat, dim=dim, paths=5 if T or dim == 2 else 3, density=den), reach=["end"],
                                functions=FN[:1], budget=500, bounds="lattice %s, dimension %d, 5 high-symmetry points, two symbolic coordinates in [1/8,1], density %s" % (lat, dim, den)))
    lab = [["G", "", "M", "", "K"], ["G", "", "", "M", "L", "", "H"], ["G", "", "M", "K", "", "G", "A", "", "L"]]
    for lat in ("ortho", "hex", "tri"):
        for i, l in enumerate(lab):
            for sym in (1, 3) if not T else range(len(l)):
                out.append(Case("inkpt_%s_%d_%d" % (lat, i, sym), fn=inkpt, setup=SET, params=dict(lat=lat, labels=l, sym=sym, again=i == 0), reach=["read0"], functions=FN[1:2], budget=500,
                                bounds="%d k points, first component and one whole point symbolic in [-1,1]" % len(l)))
    for i, l in enumerate([["G"] + [""] * 9 + ["M"] + [""] * 3 + ["K", "A"] + [""] * 9 + ["L"], ["G"] + [""] * 99 + ["X", "M", "", "R"]]):
        out.append(Case("inkpt_long_%d" % i, fn=inkpt, setup=SET, params=dict(lat="ortho", labels=l, sym=(12, 100)[i], again=i == 0), reach=["read0"], functions=FN[1:2], budget=500,
                        bounds="%d k points, first component and one whole point symbolic in [-1,1]" % len(l)))
    for lat in ("ortho", "hex", "tri"):
        for w in (0, 1, 2):
            if (lat, w) == ("tri", 1):
                continue        # all nine components of the reciprocal lattice become rational functions of c: out of reach
            out.append(Case("kmesh_%s_%d" % (lat, w), fn=kmesh, setup=SET, params=dict(lat=lat, which=w), reach=["end"], functions=FN[2:], budget=500,
                            bounds="lattice %s; symbolic: %s" % (lat, ("position of an atom along z", "that and the third lattice vector in [8,30]", "density in [1/50,1]")[w])))
    return out
