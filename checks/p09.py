"""atom.config files: what is written is what is read back"""
from engine.runner import Case
from engine.sym import ENG
from checks.common import REAL
from checks.pyh import *
ASSUMPTIONS = [REAL, PYA, TEXT]
ZS = {"H": 1, "Li": 3, "Si": 14, "Og": 118}
EL = ["H", "Li", "Si", "Og"]
ALL = ("H He Li Be B C N O F Ne Na Mg Al Si P S Cl Ar K Ca Sc Ti V Cr Mn Fe Co Ni Cu Zn Ga Ge As Se Br Kr Rb Sr Y Zr Nb Mo Tc Ru Rh Pd Ag Cd In Sn Sb Te I Xe Cs Ba La Ce Pr Nd Pm Sm Eu Gd Tb Dy Ho Er Tm Yb Lu "
       "Hf Ta W Re Os Ir Pt Au Hg Tl Pb Bi Po At Rn Fr Ra Ac Th Pa U Np Pu Am Cm Bk Cf Es Fm Md No Lr Rf Db Sg Bh Hs Mt Ds Rg Cn Nh Fl Mc Lv Ts Og").split()


def build(env, DS, n, tag, mag):
    lat = [[env.real("%slat%d%d" % (tag, i, j), -40, 40) for j in range(3)] for i in range(3)]
    el = list(env.params["els"]) if env.params.get("els") else [EL[env.choose("%sel%d" % (tag, i), 0, 3 if i == 0 else 1)] for i in range(n)]
    fr = [[env.real("%sx%d%d" % (tag, i, j), -3, 3) for j in range(3)] for i in range(n)]
    mm = [env.real("%sm%d" % (tag, i), -5, 5) for i in range(n)]
    s = DS(lattice=lat, species=el, coords=fr, site_properties={"magmom": mm} if mag else None)
    return s, lat, el, fr, mm


def verify(env, s, lat, el, fr, tag):
    env.check(len(s) == len(el), tag + ": number of atoms")
    env.check([str(x.specie) for x in s.sites] == el, tag + ": species in order")
    for i in range(3):
        for j in range(3):
            a, b = s.lattice.matrix[i][j], lat[i][j]
            d = a - b
            env.check(d * d <= b * b * num(env, Fraction(1, 10 ** 12)) + (1e-15 if env.concrete else 0), tag + ": lattice vectors")
    for i in range(len(el)):
        for j in range(3):
            close(env, s.frac_coords[i][j], fr[i][j], num(env, Fraction(1, 10 ** 6)), tag + ": fractional coordinates")


def roundtrip(env):
    DS = imp(env, "matersdk.io.publicLayer.structure").DStructure
    AC = imp(env, "matersdk.io.pwmat.utils.acextractor")
    n, mag = env.params["n"], env.params["mag"]
    if not env.concrete:
        ENG.exact_print = False
    s, lat, el, fr, mm = build(env, DS, n, "", mag)
    with scratch() as d:
        f = d + "/atom.config"
        s.to(file_path=f, file_format="pwmat", include_magnetic_moments=bool(mag))
        t = DS.from_file(file_path=f, file_format="pwmat")
        env.check(type(t) is DS, "type of the structure read")
        verify(env, t, lat, el, fr, "read back")
        if mag:
            got = AC.ACExtractor(f).get_magmoms()
            env.check(len(got) == n, "number of magnetic moments")
            for i in range(n):
                close(env, got[i], mm[i], num(env, Fraction(1, 100)), "magnetic moments")
            got = AC.ACstrExtractor(open(f).read()).get_magmoms()
            env.check(len(got) == n, "number of magnetic moments (str)")
            for i in range(n):
                close(env, got[i], mm[i], num(env, Fraction(1, 100)), "magnetic moments (str)")
        u = DS.from_str(open(f).read(), "pwmat")
        verify(env, u, lat, el, fr, "from_str")
        env.reach("read")
        if env.params["again"]:
            s2, lat2, el2, fr2, mm2 = build(env, DS, env.params["again"], "b", 0)
            s2.to(file_path=f, file_format="pwmat")
            verify(env, DS.from_file(file_path=f, file_format="pwmat"), lat2, el2, fr2, "read after rewriting the file")
            env.reach("again")


TAIL = [" 1 1 1", "     1  1  1", "   0  1  0", ""]
HEADS = ["  %d atoms", "%d", "   %d ATOMS,Iteration (fs) =    0.1000000000E+01"]


def foreign(env):
    """files laid out by other tools: section titles in any case, forces and stress, extra sections"""
    DS = imp(env, "matersdk.io.publicLayer.structure").DStructure
    AC = imp(env, "matersdk.io.pwmat.utils.acextractor")
    n = env.params["n"]
    lat = [[env.real("lat%d%d" % (i, j), -40, 40) for j in range(3)] for i in range(3)]
    el = [EL[env.choose("el%d" % i, 0, 1)] for i in range(n)]
    fr = [[env.real("x%d%d" % (i, j), -3, 3) for j in range(3)] for i in range(n)]
    mm = [env.real("m%d" % i, -5, 5) for i in range(n)]
    st = ["", "stress (eV):", "stress:", "stress in (eV):", "virial (eV) , total :", "|"][env.choose("stress", 0, 5 if n == 1 else 1)]
    up = env.params["case"]
    case = [str.upper, str.lower, str.title][up]
    head = HEADS[env.choose("head", 0, 2)] % n
    tail = TAIL[env.choose("tail", 0, 3)]
    extra = env.choose("extra", 0, 1)
    mag = env.choose("mag", 0, 1)
    sp = lambda x: "{}".format(x) if not env.concrete else repr(float(x))
    L = [head, case("Lattice vector") + (" (Angstrom)" if extra else "")]
    for i in range(3):
        L.append("  " + "    ".join(sp(v) for v in lat[i]) + ("     %s  0.1E+01 0.2E+01 -0.3E+01" % st if st else ""))
    L.append(case("position") + (" (normalized), move_x, move_y, move_z" if extra else ""))
    for i in range(n):
        L.append(" %d  " % ZS[el[i]] + "  ".join(sp(v) for v in fr[i]) + tail)
    if extra:
        L.append(case("force") + " (-force, eV/Angstrom)")
        L += [" %d  9.0 8.0 7.0" % ZS[el[i]] for i in range(n)]
    if mag:
        L.append(case("magnetic"))
        L += ["  %d  %s" % (ZS[el[i]], sp(mm[i])) for i in range(n)]
    if extra:
        L += [case("constraint_mag"), "  1 0.0"]
        if mag:
            L = L[:-2]
    with scratch() as d:
        f = d + "/a.config"
        open(f, "w").write("\n".join(L) + "\n")
        verify(env, DS.from_file(file_path=f, file_format="pwmat"), lat, el, fr, "foreign file")
        ext = [AC.ACExtractor(f)]
        if "atoms" in head.lower():     # the text reader is made for frames of a MOVEMENT file
            verify(env, DS.from_str(open(f).read(), "pwmat"), lat, el, fr, "foreign text")
            ext.append(AC.ACstrExtractor(open(f).read()))
        for a in ext:
            extracted(env, a, n, lat, el, fr, mm if mag else None if isinstance(a, AC.ACstrExtractor) else [0] * n)
        env.reach("read")


def extracted(env, a, n, lat, el, fr, mm):
    env.check(a.num_atoms == n and len(a.get_types()) == n and len(a.get_coords()) == 3 * n, "extractor sizes")
    for i in range(n):
        env.check(int(a.get_types()[i]) == ZS[el[i]], "extractor types")
        for j in range(3):
            env.check_eq(a.get_coords()[3 * i + j], fr[i][j], "extractor coordinates")
    for i in range(9):
        env.check_eq(a.get_basis_vectors()[i], lat[i // 3][i % 3], "extractor lattice")
    if mm is None:      # a text without moments: refused
        return
    got = a.get_magmoms()
    env.check(len(got) == n, "number of magnetic moments")
    for i in range(n):
        env.check_eq(got[i], mm[i], "magnetic moments")


SET = mods("matersdk.io.publicLayer.structure")
FN = ["structure.py: DStructure.to, from_file, from_str", "acextractor.py: ACExtractor, ACstrExtractor", "lineLocator.py: LineLocator, ListLocator"]


def cases(tier):
    out = []
    ns = (1, 2, 3) if tier == "quick" else (1, 2, 3, 5)
    for n in ns:
        for mag in (0, 1):
            again = 0 if mag else {1: 2, 2: 1, 3: 3, 5: 1}[n]
            out.append(Case("roundtrip_%d_%d" % (n, mag), fn=roundtrip, setup=SET, params=dict(n=n, mag=mag, again=again),
                            reach=["read"] + (["again"] if again else []), functions=FN,
                            bounds="%d atoms, 4 elements, lattice in [-40,40], coordinates in [-3,3], moments in [-5,5]" % n))
    for mag in (0, 1):
        out.append(Case("roundtrip_all_%d" % mag, fn=roundtrip, setup=SET, params=dict(n=118, mag=mag, again=0, els=ALL), reach=["read"], functions=FN, bounds="118 atoms, one of every element, lattice in [-40,40], coordinates in [-3,3], moments in [-5,5]"))
        out.append(Case("roundtrip_wide_%d" % mag, fn=roundtrip, setup=SET, params=dict(n=12, mag=mag, again=0, els=["Si", "O", "Si", "H", "Au", "O", "H", "H", "Si", "Au", "Li", "H"]), reach=["read"], functions=FN,
                        bounds="12 atoms in a mixed order, lattice in [-40,40], coordinates in [-3,3], moments in [-5,5]"))
    for n in ns[:2] if tier == "quick" else ns[:3]:
        for c in range(3):
            out.append(Case("foreign_%d_%d" % (n, c), fn=foreign, setup=SET, params=dict(n=n, case=c), reach=["read"], functions=FN,
                            bounds="%d atoms; header, tail, stress column, section and letter-case variants" % n))
    return out
