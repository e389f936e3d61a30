"""density-of-states and fat-band tables"""
import os, itertools, warnings
from engine.runner import Case
from engine import ext
from checks.common import REAL
from checks.pyh import *
from fractions import Fraction as Q
ASSUMPTIONS = [REAL, PYA, TEXT, "pandas.read_csv puts symbolic numbers into object columns; everything else of pandas is the real one",
               "projected columns are named Element-orbital; a requested orbital name is not the beginning of another one"]
BOHR = Q("0.529177249")
COLS = [["Mo-4D", "S-3P"], ["S-3S", "S-3PX", "Si-3S", "Si-3PX"], ["As-3PX", "S-3PX", "S-3PY"], ["C-2S", "Ca-4S", "Cl-3S", "C-2P"], ["O-2P"],
        ["H-1S", "He-1S", "Ho-4F", "H-2S"], ["N-2S", "Na-3S", "Mn-3D", "N-2P"]]


def setup(env):
    import pandas                                                             # noqa: F401
    warnings.simplefilter("ignore")
    pyshim.LOCAL["pandas"] = ext.PANDAS
    pyshim.instrument()
    pyshim.load("matersdk.io.pwmat.output.dostotalspin", "matersdk.io.pwmat.output.fatabandstructureTxt")
    pyshim.install()


def fmt(env, v):
    return repr(v) if env.concrete else str(v)


def table(env, df, cols, data, label, ordered=True):
    """the columns `cols` of df hold exactly data[row][col]"""
    got = [str(c) for c in df.columns]
    env.check(sorted(got) == sorted(cols) if not ordered else got == cols, label + ": columns", info=(got, cols))
    env.check(len(df) == len(data), label + ": rows", info=(len(df), len(data)))
    for j, c in enumerate(cols):
        col = df[c]
        for i in range(len(data)):
            env.check_eq(col.iloc[i], data[i][j], label)


def group(cols, row):
    """sum per element"""
    out = {}
    for c, v in zip(cols, row):
        e = c.split("-")[0]
        out[e] = v if e not in out else out[e] + v
    return out


def elements(cols):
    return list(dict.fromkeys(c.split("-")[0] for c in cols))


def dos(env):
    D = imp(env, "matersdk.io.pwmat.output.dostotalspin").Dostotalspin
    warnings.simplefilter("ignore")
    p = env.params
    proj = COLS[p["cols"]]
    k = env.choose("layout", 0, 3)
    total = "total" if k == 1 else "Total"
    head = ["# ", "", "#   ", " # "][k] + ["  ", " ", "\t", "    "][k].join(["Energy", total] + proj) + "\n"
    n = p["n"]

    def data(tag):
        return [[env.real("%s%d_%d" % (tag, i, j), -90, 90) for j in range(2 + len(proj))] for i in range(n)]
    with scratch() as d:
        path = d + "/DOS.totalspin"
        for turn in range(p["turns"]):
            rows = data("tu"[turn])
            text = head + "".join("   " + "   ".join(fmt(env, v) for v in r) + "\n" for r in rows)
            open(path, "w").write(text)
            x = D(dos_totalspin_path=path if env.choose("dir", 0, 1) == 0 else "DOS.totalspin")
            for rep in range(2):
                table(env, x.get_tdos(), ["Energy", total], [r[:2] for r in rows], "total density of states")
                el = elements(proj)
                want = []
                for r in rows:
                    g = group(proj, r[2:])
                    want.append([r[0]] + [g[e] for e in el])
                df = x.get_pdos_elements()
                env.check([str(c) for c in df.columns][0] == "Energy", "energy column first")
                table(env, df, ["Energy"] + el, want, "density of states per element", ordered=False)
                table(env, x.get_pdos_orbitals(), ["Energy"] + proj, [[r[0]] + r[2:] for r in rows], "density of states per orbital")
            env.check(open(path).read() == text, "the file itself is left alone")
            del x
            env.check(sorted(os.listdir(d)) == ["DOS.totalspin"], "no files are left behind", info=sorted(os.listdir(d)))
    env.reach("end")


def fat(env):
    Fb = imp(env, "matersdk.io.pwmat.output.fatabandstructureTxt").FatbandStructure
    warnings.simplefilter("ignore")
    p = env.params
    proj = COLS[p["cols"]]
    nb, nk = (p["nb"], p["nk"]) if p.get("fix") else (env.choose("bands", 1, p["nb"]), env.choose("kpoints", 1, p["nk"]))
    head = ["KPOINT", "ENERGY", "weight_tot"] + proj
    data = [[[env.real("v%d_%d_%d" % (b, k, j), -90, 90) for j in range(len(head))] for k in range(nk)] for b in range(nb)]
    st = env.choose("layout", 0, 1)
    text = ["  ", " "][st].join(head) + "\n"
    for b in range(nb):
        text += ["BAND   %d\n", "# BAND %d\n"][st] % (b + 1)
        for r in data[b]:
            text += "  " + "   ".join(fmt(env, v) for v in r) + "\n"
        text += "\n"
    with scratch() as d:
        open(d + "/fat.txt", "w").write(text)
        x = Fb(d + "/fat.txt")
        env.check(x.num_bands == nb and x.num_kpoints == nk, "numbers of bands and k points", info=(x.num_bands, x.num_kpoints))
        el = elements(proj)
        env.check(sorted(x.elements_lst) == sorted(el), "elements", info=x.elements_lst)
        full = [[[r[0] / BOHR if not env.concrete else r[0] / 0.529177249] + r[1:] for r in B] for B in data]
        t = x.get_total_dfs_lst()
        e = x.get_element_dfs_lst()
        env.check(len(t) == nb and len(e) == nb, "one table per band", info=(len(t), len(e)))
        for b in range(nb):
            table(env, t[b], head, full[b], "whole table of a band")
            want = []
            for r in full[b]:
                g = group(proj, r[3:])
                want.append(r[:3] + [g[q] for q in el])
            table(env, e[b], head[:3] + el, want, "weights per element", ordered=False)
        for q in proj:
            if any(o != q and o.lower().startswith(q.lower()) for o in proj):
                continue
            for name in (q, q.lower()):
                o = x.get_orbital_dfs_lst(orbital_name=name)
                env.check(len(o) == nb, "one table per band")
                j = head.index(q)
                for b in range(nb):
                    table(env, o[b], head[:3] + [q], [r[:3] + [r[j]] for r in full[b]], "weights of one orbital")
    env.reach("end")


def cases(tier):
    out = []
    th = tier == "thorough"
    for c in range(len(COLS)):
        out.append(Case("dos_%d" % c, fn=dos, setup=setup, params=dict(cols=c, n=3 if th else 2, turns=2 if c in (1, 4) or th else 1), reach=["end"], budget=400,
                        functions=["dostotalspin.py: Dostotalspin (all methods)"],
                        bounds="columns %s, %d energies, every number symbolic, four header layouts, rewritten file" % (COLS[c], 3 if th else 2)))
        out.append(Case("fat_%d" % c, fn=fat, setup=setup, params=dict(cols=c, nb=3 if th else 2, nk=3 if th else 2), reach=["end"], budget=400,
                        functions=["fatabandstructureTxt.py: FatbandStructure (all methods)"],
                        bounds="columns %s, 1-%d bands, 1-%d k points, every number symbolic" % (COLS[c], 3 if th else 2, 3 if th else 2)))
    out.append(Case("dos_long", fn=dos, setup=setup, params=dict(cols=2, n=101, turns=1), reach=["end"], budget=400,
                    functions=["dostotalspin.py: Dostotalspin (all methods)"], bounds="columns %s, 101 energies, every number symbolic" % COLS[2]))
    for nb, nk in ((12, 2), (2, 13), (11, 11)):
        out.append(Case("fat_%dx%d" % (nb, nk), fn=fat, setup=setup, params=dict(cols=1, nb=nb, nk=nk, fix=1), reach=["end"], budget=400,
                        functions=["fatabandstructureTxt.py: FatbandStructure (all methods)"], bounds="columns %s, %d bands, %d k points, every number symbolic" % (COLS[1], nb, nk)))
    return out
