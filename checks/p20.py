"""REPORT and OUT.FERMI: bands, band edges, gap"""
import os
from engine.runner import Case
from checks.common import REAL
from checks.pyh import *
from fractions import Fraction as Q
ASSUMPTIONS = [REAL, PYA, TEXT, "energies carry at most the four decimals REPORT prints, so rounding them to four decimals changes nothing; edges are compared to 1e-4, degeneracy (0.001 eV) away from its threshold by 1e-4",
               "band edges are asked of systems with at least one state on either side of the Fermi level"]
SET = mods("matersdk.io.pwmat.output.report", "matersdk.io.pwmat.output.outfermi")
EPS = Q(1, 10 ** 4)


def write(env, path, E, name, extra=""):
    sp = lambda x: "{}".format(x) if not env.concrete else repr(float(x))
    nk, nb = len(E[0]), len(E[0][0])
    L = ["  4  1", " IN.ATOM    = %s" % name, " JOB        = NONSCF", " SPIN       = %d" % len(E), " NUM_KPT    =  %d" % nk, " NUM_BAND   =  %d" % nb, extra]
    for s in E:
        for k, row in enumerate(s):
            L += [" kpt, lambda =  %d" % (k + 1), " eigen energies, in eV"]
            L += ["   " + "  ".join(sp(v) for v in row[i:i + 5]) for i in range(0, nb, 5)]
            L += [" ---------"]
    open(path, "w").write("\n".join(L) + "\n")


def fermi(env, path, ef):
    sp = "{}".format(ef) if not env.concrete else repr(float(ef))
    open(path, "w").write("  Fermi energy(eV) = %s  (eV)\n" % sp)


def readback(env):
    """numbers come out where they stand, also after the files were rewritten"""
    p = env.params
    with scratch() as d:
        M = imp(env, "matersdk.io.pwmat.output.report")
        for rnd, (ns, nk, nb) in enumerate(p["shapes"]):
            E = [[[env.real("e%d_%d_%d_%d" % (rnd, s, k, b), -20, 20) for b in range(nb)] for k in range(nk)] for s in range(ns)]
            write(env, "REPORT", E, "at%d.config" % rnd, ["", " # comment"][rnd % 2])
            r = M.Report(report_path=os.path.join(d, "REPORT"))
            env.check(r.get_num_bands() == nb and r.get_num_kpts() == nk, "numbers of bands and k points", info=(r.get_num_bands(), r.get_num_kpts()))
            env.check(r.get_in_atom() == "at%d.config" % rnd, "name of the structure file")
            g = r.get_eigen_energies()
            env.check(set(g) == {"up", "down"}, "both spin channels")
            env.check(tuple(g["up"].shape) == (nk, nb), "one row per k point, one column per band", info=g["up"].shape)
            env.check(tuple(g["down"].shape) == (nk, nb) if ns == 2 else g["down"].size == 0, "second spin channel", info=g["down"].shape)
            for s in range(ns):
                for k in range(nk):
                    for b in range(nb):
                        env.check_eq(g[("up", "down")[s]][k][b], E[s][k][b], "energies of the right spin, k point and band")
            ef = env.real("ef%d" % rnd, -5, 5)
            fermi(env, "OUT.FERMI", ef)
            F_ = imp(env, "matersdk.io.pwmat.output.outfermi").OutFermi(out_fermi_path=os.path.join(d, "OUT.FERMI"))
            close(env, F_.get_efermi(), ef, num(env, Q(1, 2000)), "Fermi energy (to 0.001 eV)")
            env.reach("r%d" % rnd)


def edges(env):
    p = env.params
    E = [[[None] * len(p["base"][0]) for _ in p["base"]] for _ in range(p["spins"])]
    ef = p["ef"]
    n = 0
    for s in range(p["spins"]):
        for k, row in enumerate(p["base"]):
            for b, v in enumerate(row):
                # the second channel is shifted a little
                c = Q(v) + Q(ef) + (Q(3, 10) if Q(v) > 0 else Q(-1, 5)) * s
                E[s][k][b] = env.real("e%d%d%d" % (s, k, b), Q(ef) - 2, Q(ef) + 2) if (s, k, b) in p["sym"] else num(env, c)
    for s_, k_, b_, t, dl in p.get("tie", ()):
        # a partner at the same energy up to dl
        E[s_][k_][b_] = E[t[0]][t[1]][t[2]] + env.real("d%d%d%d" % (s_, k_, b_), -dl, dl)
    if env.concrete:
        E = [[[round(v, 4) for v in r] for r in s] for s in E]
    else:
        ENG.grid = 4
    efv = num(env, ef)
    tol = num(env, EPS)
    with scratch() as d:
        write(env, "REPORT", E, "atom.config")
        fermi(env, "OUT.FERMI", efv)
        M = imp(env, "matersdk.io.pwmat.output.report")
        r = M.Report(report_path=os.path.join(d, "REPORT"))
        fp = os.path.join(d, "OUT.FERMI")
        fl = [(s, k, b, E[s][k][b]) for s in range(len(E)) for k in range(len(E[0])) for b in range(len(E[0][0]))]
        if env.concrete:
            env.ties or env.assume(all(abs(abs(e - ef) - 1e-4) > 1e-9 for *_, e in fl))
        metal = any(any(bool(E[s][k][b] - efv < -tol) for k in range(len(E[0]))) and any(bool(E[s][k][b] - efv > tol) for k in range(len(E[0])))
                    for s in range(len(E)) for b in range(len(E[0][0])))
        env.check(bool(r._is_metal(out_fermi_path=fp)) == metal, "metallic exactly when a band crosses the Fermi level", info=metal)
        cb, vb = r.get_cbm(out_fermi_path=fp), r.get_vbm(out_fermi_path=fp)
        if metal:
            env.check(cb is None and vb is None, "no band edges in a metal")
            env.reach("metal")
            return
        up = [x for x in fl if bool(x[3] >= efv)]
        dn = [x for x in fl if bool(x[3] <= efv)]
        env.assume(bool(up) and bool(dn))
        c = up[0]
        for x in up[1:]:
            c = x if bool(x[3] < c[3]) else c
        v = dn[0]
        for x in dn[1:]:
            v = x if bool(x[3] > v[3]) else v
        for dct, ext, pool, what in ((cb, c, up, "conduction band minimum"), (vb, v, dn, "valence band maximum")):
            L = list(zip(dct["spins"], dct["kpts"], dct["bands"]))
            env.check(len(dct["energies"]) == len(dct["spins"]) == len(dct["kpts"]) == len(dct["bands"]) >= 1, what + ": lists of equal length")
            L = [(("up", "down").index(a), int(k) - 1, int(b) - 1) for a, k, b in L]
            env.check(len(set(L)) == len(L), what + ": every state once", info=L)
            close(env, dct["energies"][0], ext[3], tol, what + ": energy")
            ok = lambda s, k, b: s < len(E) and 0 <= k < len(E[0]) and 0 <= b < len(E[0][0])
            env.check(all(ok(*x) for x in L), what + ": indices of existing states, counted from 1", info=L)
            s, k, b = L[0]
            env.check(any(x[:3] == (s, k, b) for x in pool), what + ": on its side of the Fermi level")
            close(env, E[s][k][b], ext[3], tol, what + ": state")
            for e in dct["energies"]:
                close(env, e, ext[3], tol, what + ": shared energy")
            for s2, k2, b2 in L:
                env.check(k2 == k, what + ": sharing bands at the same k point")
                close(env, E[s2][k2][b2], ext[3], num(env, Q(1, 1000) + EPS), what + ": sharing bands")
            for s2 in range(len(E)):
                for b2 in range(len(E[0][0])):
                    if (s2, k, b2) in L:
                        continue
                    dd = E[s2][k][b2] - ext[3]
                    lim = num(env, Q(1, 1000) - EPS)
                    env.check((dd >= lim) | (dd <= -lim), what + ": no sharing band left out", info=(s2, b2))
        gap = r.get_bandgap(out_fermi_path=fp)
        close(env, gap, c[3] - v[3], 2 * tol, "gap")
        env.check(r.get_bandgap_type(out_fermi_path=fp) == (1 if cb["kpts"][0] == vb["kpts"][0] else 0), "direct exactly when both edges lie at the same k point")
        env.reach("gap")


FN = ["report.py: Report", "outfermi.py: OutFermi.get_efermi"]


def cases(tier):
    T = tier == "thorough"
    out = []
    for i, sh in enumerate([[(1, 2, 4)], [(2, 2, 5), (1, 1, 5)], [(1, 3, 6), (2, 2, 3)], [(2, 3, 2), (2, 1, 10)], [(2, 1, 11), (1, 2, 1)], [(2, 12, 3), (1, 11, 17)], [(1, 101, 2)], [(2, 2, 101)]] + ([[(2, 4, 13), (1, 6, 16)]] if T else [])):
        out.append(Case("read_%d" % i, fn=readback, setup=SET, params=dict(shapes=sh), reach=["r0"], functions=FN, budget=300,
                        bounds="files of (spins, k points, bands) = %s written one after another, every energy symbolic" % sh))
    # energies relative to the Fermi level: rows k points, columns bands
    b2 = [["-1.5", "-0.5", "0.7", "1.2"], ["-1.2", "-0.8", "0.4", "1.5"], ["-1.4", "-0.3", "0.9", "1.1"]]
    sets = [("1a", 1, b2, [(0, 0, 1), (0, 1, 2)]), ("1b", 1, b2, [(0, 0, 2), (0, 2, 2), (0, 1, 3)]), ("1c", 1, b2, [(0, 0, 1), (0, 1, 1), (0, 2, 0)]),
            ("2a", 2, b2[:2], [(0, 0, 1), (1, 1, 1)]), ("2b", 2, b2[:2], [(0, 1, 2), (1, 0, 2)]), ("2c", 2, b2[:2], [(1, 0, 1), (1, 1, 2)]),
            ("1d", 1, b2[:1], [(0, 0, 1), (0, 0, 2)]), ("1e", 1, b2, [(0, 2, 1), (0, 2, 2)])]
    if T:
        sets += [("1f", 1, b2, [(0, 0, 1), (0, 1, 2), (0, 2, 1)]), ("1g", 1, b2, [(0, 0, 1), (0, 1, 2), (0, 2, 2)]), ("2d", 2, b2, [(0, 0, 1), (1, 1, 2), (1, 2, 1)]),
                 ("2e", 2, b2, [(0, 0, 2), (0, 1, 2), (1, 2, 2)])]
    for nm, ns, b, sy in sets:
        for ef in ("0", "1.234") if T else (("1.234",) if nm[1] in "ace" else ("-2.5",)):
            out.append(Case("edges_%s_%s" % (nm, ef), fn=edges, setup=SET, params=dict(spins=ns, base=b, sym=sy, ef=float(ef)), reach=["gap"], functions=FN, budget=500,
                            bounds="%d spin channels, %d k points, %d bands; energies %s symbolic within 2 eV of the Fermi level" % (ns, len(b), len(b[0]), sy)))
    ties = [("t1", 1, b2, [(0, 1, 2)], [(0, 1, 3, (0, 1, 2), Q(1, 500))]), ("t2", 1, b2, [(0, 2, 1)], [(0, 2, 0, (0, 2, 1), Q(1, 500))]),
            ("t3", 2, b2[:2], [(0, 1, 2)], [(1, 1, 2, (0, 1, 2), Q(1, 500))]), ("t4", 2, b2[:2], [(1, 0, 1)], [(0, 0, 1, (1, 0, 1), Q(1, 500))]),
            ("t5", 1, b2, [(0, 0, 2)], [(0, 0, 3, (0, 0, 2), Q(1, 500)), (0, 1, 2, (0, 0, 2), Q(1, 500))])]
    for nm, ns, b, sy, tie in ties:
        out.append(Case("edges_" + nm, fn=edges, setup=SET, params=dict(spins=ns, base=b, sym=sy, ef=0.125, tie=tie), reach=["gap"], functions=FN, budget=500,
                        bounds="%d spin channels, %d k points, %d bands; energy %s symbolic with partners within 0.002 eV" % (ns, len(b), len(b[0]), sy)))
    return out
