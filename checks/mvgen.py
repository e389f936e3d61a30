"""MOVEMENT files with symbolic content"""
from checks.pyh import *

SEP = " " + "-" * 60


class Frame:
    pass


def frame(env, tag, zs, virial, eatom, mag, force=True, vel=False, lo=-3, hi=3):
    f = Frame()
    r = lambda s, a=lo, b=hi: env.real(tag + s, a, b)
    f.z = list(zs)
    n = len(zs)
    f.e = [r("e%d" % i, -1000, 1000) for i in range(3)]
    f.box = [[r("b%d%d" % (i, j), -9, 9) for j in range(3)] for i in range(3)]
    f.x = [[r("x%d%d" % (i, j)) for j in range(3)] for i in range(n)]
    f.f = [[r("f%d%d" % (i, j)) for j in range(3)] for i in range(n)] if force else None
    f.v = [[r("v%d%d" % (i, j)) for j in range(3)] for i in range(3)] if virial else None
    f.ea = [r("a%d" % i) for i in range(n)] if eatom else None
    f.m = [r("m%d" % i) for i in range(n)] if mag else None
    f.vel = vel
    return f


def text(env, f, header=0, junk=0):
    t = lambda x: "{}".format(x) if not env.concrete else "%.12E" % x
    j = "   ".join
    n = len(f.z)
    if header == 0:
        L = [" %d atoms,Iteration (fs) =    0.3000000000E+01, Etot,Ep,Ek (eV) =   %s, SCF =     7" % (n, j(map(t, f.e)))]
    else:
        L = [" %d atoms,Iteration=    0.0000000000E+00, Etot,Ep,Ek=   %s" % (n, j(map(t, f.e)))]
    if junk & 1:
        L.append(" MD_INFO: METHOD(1-VV,2-NH,3-LV,4-LVPR,5-NHRP) TIME(fs) TEMP(K)")
        L.append("         *    0.1E+01   0.3E+03  ")
    L.append(" Lattice vector (Angstrom)")
    for i in range(3):
        L.append("  " + j(map(t, f.box[i])) + ("     stress (eV):  " + j(map(t, f.v[i])) if f.v else ""))
    L.append(" Position (normalized), move_x, move_y, move_z")
    for z, x in zip(f.z, f.x):
        L.append("  %d    %s     1  1  1" % (z, j(map(t, x))))
    if f.f:
        L.append(" Force (-force, eV/Angstrom)")
        for z, x in zip(f.z, f.f):
            L.append("  %d    %s" % (z, j(map(t, x))))
    if f.vel:
        L.append(" Velocity (bohr/fs)")
        for z in f.z:
            L.append("  %d    7.0 7.5 8.0" % z)
    if f.ea:
        L.append(" Atomic-Energy, Etot(eV),E_nonloc(eV),Q_atom:dE(eV)=  -0.1281163115E+06")
        for z, e in zip(f.z, f.ea):
            L.append("  %d   %s    0.2413350871E+02    0.3710442365E+01" % (z, t(e)))
    if f.m:
        L.append(" Magnetic")
        for z, m in zip(f.z, f.m):
            L.append("  %d   %s" % (z, t(m)))
    L.append(SEP)
    return "\n".join(L) + "\n"
