"""MOVEMENT trajectories: every frame comes out as it stands in the file"""
from engine.runner import Case
from checks.common import REAL
from checks.pyh import *
from checks.mvgen import frame, text
ASSUMPTIONS = [REAL, PYA, TEXT, "all frames of a file carry the same optional sections, as PWmat writes them"]
SET = mods("matersdk.io.pwmat.output.movement", "matersdk.io.pwmat.utils.mvextractor")
ZP = [[14], [3, 14], [14, 3], [3, 14, 3], [14, 3, 14, 8, 1, 3, 1, 14, 14, 3, 1, 8]]


def eqv(env, got, want, label):
    g = list(got.reshape(-1)) if hasattr(got, "reshape") else list(got)
    env.check(len(g) == len(want), label + ": length")
    for a, b in zip(g, want):
        env.check_eq(a, b, label)


def flat(m):
    return [v for r in m for v in r]


def setup_file(env, d):
    p = env.params
    opt = env.choose("sections", 0, 7)
    force = p["force"]
    fr = [frame(env, "F%d" % k, ZP[p["pat"]], opt & 1, opt & 2, opt & 4, force, vel=p["vel"]) for k in range(p["frames"])]
    path = d + "/MOVEMENT"
    # the first frame carries extra lines in PWmat files
    open(path, "w").write("".join(text(env, f, p["header"], junk=1 if (k == 0) == bool(p["junk"]) else 0) for k, f in enumerate(fr)))
    return fr, path


def want_info(f):
    out = [("box", flat(f.box)), ("types", f.z), ("coords", flat(f.x)), ("etot", [f.e[0]]), ("fatoms", flat(f.f) if f.f else [0] * 3 * len(f.z))]
    if f.v:
        out.append(("virial", flat(f.v)))
    if f.ea:
        out.append(("eatoms", f.ea))
    if f.m:
        out.append(("magmoms", f.m))
    return out


def mvextract(env):
    M = imp(env, "matersdk.io.pwmat.utils.mvextractor").MVExtractor
    with scratch() as d:
        fr, path = setup_file(env, d)
        x = M(movement_path=path)
        env.check(int(x.get_num_frames()) == len(fr), "number of frames")
        labels = [l for l, _ in want_info(fr[0])]
        env.check(list(x.get_info_labels()) == labels, "labels of the extracted arrays", info=x.get_info_labels())
        k = env.choose("frame", 0, len(fr) - 1)
        got = x.get_frame_info(fidx=k)
        env.check(len(got) == len(labels), "one array per label")
        for g, (l, w) in zip(got, want_info(fr[k])):
            eqv(env, g, w, "frame: " + l)
        allf = x.get_frames_info()
        env.check(len(allf) == len(labels), "all frames: one array per label")
        for i, l in enumerate(labels):
            env.check(allf[i].shape[0] == len(fr), "all frames: number of frames")
            for q, f in enumerate(fr):
                eqv(env, allf[i][q], want_info(f)[i][1], "all frames: " + l)
        env.reach("end")


def structure(env, s, f, label):
    env.check([q.specie.Z for q in s.sites] == f.z, label + ": species")
    eqv(env, s.lattice.matrix, flat(f.box), label + ": lattice")
    eqv(env, s.frac_coords, flat(f.x), label + ": coordinates")


def movement(env):
    M = imp(env, "matersdk.io.pwmat.output.movement").Movement
    with scratch() as d:
        fr, path = setup_file(env, d)
        x = M(movement_path=path)
        k = env.choose("frame", 0, len(fr) - 1)
        structure(env, x.get_frame_structure(idx_frame=k), fr[k], "frame structure")
        for a, b in zip(x.get_frame_energy(idx_frame=k), fr[k].e):
            env.check_eq(a, b, "frame energies")
        eqv(env, x.get_frame_virial(idx_frame=k), flat(fr[k].v) if fr[k].v else [0] * 9, "frame virial")
        ss = x.get_all_frame_structures()
        env.check(len(ss) == len(fr), "number of structures")
        inf = x.get_all_frame_structures_info()
        env.check(len(inf[0]) == len(fr), "number of structures (info)")
        for s, s2, f in zip(ss, inf[0], fr):
            structure(env, s, f, "all structures")
            structure(env, s2, f, "all structures (info)")
        for i in range(3):
            eqv(env, inf[1 + i], [f.e[i] for f in fr], "energies of all frames")
        if fr[0].v:
            eqv(env, inf[4], [v for f in fr for v in flat(f.v)], "virials of all frames")
        else:
            env.check(len(inf[4]) == 0, "no virials")
        env.reach("end")


def derived(env):
    """volume and largest neighbour count of a trajectory"""
    M = imp(env, "matersdk.io.pwmat.output.movement").Movement
    from fractions import Fraction as Q
    with scratch() as d:
        fr = []
        for k in range(2):
            f = frame(env, "F%d" % k, [3, 14], False, False, False)
            a = env.real("a%d" % k, 3, 5)
            f.box = [[a, num(env, 0), num(env, 0)], [num(env, 1), num(env, 4), num(env, 0)], [num(env, 0), num(env, 0), num(env, 6)]]
            f.x = [[num(env, 0)] * 3, [num(env, Q(1, 2)), num(env, 0), num(env, 0)]]
            f.v = None
            fr.append((f, a))
        path = d + "/MOVEMENT"
        open(path, "w").write("".join(text(env, f) for f, _ in fr))
        x = M(movement_path=path)
        for k, (f, a) in enumerate(fr):
            env.check_eq(x.get_frame_volume(idx_frame=k), 24 * a, "volume")
        rc = num(env, Q(19, 8))
        best = 0
        for f, a in fr:
            # images -1..1 along the first axis: the other atom at a/2 on both sides, the own image at a
            if env.concrete:
                env.ties or env.assume(abs(a / 2 - rc) > 1e-9 and abs(a - rc) > 1e-9)
            c0 = (2 if a / 2 <= rc else 0) + (2 if a <= rc else 0)
            best = max(best, c0)
        # seen from the first atom both halves are inside the expanded cell; the second sees one of them at -a/2, +a/2
        got = x.get_max_num_nbrs_real(rcut=rc, scaling_matrix=[3, 1, 1])
        env.check(int(got) == best, "largest neighbour count of the trajectory", info=(got, best))
        env.reach("end")


FN = ["mvextractor.py: MVExtractor", "movement.py: Movement", "acextractor.py: ACstrExtractor", "lineLocator.py", "structure.py: from_str"]


def cases(tier):
    out = []
    combos = [(1, 0, 1, 0, 0, 1), (2, 1, 1, 1, 1, 1), (2, 2, 1, 0, 0, 0), (3, 1, 0, 1, 1, 1), (3, 3, 1, 1, 0, 1)]
    if tier == "thorough":
        combos = [(a, b, c, v, j, 1) for a in (1, 2, 3, 4) for b in range(4) for c in (0, 1) for v in (0, 1) for j in (0, 1)]
    for fr, pat, force, vel, junk, h in combos:
        p = dict(frames=fr, pat=pat, force=force, vel=vel, junk=junk)
        nm = "%d%d%d%d%d" % (fr, pat, force, vel, junk)
        b = "%d frames of %d atoms, every number symbolic, every combination of virial/atomic energy/moment sections" % (fr, len(ZP[pat]))
        out.append(Case("mvextract_" + nm, fn=mvextract, setup=SET, params=dict(p, header=0), reach=["end"], functions=FN, bounds=b, budget=500))
        for hd in (0, 1):
            out.append(Case("movement_%s_%d" % (nm, hd), fn=movement, setup=SET, params=dict(p, header=hd), reach=["end"], functions=FN, bounds=b, budget=500))
    for nm, fr, pat in (("long", 13, 1), ("wide", 2, 4)):
        p = dict(frames=fr, pat=pat, force=1, vel=1, junk=1, header=1)
        for fn in (mvextract, movement):
            out.append(Case("%s_%s" % (fn.__name__, nm), fn=fn, setup=SET, params=dict(p, header=int(fn is movement)), reach=["end"], functions=FN, budget=500,
                            bounds="%d frames of %d atoms, every number symbolic, every combination of virial/atomic energy/moment sections" % (fr, len(ZP[pat]))))
    out.append(Case("derived", fn=derived, setup=SET, reach=["end"], functions=["movement.py: get_frame_volume, get_max_num_nbrs_real"], bounds="2 frames, lattice constant symbolic in [3,5]"))
    return out
