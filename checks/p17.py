"""training sets: every frame of every trajectory ends up in the exported arrays exactly once"""
import contextlib, io, os
from engine.runner import Case
from checks.common import REAL
from checks.pyh import *
from checks.mvgen import frame, text
ASSUMPTIONS = [REAL, PYA, TEXT, "all frames of one MOVEMENT file carry the same sections and composition, as PWmat writes them"]
SET = mods("matersdk.data.infosets")
from checks.p09 import ALL
EL = {i + 1: e for i, e in enumerate(ALL)}
NAMES = ["box", "coord", "etot", "fatom"]


def flat(m):
    return [v for r in m for v in r]


def want(f):
    return dict(box=flat(f.box), coord=flat(f.x), etot=[f.e[0]], fatom=flat(f.f) if f.f else [0] * 3 * len(f.z),
                virial=flat(f.v) if f.v else None, eatom=f.ea, magmoms=f.m)


def same_row(env, row, w, label):
    row = list(row)
    env.check(len(row) == len(w), label + ": length", info=(len(row), len(w)))
    for a, b in zip(row, w):
        env.check_eq(a, b, label)


def write(env, path, fr, header=0):
    open(path, "w").write("".join(text(env, f, header) for f in fr))


def load_dir(env, np, path, part_size, total):
    """parts of one exported set, in order: (type map, list of dict name -> rows)"""
    tm = open(path + "/type_map.raw").read().split()
    parts = sorted(q for q in os.listdir(path) if q.startswith("part."))
    env.check(parts == ["part.%03d" % i for i in range(len(parts))], "parts are numbered from 000", info=parts)
    frames = []
    for i, q in enumerate(parts):
        have = {n[:-4]: np.load(os.path.join(path, q, n)) for n in sorted(os.listdir(os.path.join(path, q)))}
        k = len(have["box"])
        for n, a in have.items():
            env.check(len(a) == k, "arrays of a part have the same number of frames", info=(n, len(a), k))
        env.check(k == min(part_size, total - i * part_size), "size of a part", info=(i, k, part_size, total))
        for j in range(k):
            frames.append({n: a[j] for n, a in have.items()})
    env.check(len(frames) == total, "every frame is exported exactly once", info=(len(frames), total))
    return tm, frames


def check_frame(env, got, f, tm, sections):
    w = want(f)
    for n in NAMES:
        same_row(env, got[n], w[n], n)
    env.check([tm[int(t)] for t in got["types"]] == [EL[z] for z in f.z], "types name the element of every atom through type_map.raw")
    for n in ("virial", "eatom", "magmoms"):
        env.check((n in got) == bool(sections[n]), "optional arrays are exported when the trajectories have them", info=(n, sorted(got)))
        if n in got:
            same_row(env, got[n], w[n], n)


def one(env):
    """one trajectory"""
    I = imp(env, "matersdk.data.infoset").InfoSet
    np = pyshim.NPX if not env.concrete else __import__("numpy")
    p = env.params
    opts = p.get("opts", list(range(8)))
    opt = opts[env.choose("sections", 0, len(opts) - 1)]
    n = p["frames"]
    fr = [frame(env, "F%d" % k, p["z"], opt & 1, opt & 2, opt & 4, p["force"]) for k in range(n)]
    parts = p.get("parts", list(range(n + 2)))
    part = parts[env.choose("part_size", 0, len(parts) - 1)]
    sec = dict(virial=opt & 1, eatom=opt & 2, magmoms=opt & 4)
    with scratch() as d:
        write(env, d + "/MOVEMENT", fr)
        os.mkdir(d + "/out")
        s = I.from_file(file_path=d + "/MOVEMENT", file_format="PWMAT/MOVEMENT")
        env.check(s.num_frames == n, "number of frames")
        s.to_dir(d + "/out", **(dict(part_size=part) if part else {}))
        env.check(len(os.listdir(d + "/out")) == 1, "one directory per composition")
        tm, got = load_dir(env, np, d + "/out/" + os.listdir(d + "/out")[0], part or n, n)
        env.check(sorted(tm) == sorted(EL[z] for z in set(p["z"])), "type map names every element once", info=tm)
        for g, f in zip(got, fr):
            check_frame(env, g, f, tm, sec)
        env.reach("end")


def merge(env):
    """several trajectories below one directory"""
    S_ = imp(env, "matersdk.data.infosets").InfoSets
    np = pyshim.NPX if not env.concrete else __import__("numpy")
    files = env.params["files"]
    traj = []
    for i, (zs, n) in enumerate(files):
        # the section that varies from file to file
        opt = env.choose("sections%d" % i, 0, 1) * env.params["opt"]
        traj.append((zs, opt, [frame(env, "T%dF%d" % (i, k), zs, opt & 1, opt & 2, opt & 4) for k in range(n)]))
    total = sum(n for _, n in files)
    part = env.choose("part_size", 0, 2)
    paths = ["a/MOVEMENT", "b/c/MOVEMENT", "b/movement", "d/Movement"]
    groups = {}
    for zs, opt, fr in traj:
        key = tuple(sorted(zs))
        g = groups.setdefault(key, [7, []])
        g[0] &= opt
        g[1] += fr
    with scratch() as d:
        for q, (zs, opt, fr) in zip(paths, traj):
            os.makedirs(d + "/in/" + os.path.dirname(q), exist_ok=True)
            write(env, d + "/in/" + q, fr)
        write(env, d + "/in/OTHER", traj[0][2])
        os.mkdir(d + "/out")
        with contextlib.redirect_stdout(io.StringIO()):
            s = S_.from_dir(dir_path=d + "/in", file_name="MOVEMENT", file_format="PWMAT/MOVEMENT")
            env.check(s.get_num_frames() == total, "total number of frames", info=(s.get_num_frames(), total))
            s.to_dir(d + "/out", **(dict(part_size=part) if part else {}))
        dirs = sorted(os.listdir(d + "/out"))
        env.check(len(dirs) == len(groups), "one directory per composition", info=dirs)
        maps = []
        left = dict(groups)
        for q in dirs:
            # the composition of this directory
            tm = open(d + "/out/" + q + "/type_map.raw").read().split()
            maps.append(tm)
            k0 = np.load(d + "/out/" + q + "/part.000/types.npy")
            comp = [tm[int(t)] for t in k0[0]]
            key = next((k for k in left if sorted(EL[z] for z in k) == sorted(comp)), None)
            env.check(key is not None, "directories hold the compositions of the trajectories", info=(comp, list(left)))
            opt, fr = left.pop(key)
            tm, got = load_dir(env, np, d + "/out/" + q, part or total, len(fr))
            sec = dict(virial=opt & 1, eatom=opt & 2, magmoms=opt & 4)
            rest = list(fr)
            for g in got:
                row = lambda h: [v for n in NAMES + [q for q in ("virial", "eatom", "magmoms") if sec[q]] for v in h[n]]
                sp = tuple(tm[int(t)] for t in g["types"])
                m = match(env, sp, row(g), [(tuple(EL[z] for z in f.z), row(want(f))) for f in rest], "every frame exactly once")
                check_frame(env, g, rest.pop(m), tm, sec)
        env.check(all(m == maps[0] for m in maps), "all sets share one type map", info=maps)
        env.check(sorted(maps[0]) == sorted({EL[z] for zs, _, _ in traj for z in zs}), "type map names every element once", info=maps[0])
        env.reach("end")


FN = ["infoset.py: InfoSet.from_file, to_dir", "mvextractor.py: MVExtractor", "infosets.py: InfoSets.from_dir, to_dir, get_num_frames"]


def cases(tier):
    out = []
    for n, z, force in [(1, [14], 1), (2, [3, 14], 1), (3, [14, 3, 3], 0), (4, [8, 1, 1], 1)] + ([(5, [1, 8], 1), (6, [3], 1)] if tier == "thorough" else []):
        out.append(Case("one_%d_%d" % (n, len(z)), fn=one, setup=SET, params=dict(frames=n, z=z, force=force), reach=["end"], functions=FN[:2], budget=500,
                        bounds="%d frames of %d atoms, every number symbolic; part sizes 1..%d and the default; all combinations of optional sections" % (n, len(z), n + 1)))
    out.append(Case("one_long", fn=one, setup=SET, params=dict(frames=13, z=[3, 14], force=1, opts=[0, 7], parts=[0, 1, 4, 12, 13]), reach=["end"], functions=FN[:2], budget=500,
                    bounds="13 frames of 2 atoms, every number symbolic; part sizes 1, 4, 12, 13 and the default; all or no optional sections"))
    for k in range(3):
        out.append(Case("one_all_%d" % k, fn=one, setup=SET, params=dict(frames=1, z=list(range(118, 0, -1))[40 * k:40 * k + 40], force=1, opts=[0], parts=[0]), reach=["end"], functions=FN[:2], budget=500,
                        bounds="1 frame with one atom of each of 40 elements, every number symbolic"))
    out.append(Case("one_wide", fn=one, setup=SET, params=dict(frames=2, z=[14, 3, 14, 8, 1, 3, 1, 14, 14, 3, 1, 8], force=1, opts=[0, 7], parts=[0, 1]), reach=["end"], functions=FN[:2], budget=500,
                    bounds="2 frames of 12 atoms of 4 species, every number symbolic; part size 1 and the default; all or no optional sections"))
    sets = [("ab", [([3, 14], 2), ([14, 3], 1)]), ("aab", [([1, 8], 1), ([1, 8], 2), ([8, 1, 1], 1)]), ("mix", [([14], 1), ([3, 14], 1), ([3], 2)]),
            ("aba", [([14, 3], 1), ([8], 1), ([3, 14], 1)])]
    if tier == "thorough":
        sets += [("four", [([14, 3], 1), ([8], 2), ([3, 14], 3), ([8], 1)]), ("long", [([3], 3), ([3], 2)])]
    for nm, files in sets:
        for opt in (1, 2, 4) if tier == "quick" and nm != "ab" else (1, 2, 4, 7):
            out.append(Case("merge_%s_%d" % (nm, opt), fn=merge, setup=SET, params=dict(files=files, opt=opt), reach=["end"], functions=FN, budget=500,
                            bounds="%d files (%s atoms, frames), every number symbolic; part sizes 1, 2 and the default; section mask %d present or absent per file" % (len(files), [(len(z), n) for z, n in files], opt)))
    return out
