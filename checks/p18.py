"""structure collections: selection, export, per-image export, largest neighbour counts"""
import contextlib, io, os
from engine.runner import Case
from checks.common import REAL
from checks.pyh import *
from checks.mvgen import frame, text
from fractions import Fraction as Q
ASSUMPTIONS = [REAL, PYA, TEXT, "all frames have the same atoms in the same order, as the class documents",
               "multiprocessing pools run their calls one after another"]
SET = mods("matersdk.data.struct_collection", "matersdk.io.pwmat.output.movement")
from checks.p09 import ALL
EL = {i + 1: e for i, e in enumerate(ALL)}


@contextlib.contextmanager
def quiet(cpus):
    old = os.cpu_count
    os.cpu_count = lambda: cpus
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        os.cpu_count = old


def flat(m):
    return [v for r in m for v in r]


def rows(env, got, want, label):
    got = list(got.reshape(-1)) if hasattr(got, "reshape") else list(got)
    env.check(len(got) == len(want), label + ": length", info=(len(got), len(want)))
    for a, b in zip(got, want):
        env.check_eq(a, b, label)


def collection(env, d, n, zs, virial, eatom):
    MV = imp(env, "matersdk.io.pwmat.output.movement").Movement
    SC = imp(env, "matersdk.data.struct_collection").StructCollection
    fr = []
    for k in range(n):
        f = frame(env, "F%d" % k, zs, virial, eatom, False)
        # the code asks whether all virials/atomic energies are zero: away from zero except for one entry
        if virial:
            f.v = [[env.real("F%dw%d%d" % (k, i, j), 1, 3) if (i, j) != (0, 1) else env.real("F%dw01" % k, -3, 3) for j in range(3)] for i in range(3)]
        if eatom:
            f.ea = [env.real("F%dq%d" % (k, i), *((1, 3) if i or k else (-3, -1))) for i in range(len(zs))]
        fr.append(f)
    open(d + "/MOVEMENT", "w").write("".join(text(env, f) for f in fr))
    return SC, SC.from_trajectory_s(MV(movement_path=d + "/MOVEMENT")), fr


def check_collection(env, c, fr, label):
    env.check(len(c) == len(fr) and c.num_structures == len(fr) and len(c.structures_lst) == len(fr), label + ": number of structures")
    for s, f in zip(c.structures_lst, fr):
        env.check([q.specie.Z for q in s.sites] == f.z, label + ": species")
        rows(env, s.lattice.matrix, flat(f.box), label + ": lattice")
        rows(env, s.frac_coords, flat(f.x), label + ": coordinates")
    for i, a in enumerate((c.total_energys_array, c.potential_energys_array, c.kinetic_energys_array)):
        rows(env, a, [f.e[i] for f in fr], label + ": energies")
    if fr[0].v:
        rows(env, c.virial_tensors_array, [v for f in fr for v in flat(f.v)], label + ": virials")
    env.check(c.num_atoms == len(fr[0].z), label + ": number of atoms")
    env.check(list(c.atomic_numbers_lst) == list(dict.fromkeys(fr[0].z)), label + ": elements")
    env.check(dict(c.an2na) == {z: fr[0].z.count(z) for z in fr[0].z}, label + ": atoms per element")


def select(env):
    p = env.params
    n = p["frames"]
    with scratch() as d, quiet(4):
        SC, c, fr = collection(env, d, n, p["z"], p["virial"], 0)
        check_collection(env, c, fr, "all")
        how = env.choose("how", 0, 2)
        if how == 0:
            idx = [env.choose("i%d" % k, 0, n - 1) for k in range(p["pick"])]
            check_collection(env, SC.from_indices(c, idx), [fr[i] for i in idx], "by indices")
            bad = idx[:-1] + [n + env.choose("over", 0, 1)]
            try:
                SC.from_indices(c, bad)
                env.check(False, "an index beyond the last structure is refused", info=bad)
            except IndexError:
                pass
            env.reach("indices")
        elif how == 1:
            a, b, s = env.choose("a", 0, n - 1), env.choose("b", 1, n), env.choose("s", 1, 2)
            env.assume(a < b)
            check_collection(env, c[a:b:s], fr[a:b:s], "slice")
            env.reach("slice")
        else:
            i = env.choose("i", -n, n - 1)
            check_collection(env, c[i], [fr[i]], "single index")
            env.reach("single")


def export(env):
    np = pyshim.NPX if not env.concrete else __import__("numpy")
    p = env.params
    n = p["frames"]
    sizes = p.get("sizes", list(range(1, n + 2)))
    size = sizes[env.choose("set_size", 0, len(sizes) - 1)]
    with scratch() as d, quiet(4):
        SC, c, fr = collection(env, d, n, p["z"], p["virial"], p["eatom"])
        out = d + "/sets"
        if p["stale"]:
            os.makedirs(out + "/set.007")
        c.to(dir_path=out, set_size=size)
        tm = open(out + "/type_map.raw").read().split()
        ty = [int(v) for v in open(out + "/type.raw").read().split()]
        env.check([tm[t] for t in ty] == [EL[z] for z in p["z"]], "type.raw and type_map.raw name the element of every atom", info=(tm, ty))
        env.check(len(tm) == len(set(tm)) == len(set(p["z"])), "type map names every element once", info=tm)
        sets = sorted(q for q in os.listdir(out) if q.startswith("set"))
        env.check(sets == ["set.%03d" % i for i in range((n + size - 1) // size)], "sets of the requested size, numbered from 000", info=(sets, size))
        at = 0
        for q in sets:
            have = {m[:-4]: np.load(os.path.join(out, q, m)) for m in sorted(os.listdir(os.path.join(out, q)))}
            want = ["atom_coord", "atom_force", "cell", "tot_energy"] + (["virial"] if p["virial"] else []) + (["atom_energy"] if p["eatom"] else [])
            env.check(sorted(have) == sorted(want), "arrays of a set", info=sorted(have))
            k = len(have["cell"])
            env.check(k == min(size, n - at), "frames per set", info=(k, size, n))
            for j in range(k):
                f = fr[at + j]
                rows(env, have["cell"][j], flat(f.box), "cell")
                rows(env, have["atom_coord"][j], flat([frac2cart(x, f.box) for x in f.x]), "Cartesian coordinates")
                rows(env, have["tot_energy"][j], [f.e[0]], "total energy")
                rows(env, have["atom_force"][j], flat(f.f), "forces")
                if p["virial"]:
                    rows(env, have["virial"][j], flat(f.v), "virial")
                if p["eatom"]:
                    rows(env, have["atom_energy"][j], f.ea, "atomic energies")
            at += k
        env.check(at == n, "every frame is exported exactly once")
        env.reach("end")


def images_(env):
    """one directory per image, and largest neighbour counts over all images, on any number of processors"""
    np = pyshim.NPX if not env.concrete else __import__("numpy")
    DS = imp(env, "matersdk.io.publicLayer.structure").DStructure
    MV = imp(env, "matersdk.io.pwmat.output.movement").Movement
    SC = imp(env, "matersdk.data.struct_collection").StructCollection
    p = env.params
    n = p["frames"]
    cpus = env.choose("processors", 1, 4)
    with scratch() as d, quiet(cpus):
        fr, a = [], []
        for k in range(n):
            f = frame(env, "F%d" % k, [14, 3], p["virial"], p["eatom"], False)
            a.append(env.real("a%d" % k, 3, 5))
            f.box = [[a[k], num(env, 0), num(env, 0)], [num(env, 1), num(env, 4), num(env, 0)], [num(env, 0), num(env, 0), num(env, 6)]]
            f.x = [[num(env, 0)] * 3, [num(env, Q(1, 4)), num(env, 0), num(env, 0)]]
            fr.append(f)
        open(d + "/MOVEMENT", "w").write("".join(text(env, f) for f in fr))
        c = SC.from_trajectory_s(MV(movement_path=d + "/MOVEMENT"))
        if p["what"] == 0:
            c.save_all_info(dir_path=d + "/img", scaling_matrix=[1, 1, 1])
            dirs = sorted(os.listdir(d + "/img"))
            env.check(dirs == ["%0*d" % (len(str(n)), k) for k in range(n)], "one directory per image", info=dirs)
            for q, f, ak in zip(dirs, fr, a):
                L = lambda m: np.load(os.path.join(d, "img", q, m + ".npy"))
                rows(env, L("box"), flat(f.box), "lattice")
                cart = [frac2cart(x, f.box) for x in f.x]
                rows(env, L("coord"), flat(cart), "Cartesian coordinates")
                rows(env, L("energy"), f.e, "energies (total, potential, kinetic)")
                rows(env, L("atomic_force"), flat(f.f), "forces")
                if p["eatom"]:
                    rows(env, L("atomic_energy"), f.ea, "atomic energies")
                if p["virial"]:
                    rows(env, L("virial"), flat(f.v), "virial")
                s = DS.from_file(os.path.join(d, "img", q, "atom.config"), "pwmat")
                env.check([x.specie.Z for x in s.sites] == f.z, "atom.config species")
                # neighbours within 6.5 without repetition: the other atom of the cell; centres by atomic number
                rows(env, L("nbrs_atomic_numbers"), [3, 14, 14, 3], "neighbour species")
                rows(env, L("nbrs_distances"), [0, ak / 4, 0, ak / 4], "neighbour distances")
                rows(env, L("nbrs_coords"), flat([cart[1], cart[0], cart[0], cart[1]]), "neighbour positions")
            env.reach("end")
        else:
            rc = num(env, Q(13, 4))
            best, els = 0, {"Li": 0, "Si": 0}
            for k in range(n):
                # images -1..1 along the first axis: the other atom at a/4 and 3a/4, the own images at a
                if env.concrete:
                    env.ties or env.assume(min(abs(a[k] * u - rc) for u in (0.25, 0.75, 1)) > 1e-9)
                own = 2 if a[k] <= rc else 0
                oth = (1 if a[k] / 4 <= rc else 0) + (1 if 3 * a[k] / 4 <= rc else 0)
                best = max(best, own + oth)
                els = {e: max(els[e], own, oth) for e in els}
            got = c.get_max_num_nbrs_real(rcut=rc, scaling_matrix=[3, 1, 1])
            env.check(int(got) == best, "largest neighbour count over all images", info=(got, best))
            ge = c.get_max_num_nbrs_real_element(rcut=rc, nbr_elements=["Li", "Si"], scaling_matrix=[3, 1, 1])
            env.check({e: int(v) for e, v in ge.items()} == els, "largest neighbour count per element over all images", info=(ge, els))
            env.reach("end")


FN = ["struct_collection.py: StructCollection.from_trajectory_s, from_indices, __getitem__, __len__", "struct_collection.py: StructCollection.to",
      "struct_collection.py: StructCollection.save_all_info, get_max_num_nbrs_real(_element), ParallelFunction", "structure.py: DStructure.from_str, get_atomic_force, get_atomic_energy"]


def cases(tier):
    out = []
    T = tier == "thorough"
    for n, z, v in [(2, [3, 14, 3], 1), (3, [14, 3], 0), (3, [8, 1, 1], 1)] + ([(4, [3], 1)] if T else []):
        out.append(Case("select_%d_%d_%d" % (n, len(z), v), fn=select, setup=SET, params=dict(frames=n, z=z, virial=v, pick=2 if n < 4 else 3), functions=FN[:1],
                        reach=["indices", "slice", "single"], bounds="%d structures of %d atoms, every number symbolic; all index tuples of length 2, all slices, all single indices" % (n, len(z)), budget=400))
    for n, z, v, e, st in [(1, [14], 1, 1, 0), (2, [14, 3], 0, 1, 1), (3, [3, 14, 3], 1, 0, 0), (4, [8, 1], 0, 0, 1)] + ([(5, [1, 8, 1], 1, 1, 1)] if T else []):
        out.append(Case("export_%d_%d%d" % (n, v, e), fn=export, setup=SET, params=dict(frames=n, z=z, virial=v, eatom=e, stale=st), functions=FN[1:2] + FN[3:], reach=["end"],
                        bounds="%d structures of %d atoms, every number symbolic; set sizes 1..%d" % (n, len(z), n + 1), budget=400))
    for nm, n, z, sizes in [("long", 13, [14, 3], [1, 5, 12, 13]), ("all", 1, list(range(118, 0, -1)), [1]), ("wide", 2, [14, 3, 14, 8, 1, 3, 1, 14, 14, 3, 1, 8], [1, 2])]:
        out.append(Case("export_" + nm, fn=export, setup=SET, params=dict(frames=n, z=z, virial=int(n < 5), eatom=int(n < 5), stale=0, sizes=sizes), functions=FN[1:2] + FN[3:], reach=["end"],
                        bounds="%d structures of %d atoms, every number symbolic; set sizes %s" % (n, len(z), sizes), budget=400))
    for n, v, e in [(1, 1, 1), (2, 0, 0)] + ([(3, 1, 0), (11, 0, 1)] if T else []):
        out.append(Case("images_%d_%d%d" % (n, v, e), fn=images_, setup=SET, params=dict(frames=n, virial=v, eatom=e, what=0), functions=FN[2:], reach=["end"],
                        bounds="%d images of 2 atoms, 1-4 processors, numbers symbolic" % n, budget=400))
    for n in (1, 2) + ((3,) if T else ()):
        out.append(Case("counts_%d" % n, fn=images_, setup=SET, params=dict(frames=n, virial=0, eatom=0, what=1), functions=FN[2:], reach=["end"],
                        bounds="%d images of 2 atoms, lattice constants symbolic in [3,5], 1-4 processors" % n, budget=400))
    return out
