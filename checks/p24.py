"""normalisation of the smooth descriptor and the inputs of a model"""
import contextlib, io, types
from engine.runner import Case
from engine import ext
from checks.common import REAL
from checks.pyh import *
from checks.pysys import SYS, make, within, off_cutoff, Z
from checks.p14 import rows as row_of
from fractions import Fraction as Q
ASSUMPTIONS = [REAL, PYA, "h5py and torch files are replaced by stand-ins that give back what was stored (the replay uses the real ones)",
               "atoms of the expanded cell keep a distance of at least 0.1", "repetition counts are odd", "statistics away from the 0.01 floor by rounding only"]


def setup(env):
    import h5py, torch                                                        # noqa: F401
    pyshim.LOCAL.update({"h5py": ext.H5, "torch": ext.Torch})
    pyshim.instrument()
    pyshim.load("matersdk.feature.deepmd.preprocess", "matersdk.infer.pwmatmlff.deepmd.preprocess", "matersdk.infer.pwmatmlff.deepmd.extractor",
                "matersdk.infer.pwmatmlff.deepmd.inference",
                "matersdk.data.struct_collection")
    pyshim.install()


def npof(env):
    return pyshim.NPX if not env.concrete else __import__("numpy")


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()):
        yield


def want_stats(env, data):
    """documented statistics of rows (s, sx/r, sy/r, sz/r)"""
    np = npof(env)
    n = len(data)

    def std(s2, s):
        # max(sqrt(v), 0.01)
        v = s2 / n - (s / n) * (s / n)
        return np.sqrt(v) if v >= num(env, Q(1, 10000)) else num(env, Q(1, 100))
    sr = sum((r[0] for r in data[1:]), data[0][0])
    s2r = sum((r[0] * r[0] for r in data[1:]), data[0][0] * data[0][0])
    ang = [v for r in data for v in r[1:]]
    sa = sum(ang[1:], ang[0]) / 3
    s2a = sum((v * v for v in ang[1:]), ang[0] * ang[0]) / 3
    z = num(env, 0)
    a = std(s2a, sa)
    return [sr / n, z, z, z], [std(s2r, sr), a, a, a]


def stats(env):
    np = npof(env)
    PN = imp(env, "matersdk.feature.deepmd.preprocess").TildeRPairNormalizer
    p = env.params
    shape = p["shape"]
    n = 1
    for s in shape:
        n *= s
    data = [[env.real("t%d%d" % (i, a), -2, 2) if (i * 4 + a) in p["sym"] else num(env, Q((7 * i + 3 * a) % 11 - 5, 4)) for a in range(4)] for i in range(n)]
    T = np.array(data).reshape(tuple(shape) + (4,))
    nz = PN(tildeRs_array=T)
    davg, dstd = want_stats(env, data)
    env.check(nz.davg.shape == (1, 4) and nz.dstd.shape == (1, 4), "shape of the statistics")
    for a in range(4):
        env.check_eq(nz.davg[0][a], davg[a], "average")
        env.check_eq(nz.dstd[0][a] * nz.dstd[0][a], dstd[a] * dstd[a], "standard deviation (at least 0.01)")
        env.check(nz.dstd[0][a] > 0, "standard deviation is positive")
    env.reach("end")


def apply_(env):
    """normalising with given statistics: single frames, several frames, derivatives"""
    np = npof(env)
    PN = imp(env, "matersdk.feature.deepmd.preprocess").TildeRPairNormalizer
    davg = [env.real("a%d" % k, -2, 2) for k in range(4)]
    dstd = [env.real("d%d" % k, Q(1, 100), 2) for k in range(4)]
    k = env.choose("form", 0, 1)
    A, D = np.array(davg), np.array(dstd)
    if k:
        A, D = A.reshape(1, 4), D.reshape(1, 4)
    nz = PN(davg=A, dstd=D)
    for many in (0, 1):
        sh = ((2,) if many else ()) + (2, 2)
        n = 8 if many else 4
        t = [[env.real("t%d%d%d" % (many, i, a), -2, 2) for a in range(4)] for i in range(n)]
        got = nz.normalize(np.array(t).reshape(sh + (4,)))
        env.check(got.shape == sh + (4,), "shape of the normalised descriptor")
        g = got.reshape(-1, 4)
        for i in range(n):
            for a in range(4):
                env.check_eq(g[i][a] * dstd[a], t[i][a] - davg[a], "normalised value")
        t = [[[env.real("e%d%d%d%d" % (many, i, a, j), -2, 2) for j in range(3)] for a in range(4)] for i in range(n)]
        got = nz.normalize_derivative(np.array(t).reshape(sh + (4, 3)))
        env.check(got.shape == sh + (4, 3), "shape of the scaled derivative")
        g = got.reshape(-1, 4, 3)
        for i in range(n):
            for a in range(4):
                for j in range(3):
                    env.check_eq(g[i][a][j] * dstd[a], t[i][a][j], "scaled derivative")
    try:
        PN()
        env.check(False, "statistics or data are required")
    except ValueError:
        pass
    env.reach("end")


def setting(env, y, sub):
    zs = sorted(set(y.z))
    ctr = zs if not sub else zs[:1] if sub == 1 else zs[1:]
    lists = {c: within(y, c) for c in y.centres}
    cap = [max(sum(1 for q in l if q[1] == z) for l in lists.values()) + 1 + i for i, z in enumerate(zs)]
    davg = [[env.real("a%d%d" % (i, k), -1, 1) if k == 0 else num(env, 0) for k in range(4)] for i in range(len(ctr))]
    dstd = [[env.real("d%d%d" % (i, k), Q(1, 10), 2) for k in range(4)] for i in range(len(ctr))]
    return zs, ctr, lists, cap, davg, dstd


def system(env):
    """TildeRNormalizer, its file and the arrays handed to a model"""
    np = npof(env)
    DS = imp(env, "matersdk.io.publicLayer.structure").DStructure
    TN = imp(env, "matersdk.feature.deepmd.preprocess").TildeRNormalizer
    IP = imp(env, "matersdk.infer.pwmatmlff.deepmd.preprocess").InferPreprocessor
    ext.reset()
    p = env.params
    y = make(env, DS, p["sys"], False)
    off_cutoff(env, y)
    rs = num(env, Q(3, 2))
    zs, ctr, lists, cap, davg, dstd = setting(env, y, p["sub"])
    A, D = np.array(davg), np.array(dstd)
    kw = dict(rcut=y.rcut, rcut_smooth=rs, center_atomic_numbers=ctr, nbr_atomic_numbers=zs, max_num_nbrs=cap, scaling_matrix=y.scaling)
    nz = TN(davgs=A, dstds=D, **kw)
    with scratch() as d:
        nz.to(d + "/n.h5")
        nz = TN.from_file(d + "/n.h5")
        env.check_eq(nz.rcut, y.rcut, "cutoff read back")
        env.check_eq(nz.rcut_smooth, rs, "smooth cutoff read back")
        for got, w in ((nz.center_atomic_numbers, ctr), (nz.nbr_atomic_numbers, zs), (nz.max_num_nbrs, cap), (nz.scaling_matrix, y.scaling)):
            env.check([int(v) for v in got] == [int(v) for v in w], "settings read back", info=(list(got), w))
        for got, w in ((nz.davgs, davg), (nz.dstds, dstd)):
            env.check(got.shape == (len(ctr), 4), "shape of the statistics read back")
            for i in range(len(ctr)):
                for k in range(4):
                    env.check_eq(got[i][k], w[i][k], "statistics read back")
    T, G = nz.normalize(y.structure)
    ip = IP(structure=y.structure, davg=A, dstd=D, **kw)
    rc = ip.expand_rc()
    Ri, Rd = ip.expand_tildeR()
    ln = ip.expand_list_neigh()
    nat = ip.expand_natoms_img()
    order = [c for z in ctr for c in y.centres if y.z[c] == z]
    n, w = len(order), sum(cap)
    env.check(T.shape == (n, w, 4) and G.shape == (n, w, 4, 3), "shape of the normalised descriptor", info=(T.shape, n, w))
    env.check(Ri.shape == (1, n, w, 4) and Rd.shape == (1, n, w, 4, 3) and rc.shape == (1, n, w, 3) and ln.shape == (1, n, w), "shapes of the model inputs",
              info=(Ri.shape, rc.shape, ln.shape))
    cnt = [y.n] + [sum(1 for z in y.z if z == zz) for zz in zs]
    env.check(nat.shape == (1, len(cnt)) and [int(v) for v in nat[0]] == cnt, "atom counts", info=list(nat.reshape(-1)))
    for i, c in enumerate(order):
        ci = ctr.index(y.z[c])
        off = 0
        for t, z in enumerate(zs):
            left = [q for q in lists[c] if q[1] == z]
            want = [(z, [u - v for u, v in zip(q[2], y.cart[c])]) for q in left]
            k0 = len(left)
            for k in range(cap[t]):
                s = off + k
                if k < k0:
                    m = match(env, z, vec(rc[0][i][s]), want, "displacement of every neighbour, once")
                    x = want.pop(m)[1]
                    q = left.pop(m)
                    env.check(int(ln[0][i][s]) == q[0] + 1, "index of the neighbour in that slot", info=(int(ln[0][i][s]), q[0] + 1))
                    row = row_of(env, x, np.sqrt(q[3]), q[3], y.rcut, rs)
                else:
                    for j in range(3):
                        env.check_eq(rc[0][i][s][j], 0, "padding displacement")
                    env.check(int(ln[0][i][s]) == 0, "padding index")
                    row = [num(env, 0)] * 4
                for a in range(4):
                    env.check_eq(T[i][s][a] * dstd[ci][a], row[a] - davg[ci][a], "normalised row of the neighbour in that slot")
                    env.check_eq(Ri[0][i][s][a], T[i][s][a], "descriptor handed to the model")
                    for j in range(3):
                        env.check_eq(Rd[0][i][s][a][j], G[i][s][a][j], "derivative handed to the model")
                        if k >= k0:
                            env.check_eq(G[i][s][a][j], 0, "padding derivative")
                # derivative of the row with respect to a moving centre or neighbour is that of P14, scaled
            off += cap[t]
    if p["deriv"]:
        SP = imp(env, "matersdk.feature.deepmd.se_pair").DpseTildeRPairDescriptor
        N = imp(env, "matersdk.io.publicLayer.neigh")
        nb = N.StructureNeighborsDescriptor.create("v1", structure=y.structure, rcut=y.rcut, scaling_matrix=y.scaling)
        row0 = 0
        for ci, zc in enumerate(ctr):
            off = 0
            for t, zn in enumerate(zs):
                raw = SP.create("v1", structure_neighbors=nb, center_atomic_number=zc, nbr_atomic_number=zn, rcut=y.rcut, rcut_smooth=rs).calc_derivative(max_num_nbrs=cap[t])
                for i in range(raw.shape[0]):
                    for k in range(cap[t]):
                        for a in range(4):
                            for j in range(3):
                                env.check_eq(G[row0 + i][off + k][a][j] * dstd[ci][a], raw[i][k][a][j], "scaled derivative in its slot")
                off += cap[t]
            row0 += sum(1 for z in y.z if z == zc)
    env.reach("end")


class NoteSym:
    """stand-in for a loaded model"""
    whole_model = True

    def __init__(self, out): self.out, self.seen = out, []
    def to(self, *a, **k): return self
    def eval(self): return self
    def __call__(self, *a): self.seen.append(a); return self.out


def infer(env):
    """DpInfer hands the arrays of InferPreprocessor to the model, in order, and gives back what the model answered"""
    np = npof(env)
    DS = imp(env, "matersdk.io.publicLayer.structure").DStructure
    IP = imp(env, "matersdk.infer.pwmatmlff.deepmd.preprocess").InferPreprocessor
    DI = imp(env, "matersdk.infer.pwmatmlff.deepmd.inference").DpInfer
    ext.reset()
    p = env.params
    y = make(env, DS, p["sys"], False)
    off_cutoff(env, y)
    rs = num(env, Q(3, 2))
    zs, ctr, lists, cap, davg, dstd = setting(env, y, p["sub"])
    A, D = np.array(davg), np.array(dstd)
    n = sum(1 for z in y.z if z in ctr)
    shapes = [(1, 1), (1, n), (1, n, 3), (1, 9)]
    vals = [np.array([env.real("o%d_%d" % (i, k), -9, 9) for k in range(int(__import__("math").prod(sh)))]).reshape(sh) for i, sh in enumerate(shapes)]
    kw = dict(rcut=y.rcut, rcut_smooth=rs, davg=A, dstd=D, center_atomic_numbers=ctr, nbr_atomic_numbers=zs, max_num_nbrs=cap, scaling_matrix=y.scaling)
    with scratch() as d:
        if env.concrete:
            import torch
            from checks import tmodel
            del tmodel.SEEN[:]
            torch.save(tmodel.Note(tuple(torch.tensor(v, requires_grad=True) for v in vals)), d + "/m.pt")
            seen = tmodel.SEEN
        else:
            m = NoteSym(tuple(ext.Tensor(v) for v in vals))
            ext.TFILES[d + "/m.pt"] = m
            seen = m.seen
        with quiet():
            got = DI(pt_file_path=d + "/m.pt", device="cpu", **kw).infer(y.structure)
    ip = IP(structure=y.structure, **kw)
    Ri, Rd = ip.expand_tildeR()
    want = [ip.expand_rc(), Ri, Rd, ip.expand_list_neigh(), ip.expand_natoms_img()]
    env.check(len(seen) == 1 and len(seen[0]) == 5, "the model is asked once, with five arrays")
    for g, w, lab in zip(seen[0], want, ("displacements", "descriptor", "derivatives", "neighbour indices", "atom counts")):
        g = g.detach().numpy() if hasattr(g, "detach") else g
        env.check(tuple(g.shape) == tuple(w.shape), "shape of the %s given to the model" % lab, info=(g.shape, w.shape))
        for a, b in zip(g.reshape(-1), w.reshape(-1)):
            env.check_eq(a, b, "%s given to the model" % lab)
    env.check(len(got) == 4, "energy, atomic energies, forces and virial")
    for g, v, sh, lab in zip(got, vals, ((1,), (n,), (n, 3), (3, 3)), ("energy", "atomic energies", "forces", "virial")):
        env.check(tuple(g.shape) == sh, "shape of the %s" % lab, info=(g.shape, sh))
        for a, b in zip(g.reshape(-1), v.reshape(-1)):
            env.check_eq(a, b, "%s as the model gave them" % lab)
    env.reach("end")


def collect(env):
    """statistics of several structures"""
    np = npof(env)
    DS = imp(env, "matersdk.io.publicLayer.structure").DStructure
    M = imp(env, "matersdk.feature.deepmd.preprocess")
    p = env.params
    y = make(env, DS, p["sys"], False)
    off_cutoff(env, y)
    rs = num(env, Q(3, 2))
    # second structure: the same crystal with fixed coordinates
    tab = {"b": SYS[p["sys"]][:3] + ([(e, f, "") for e, f, ax in SYS[p["sys"]][3]],)}
    y2 = make(env, DS, "b", False, table=tab)
    zs = sorted(set(y.z))
    both = [y, y2]
    L = [{c: within(v, c) for c in v.centres} for v in both]
    cap = [max(max(sum(1 for q in l if q[1] == z) for l in lv.values()) for lv in L) + 1 for z in zs]
    pick = [[0], [1, 0], [0, 1], [1]][env.choose("pick", 0, 3)]
    coll = types.SimpleNamespace(structures_lst=[v.structure for v in both])
    for zc in zs:
        arr = M.NormalizerPremise.concat_tildeRs4calc_stats(
            dp_labeled_system=coll, structure_indices=pick, rcut=y.rcut, rcut_smooth=rs, center_atomic_number=zc, nbr_atomic_numbers=zs,
            max_num_nbrs=cap, scaling_matrix=y.scaling)
        ctr = [c for c in y.centres if y.z[c] == zc]
        env.check(arr.shape == (len(ctr), len(pick) * sum(cap), 4), "shape of the collected rows", info=arr.shape)
        for i, c in enumerate(ctr):
            rows = [(0, vec(r)) for r in arr[i]]
            for s in pick:
                v = both[s]
                for a, z, x, d2 in L[s][c]:
                    w = row_of(env, [u - q for u, q in zip(x, v.cart[c])], np.sqrt(d2), d2, y.rcut, rs)
                    m = match(env, 0, w, rows, "row of every neighbour of every structure")
                    rows.pop(m)
            for _, r in rows:
                for a in r:
                    env.check_eq(a, 0, "unused rows are zero")
    env.reach("end")


def full(env):
    """statistics straight from a collection, all structures fixed (the choice of structures and species is explored)"""
    np = npof(env)
    DS = imp(env, "matersdk.io.publicLayer.structure").DStructure
    TN = imp(env, "matersdk.feature.deepmd.preprocess").TildeRNormalizer
    s = env.params["sys"]
    ys = [make(env, DS, "b", False, table={"b": SYS[s][:3] + ([(e, tuple(v + (Q(1, 16) if i and k == 2 and j == 0 else 0) for j, v in enumerate(f)), "")
                                                               for i, (e, f, ax) in enumerate(SYS[s][3])],)}) for k in (0, 2)]
    sh = env.real("sh", 1, 2)
    zs = sorted(set(ys[0].z))
    L = [{c: within(v, c) for c in v.centres} for v in ys]
    cap = [max(max(sum(1 for q in l if q[1] == z) for l in lv.values()) for lv in L) + 1 for z in zs]
    pick = [[0], [1], [1, 0]][env.choose("pick", 0, 2)]
    rs = num(env, Q(3, 2))
    coll = types.SimpleNamespace(structures_lst=[v.structure for v in ys])
    ctr = zs[::-1] if env.choose("rev", 0, 1) else zs
    nz = TN.from_dp_labeled_system(dp_labeled_system=coll, structure_indices=pick, rcut=ys[0].rcut, rcut_smooth=rs, center_atomic_numbers=ctr,
                                   nbr_atomic_numbers=zs, max_num_nbrs=cap, scaling_matrix=ys[0].scaling)
    env.check(nz.davgs.shape == (len(ctr), 4) and nz.dstds.shape == (len(ctr), 4), "shape of the statistics")
    for i, zc in enumerate(ctr):
        data = []
        for s in pick:
            v = ys[s]
            for c in [c for c in v.centres if v.z[c] == zc]:
                for t, zn in enumerate(zs):
                    r = [row_of(env, [u - q for u, q in zip(x, v.cart[c])], np.sqrt(d2), d2, v.rcut, rs) for a, z, x, d2 in L[s][c] if z == zn]
                    data += r + [[num(env, 0)] * 4] * (cap[t] - len(r))
        davg, dstd = want_stats(env, data)
        for k in range(4):
            env.check_eq(nz.davgs[i][k] * sh, davg[k] * sh, "average of a centre species")
            env.check_eq(nz.dstds[i][k] * nz.dstds[i][k] * sh, dstd[k] * dstd[k] * sh, "standard deviation of a centre species")
    env.reach("end")


def ffparam(env):
    """parameters of a trained network in an HDF5 file"""
    np = npof(env)
    X = imp(env, "matersdk.infer.pwmatmlff.deepmd.extractor").FFExtractor
    ext.reset()
    ne, le, nf, lf = env.choose("embedding nets", 1, 2), env.choose("embedding layers", 1, 3), env.choose("fitting nets", 1, 2), env.choose("fitting layers", 1, 3)
    res = env.choose("resnet", 0, 2)
    if env.params["small"]:
        env.assume(ne + nf <= 3)
    esz = [2, 2, 1][:le]
    m2 = 2
    fsz = [3, 2, 1][-lf:] if lf < 3 else [3, 2, 1]
    sd = {}

    def put(name, shape):
        n = 1
        for s in shape:
            n *= s
        v = [env.real("%s_%d" % (name, i), -2, 2) for i in range(n)]
        sd[name] = (v, shape)
    for i in range(ne):
        prev = 1
        for l in range(le):
            put("embedding_net.%d.weights.weight%d" % (i, l), (prev, esz[l]))
            put("embedding_net.%d.bias.bias%d" % (i, l), (1, esz[l]))
            if res == 1 and l:
                put("embedding_net.%d.resnet_dt.resnet_dt%d" % (i, l), (1, esz[l]))
            prev = esz[l]
    m1 = esz[-1]
    for i in range(nf):
        prev = m1 * m2
        for l in range(lf):
            put("fitting_net.%d.weights.weight%d" % (i, l), (prev, fsz[l]))
            put("fitting_net.%d.bias.bias%d" % (i, l), (1, fsz[l]))
            if res == 2 and l:
                put("fitting_net.%d.resnet_dt.resnet_dt%d" % (i, l), (1, fsz[l]))
            prev = fsz[l]
    with scratch() as d:
        pt = d + "/model.pt"
        if env.concrete:
            import torch
            torch.save({"state_dict": {k: torch.tensor(v, dtype=torch.float64).reshape(s) for k, (v, s) in sd.items()}}, pt)
        else:
            ext.TFILES[pt] = {"state_dict": {k: ext.Tensor(np.array(v).reshape(s)) for k, (v, s) in sd.items()}}
        x = X(pt_path=pt, num_embedding_nets=ne, num_embedding_layers=le, num_fitting_nets=nf, num_fitting_layers=lf)
        x.save_hdf5_file(d + "/p.h5")
        got = X.get_hdf5_dict(d + "/p.h5")
    env.check(sorted(got) == sorted(list(sd) + ["M1", "M2", "embedding_sizes", "fitting_sizes"]), "every parameter is stored under its name",
              info=sorted(set(got) ^ set(sd)))
    for k, (v, s) in sd.items():
        env.check(tuple(got[k].shape) == tuple(s), "shape of a parameter", info=(k, got[k].shape, s))
        for a, b in zip(got[k].reshape(-1), v):
            env.check_eq(a, b, "value of a parameter")
    env.check(int(got["M1"]) == m1 and int(got["M2"]) == m2, "descriptor dimensions M1 and M2", info=(int(got["M1"]), int(got["M2"])))
    env.check([int(v) for v in got["embedding_sizes"]] == esz and [int(v) for v in got["fitting_sizes"]] == fsz, "layer sizes",
              info=(list(got["embedding_sizes"]), list(got["fitting_sizes"])))
    env.reach("end")


FN = ["preprocess.py: TildeRPairNormalizer.calc_stats, _calc_std", "preprocess.py: TildeRPairNormalizer.normalize, normalize_derivative",
      "preprocess.py: TildeRNormalizer.to, from_file, normalize, _normalize; infer preprocess.py: InferPreprocessor.expand_rc, expand_tildeR, expand_list_neigh, expand_natoms_img",
      "preprocess.py: NormalizerPremise.concat_tildeRs4calc_stats", "preprocess.py: TildeRNormalizer.from_dp_labeled_system, calc_stats",
      "extractor.py: FFExtractor.save_hdf5_file, get_hdf5_dict"]


def cases(tier):
    th = tier == "thorough"
    out = []
    for i, (sh, sy) in enumerate([((1, 1), (0, 1, 2, 3)), ((2, 1), (0, 4)), ((1, 2), (1, 2)), ((3, 1, 1), (0, 1)), ((1, 2, 2), (0, 3)), ((2, 2), (4, 9))]
                                 + ([((2, 2), (0, 4, 8)), ((1, 3), (1, 6, 11)), ((2, 3), (0, 1, 8))] if th else [])):
        out.append(Case("stats_%d" % i, fn=stats, setup=setup, params=dict(shape=sh, sym=sy), reach=["end"], functions=FN[:1], budget=400,
                        bounds="array of shape %s, entries %s symbolic in [-2,2]" % (sh + (4,), sy)))
    out.append(Case("apply", fn=apply_, setup=setup, reach=["end"], functions=FN[1:2], budget=400, bounds="2x2(x2) rows, all values and statistics symbolic"))
    for s in SYS:
        if s in ("cube",) or (not th and s in ("four", "zaxis", "tri", "crowd")):
            continue
        n = len(set(a[0] for a in SYS[s][3]))
        for sub in (range(3) if th else (0, 1)) if n > 1 else (0,):
            if not th and sub and s not in ("pair", "unsorted"):
                continue
            out.append(Case("system_%s_%d" % (s, sub), fn=system, setup=setup, params=dict(sys=s, sub=sub, deriv=int(th or s in ("pair", "one"))), reach=["end"], functions=FN[2:3],
                            budget=800, bounds="system %s, marked coordinate and statistics symbolic, %s" % (s, "every centre species" if not sub else "centre species subset %d" % sub)))
    for s in ("one", "pair", "same") + (("unsorted", "tri") if th else ()):
        out.append(Case("collect_%s" % s, fn=collect, setup=setup, params=dict(sys=s), reach=["end"], functions=FN[3:4], budget=600,
                        bounds="two structures of system %s, one with a symbolic coordinate, every selection" % s))
    for s in ("pair", "same") + (("unsorted",) if th else ()):
        out.append(Case("full_" + s, fn=full, setup=setup, params=dict(sys=s), reach=["end"], functions=FN[4:5], budget=600,
                    bounds="two different fixed structures, every selection and order of centre species"))
    for s, sub in (("pair", 0), ("pair", 1), ("unsorted", 0), ("one", 0)):
        out.append(Case("infer_%s_%d" % (s, sub), fn=infer, setup=setup, params=dict(sys=s, sub=sub), reach=["end"], functions=["inference.py: DpInfer._preprocess, infer"], budget=600,
                        bounds="system %s, marked coordinate, statistics and every number of the model's answer symbolic" % s))
    out.append(Case("ffparam", fn=ffparam, setup=setup, params=dict(small=int(not th)), reach=["end"], functions=FN[5:], budget=400, validate=4,
                    bounds="1-2 nets of 1-3 layers each, resnet blocks in none, the embedding or the fitting nets; every weight symbolic"))
    return out
