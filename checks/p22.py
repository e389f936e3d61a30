"""randomly perturbed copies of a structure"""
import os
from engine.runner import Case
from engine.sym import ENG
from checks.common import REAL
from checks.pyh import *
from checks.pysys import LATS
from fractions import Fraction as Q
ASSUMPTIONS = [REAL, PYA, TEXT, "random numbers are inputs of the encoding: uniform draws lie in [0,1), normal draws in [-6,6]",
               "numpy.linalg.qr is replaced by an exact QR decomposition with LAPACK's signs", "right-handed cells (the code asserts this)"]
SET = mods("matersdk.adalearn.generator.perturbation", "matersdk.io.publicLayer.structure")


class Feed:
    """hands out the draws: the same numbers to the proxy and, in a replay, to numpy"""
    def __init__(self, env, sym):
        self.env, self.sym, self.k, self.log = env, sym, 0, []

    def one(self, kind):
        k = self.k
        self.k += 1
        if self.sym == "all" or k in self.sym:
            v = self.env.real("%s%d" % (kind, k), 0 if kind == "u" else -6, Q(999, 1000) if kind == "u" else 6)
        else:
            v = num(self.env, Q((7 * k + 3) % 16, 16) if kind == "u" else Q((5 * k) % 13 - 6, 4))
        self.log.append((kind, v))
        return v

    def __enter__(self):
        if self.env.concrete:
            import numpy as np
            self.old = {n: getattr(np.random, n) for n in ("rand", "random", "random_sample", "randn", "standard_normal", "uniform", "normal")}
            def arr(kind, size):
                if size in ((), None):
                    return float(self.one(kind))
                size = (size,) if isinstance(size, int) else size
                return np.array([float(self.one(kind)) for _ in range(int(np.prod(size)))]).reshape(size)
            np.random.rand = lambda *s: arr("u", s)
            np.random.random = np.random.random_sample = lambda size=None: arr("u", size)
            np.random.randn = lambda *s: arr("n", s)
            np.random.standard_normal = lambda size=None: arr("n", size)
            np.random.uniform = lambda low=0.0, high=1.0, size=None: low + (high - low) * arr("u", size)
            np.random.normal = lambda loc=0.0, scale=1.0, size=None: loc + scale * arr("n", size)
        else:
            ENG.source = lambda kind, i: self.one(kind)
        return self

    def __exit__(self, *a):
        if self.env.concrete:
            import numpy as np
            for n, f in self.old.items():
                setattr(np.random, n, f)


def mul(a, b):
    return [[sum((a[i][k] * b[k][j] for k in range(1, 3)), a[i][0] * b[0][j]) for j in range(3)] for i in range(3)]


def setup(env, p):
    DS = imp(env, "matersdk.io.publicLayer.structure").DStructure
    M = imp(env, "matersdk.adalearn.generator.perturbation")
    lat = [[num(env, v) for v in r] for r in LATS[p["lat"]]]
    n = p.get("n", 1)
    el = ["Si", "H", "Li"][:n]
    x = [[num(env, Q(2 * i + j, 8) - Q(1, 8)) for j in range(3)] for i in range(n)]
    for q in p.get("xsym", ()):
        x[q[0]][q[1]] = env.real("x%d%d" % q, -1, 2)
    return DS, M, lat, el, x


def matrix(env):
    """the deformation and the displacement of one draw"""
    p = env.params
    DS, M, lat, el, x = setup(env, p)
    s = DS(lattice=lat, species=el, coords=x)
    o = M.PerturbStructure(s)
    f = env.real("f", 0, Q(1, 2))
    d = env.real("dist", 0, 3)
    with Feed(env, "all") as fd:
        m = o.get_cell_perturb_matrix(f)
        u = [v for k, v in fd.log if k == "u"]
        env.check(tuple(m.shape) == (3, 3), "shape of the deformation")
        env.check(len(u) >= 6, "six uniform draws", info=fd.log)
        used = []
        for i in range(3):
            for j in range(i, 3):
                env.check_eq(m[i][j], m[j][i], "the deformation is symmetric")
                e = m[i][j] - (1 if i == j else 0)
                w = f if i == j else f / 2
                env.check((e <= w + (1e-12 if env.concrete else 0)) & (e >= -w - (1e-12 if env.concrete else 0)), "size of the deformation", info=val(e))
                # an independent draw spread over the whole range
                k = [q for q in range(len(u)) if same(e, (2 * u[q] - 1) * w)]
                env.check(bool(k), "uniform over the documented range")
                used.append(k)
        if not env.concrete:
            env.check(len(set(k[0] for k in used)) == 6, "independent components", info=used)
        fd.log = []
        v = o.get_atom_perturb_vector(d)
        fd.log = [q for q in fd.log if q[0] == "n"]
        env.check(len(v) == 3 and len(fd.log) == 3, "three normal draws")
        s2 = sum(v[j] * v[j] for j in range(3))
        env.check_eq(3 * s2, d * d * sum(n * n for _, n in fd.log), "length of the displacement")
        for j in range(3):
            # direction: each component its own draw
            env.check_eq(3 * v[j] * v[j], d * d * fd.log[j][1] * fd.log[j][1], "components of the displacement")
            env.check(v[j] * fd.log[j][1] >= (0 if not env.concrete else -1e-12), "direction of the displacement")
        for bad in (o.get_cell_perturb_matrix, o.get_atom_perturb_vector):
            try:
                bad(-1e-3)
                env.check(False, "negative sizes are rejected")
            except RuntimeError:
                pass
    env.reach("end")


def perturb(env):
    p = env.params
    DS, M, lat, el, x = setup(env, p)
    s = DS(lattice=lat, species=el, coords=x)

    class Rec(M.PerturbStructure):
        def get_cell_perturb_matrix(self, f):
            m = super().get_cell_perturb_matrix(f)
            self.m.append([[m[i][j] for j in range(3)] for i in range(3)])
            self.v.append([])
            return m

        def get_atom_perturb_vector(self, d):
            v = super().get_atom_perturb_vector(d)
            self.v[-1].append([v[j] for j in range(3)])
            return v
    n = len(el)
    with scratch() as d, Feed(env, p["sym"]) as fd:
        if p.get("batch"):
            sp = lambda v: "{}".format(v) if not env.concrete else repr(float(v))
            keep, logs = M.PerturbStructure, []
            class Rec2(Rec):
                def __init__(self, atoms):
                    super().__init__(atoms)
                    self.m, self.v = [], []
                    logs.append(self)
            M.PerturbStructure = Rec2
            try:
                dirs = [os.path.join(d, q) for q in ("a", "b")]
                for q in dirs:
                    os.mkdir(q)
                    s.to(file_path=os.path.join(q, "atom.config"), file_format="pwmat")
                os.mkdir(os.path.join(dirs[1], "structures"))
                M.BatchPerturbStructure.batch_perturb(dirs, p["num"], 0.1, 0.05)
            finally:
                M.PerturbStructure = keep
            for q, o in zip(dirs, logs):
                L = sorted(os.listdir(os.path.join(q, "structures")), key=lambda v: (len(v), v))
                env.check(L == ["%d.config" % i for i in range(p["num"])], "one file per copy", info=L)
                got = [DS.from_file(file_path=os.path.join(q, "structures", l), file_format="pwmat") for l in L]
                check_copies(env, got, o, lat, el, x, loose=True)
        else:
            o = Rec(s)
            o.m, o.v = [], []
            f = num(env, Q(1, 10))
            got = o.perturb(pert_num=p["num"], cell_pert_fraction=f, atom_pert_distance=num(env, Q(3, 10)))
            check_copies(env, got, o, lat, el, x)
            for a, b in zip(s.lattice.matrix, lat):
                for u, v in zip(a, b):
                    env.check_eq(u, v, "the original keeps its lattice")
            for i in range(n):
                for j in range(3):
                    env.check_eq(s.frac_coords[i][j], x[i][j], "the original keeps its atoms")
    env.reach("end")


def check_copies(env, got, o, lat, el, x, loose=False):
    n = len(el)
    env.check(len(got) == len(o.m) == env.params["num"], "number of copies", info=len(got))
    eq = env.check_eq if not loose else (lambda a, b, l: close(env, a, b, num(env, Q(1, 10 ** 3)), l))     # printed with six decimals
    for c, m, v in zip(got, o.m, o.v):
        env.check([str(q.specie) for q in c.sites] == el, "species of a copy", info=[str(q.specie) for q in c.sites])
        env.check(len(v) == n, "one displacement per atom", info=len(v))
        A = mul(lat, m)
        N = [[c.lattice.matrix[i][j] for j in range(3)] for i in range(3)]
        for i in range(3):
            for j in range(i + 1):
                eq(sum(N[i][k] * N[j][k] for k in range(3)), sum(A[i][k] * A[j][k] for k in range(3)), "lattice of a copy: the deformed lattice up to a rotation")
        for i in range(3):
            env.check(N[i][i] > 0, "lattice of a copy: positive diagonal")
            for j in range(i + 1, 3):
                eq(N[i][j], 0 if env.concrete else R.const(0), "lattice of a copy: lower triangular")
        for a in range(n):
            fr = [c.frac_coords[a][j] for j in range(3)]
            got_ = frac2cart(fr, A)
            want = add(frac2cart(x[a], A), v[a])
            for j in range(3):
                eq(got_[j], want[j], "position of an atom: deformed with the cell and displaced")


FN = ["perturbation.py: PerturbStructure.get_cell_perturb_matrix, get_atom_perturb_vector", "perturbation.py: PerturbStructure.perturb, rot_lower_triangular", "perturbation.py: BatchPerturbStructure.batch_perturb; structure.py: DStructure.to, from_file"]


def cases(tier):
    T = tier == "thorough"
    out = [Case("draw", fn=matrix, setup=SET, params=dict(lat="ortho"), reach=["end"], functions=FN[:1], budget=300, bounds="all draws and both sizes symbolic")]
    rot = {"ortho": "ortho", "hex": "hex", "tri": "tri"}
    for lat in rot:
        for n in (1, 2) if not T else (1, 2, 3):
            for num_ in (1, 2) if not T else (1, 2, 3):
                # normals of the first copy symbolic, plus coordinates
                out.append(Case("pos_%s_%d_%d" % (lat, n, num_), fn=perturb, setup=SET, params=dict(lat=lat, n=n, num=num_, sym=list(range(6, 6 + 3 * n)), xsym=[(0, 0), (n - 1, 2)]), reach=["end"], functions=FN[1:2],
                                budget=400, bounds="%d atoms, %d copies; displacements of the first copy and two coordinates symbolic, deformations concrete" % (n, num_)))
    for lat in ("ortho", "hex", "tri"):
        for k in [[i] for i in range(6)] + ([[i, j] for i in range(6) for j in range(i)] if T else [[0, 3], [4, 5]]):
            out.append(Case("cell_%s_%s" % (lat, "".join(map(str, k))), fn=perturb, setup=SET, params=dict(lat=lat, n=1, num=1, sym=k), reach=["end"], functions=FN[1:2], budget=400,
                            bounds="1 atom; components %s of the deformation symbolic" % k))
        for n, num_ in ((1, 1), (2, 2), (2, 3)) + (((1, 12),) if lat == "ortho" else ()):
            out.append(Case("batch_%s_%d_%d" % (lat, n, num_), fn=perturb, setup=SET, params=dict(lat=lat, n=n, num=num_, batch=1, sym=list(range(6, 6 + 3 * n))), reach=["end"], functions=FN[1:], budget=400,
                            bounds="two directories, %d atoms, %d copies; displacements of the first copy symbolic" % (n, num_)))
    return out
