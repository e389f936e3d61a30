"""input files and job scripts"""
import os
from engine.runner import Case
from engine.sym import ENG
from checks.common import REAL
from checks.pyh import *
from fractions import Fraction as Q
ASSUMPTIONS = [REAL, PYA, TEXT]


def setup(env):
    pyshim.instrument()
    ENG.exact_print = False
    pyshim.load("matersdk.io.pwmat.input.dos_input", "matersdk.io.pwmat.input.gen_vext", "matersdk.hpc.slurm.job")
    pyshim.install()


def read(env, tok):
    return float(tok) if env.concrete else pyshim.parse(tok)


def exact(env, u, v, label):
    """printed in full: what is read back is the number itself"""
    if env.concrete:
        env.check(abs(u - v) <= 1e-13 * max(1.0, abs(v)), label, info=(u, v))
    else:
        env.check_eq(u, v, label)


def lines(path):
    return open(path, encoding="utf-8").read().split("\n")


def dosin(env):
    C = imp(env, "matersdk.io.pwmat.input.dos_input").DosInput
    a, m = env.choose("atoms", 0, 1), env.choose("method", 0, 1)
    n = [1, 400, 4000, 123456789012][env.choose("energies", 0, 3)]
    s = env.real("smearing", 0, 5)
    g = [env.real("g%d" % i, 1, 99) for i in range(3)]
    with scratch() as d:
        if env.choose("twice", 0, 1):
            C().to(d + "/DOS.input")
        C(mark_atoms=a, mark_method=m, ismear=s, num_energies=n, grid_interp=g).to(d + "/DOS.input")
        L = [l.split("#")[0].split() for l in lines(d + "/DOS.input")]
    L = L[:-1] if L and not L[-1] else L
    env.check(len(L) == 5 and [len(l) for l in L] == [1, 1, 2, 3, 1], "layout of DOS.input", info=L)
    env.check(L[0] == [str(a)] and L[1] == [str(m)], "switches", info=L[:2])
    close(env, read(env, L[2][0]), s, Q(1, 10 ** 5) if not env.concrete else 1e-5, "smearing")
    env.check(L[2][1] == str(n), "number of energies", info=L[2])
    for u, v in zip(L[3], g):
        exact(env, read(env, u), v, "interpolation grid")
    env.reach("end")


def vext(env):
    C = imp(env, "matersdk.io.pwmat.input.gen_vext").GenVext
    t = env.choose("type", 0, 4)
    add = env.choose("add", 0, 1)
    k = {1: 3, 2: 6, 3: 2}.get(t, 3)
    c = [env.real("c%d" % i, -2, 2) for i in range(3)]
    a = [env.real("a%d" % i, -9, 9) for i in range(k)]
    with scratch() as d:
        try:
            x = C(c, t, bool(add), *a)
        except AssertionError:
            env.check(t not in (1, 2, 3), "a documented field type is accepted")
            env.reach("rejected")
            return
        env.check(t in (1, 2, 3), "an unknown field type is rejected")
        x.to(d + "/gen.vext")
        L = [l for l in lines(d + "/gen.vext") if l.strip()]
    f = {}
    for l in L:
        k_, v = l.split("=")
        env.check(k_.strip() not in f, "every keyword once")
        f[k_.strip()] = v.split()
    env.check(sorted(f) == ["ADD_VR", "VR_CENTER", "VR_DETAIL", "VR_TYPE"], "keywords of gen.vext", info=sorted(f))
    env.check(f["VR_TYPE"] == [str(t)] and f["ADD_VR"] == ["T" if add else "F"], "type and mode of the field", info=f)
    for name, w in (("VR_CENTER", c), ("VR_DETAIL", a)):
        env.check(len(f[name]) == len(w), "number of values", info=(name, f[name]))
        for u, v in zip(f[name], w):
            exact(env, read(env, u), v, "value of " + name)
    env.reach("end")


def job(env):
    J = imp(env, "matersdk.hpc.slurm.job").Job
    # the counts are printed as they are: any number
    v = [env.real(n, 0, 1000) for n in ("nodes", "tasks", "threads", "gpus", "gpus per task")]
    cmd = ["mpirun -np 4 PWmat\n", "echo a\necho b"][env.choose("command", 0, 1)]

    class K(J):
        def attach_command(self):
            return cmd
    with scratch() as d:
        K(partition="gpu", name="demo", num_nodes=v[0], num_tasks_per_node=v[1], threads_per_core=v[2], num_gpus=v[3], num_gpus_per_task=v[4]).to("job.sh")
        text = open(d + "/job.sh").read()
    L = text.split("\n")
    env.check(L[0].strip() == "#!/bin/bash", "the script starts with its interpreter")
    opts = {}
    for l in L:
        if l.startswith("#SBATCH"):
            k, w = l[len("#SBATCH"):].strip().split("=", 1)
            env.check(k not in opts, "every option once", info=k)
            opts[k] = w.strip()
    want = {"--nodes": v[0], "--ntasks-per-node": v[1], "--threads-per-core": v[2], "--gres": v[3], "--gpus-per-task": v[4]}
    env.check(sorted(opts) == sorted(list(want) + ["--partition", "--job-name"]), "scheduler options, one per line", info=opts)
    env.check(opts["--partition"] == "gpu" and opts["--job-name"] == "demo", "partition and job name", info=opts)
    env.check(opts["--gres"].startswith("gpu:"), "resource kind", info=opts["--gres"])
    opts["--gres"] = opts["--gres"][4:]
    for k in want:
        env.check(len(opts[k].split()) == 1 and "#" not in opts[k], "one value per option", info=opts[k])
        exact(env, read(env, opts[k]), want[k], "value of " + k)
    rest = [l for l in L[1:] if not l.startswith("#SBATCH") and l.strip()]
    env.check(rest == [l for l in cmd.split("\n") if l], "the command", info=rest)
    last = max(i for i, l in enumerate(L) if l.startswith("#SBATCH"))
    env.check(min(i for i, l in enumerate(L) if l == rest[0]) > last, "options come before the command")
    env.reach("end")


def cases(tier):
    return [Case("dosinput", fn=dosin, setup=setup, reach=["end"], functions=["dos_input.py: DosInput.to"], bounds="smearing symbolic in [0,5], grid symbolic, switches and number of energies by choice", budget=300),
            Case("genvext", fn=vext, setup=setup, reach=["end", "rejected"], functions=["gen_vext.py: GenVext"], bounds="centre and field parameters symbolic; types 0-4", budget=300),
            Case("job", fn=job, setup=setup, reach=["end"], functions=["job.py: Job.to"], bounds="every count symbolic, two commands", budget=300)]
