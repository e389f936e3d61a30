"""Runs the cases of a check, replays counterexamples on the unmodified code, writes evidence."""
import importlib, json, os, pickle, re, resource, select, signal, subprocess, sys, tempfile, time, traceback
from fractions import Fraction

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
PY = sys.executable
REPO = os.environ.get("VERIF_REPO", "/repo")

from engine import sym as S, poly as P, cxx                                   # noqa: E402
from engine.env import SymEnv, ConcreteEnv                                    # noqa: E402
from engine.sym import ENG, PathAbort, Event, Unsupported, Inconclusive      # noqa: E402


class Case:
    """one bounded obligation set.
       cxx:  harness=<file in cxx/>, entry=<CASE name>
       py:   fn(env) -> None, with setup(env) installing shims (symbolic mode only)"""

    def __init__(self, name, entry=None, harness=None, fn=None, params=None, tiers=("quick", "thorough"),
                 max_paths=20000, budget=300, functions=(), bounds="", timeout_ms=20000, reach=(), defines=(),
                 setup=None, replay_tol=None, validate=8):
        self.name, self.entry, self.harness, self.fn = name, entry or name, harness, fn
        self.params = dict(params or {})
        self.tiers, self.max_paths, self.budget = tiers, max_paths, budget
        self.functions, self.bounds, self.timeout_ms = list(functions), bounds, timeout_ms
        self.reach, self.defines, self.setup = list(reach), list(defines), setup
        self.validate = validate


def load_check(pid):
    return importlib.import_module("checks." + pid.lower())


_builds = {}


def get_build(case):
    k = (case.harness, tuple(case.defines))
    if k not in _builds:
        _builds[k] = cxx.Build(case.harness, case.defines)
    return _builds[k]


# ---------------------------------------------------------------------------- symbolic worker
def run_case_symbolic(pid, case, so, real_so, deadline):
    ENG.reset()
    ENG.timeout_ms = case.timeout_ms
    env = SymEnv(case.params)
    res = {"case": case.name, "violations": [], "unreproduced": [], "error": None, "validated": 0, "samples": []}
    if case.harness:
        br = cxx.Bridge(so, env)

        def fn():
            br.run(case.entry)
    else:
        if case.setup:
            case.setup(env)

        def fn():
            case.fn(env)

    def fn_guard():
        try:
            fn()
        except (PathAbort, Event, Unsupported, Inconclusive):
            raise
        except Exception as e:
            # the code under test raised: an event of this path
            if ENG.dead is not None:
                raise ENG.dead
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if REPO in f.filename]
            if not where and not case.harness:
                # what the code returned or wrote cannot be read as documented; the replay decides whether that is so
                raise Event("unusable result, %s: %s" % (type(e).__name__, str(e)[:200]))
            raise Event("exception %s: %s" % (type(e).__name__, str(e)[:200]))

    seen_labels = {}

    def on_violation(v):
        lab = v["label"]
        seen_labels[lab] = seen_labels.get(lab, 0) + 1
        if seen_labels[lab] > 3:
            return len(res["unreproduced"]) > 12
        for m in v["models"][:8]:
            out = replay_models(pid, case, [m], real_so)
            if out and out[0].get("fails"):
                res["violations"].append({"label": lab, "model": m, "observed": out[0]["fails"]})
                return True
            if out and out[0].get("aborted"):
                # the model sits on a tie: take it only if the machine's arithmetic shows the very same failure there
                out = replay_models(pid, case, [m], real_so, ties=True)
                if out and any(f[0] == lab for f in out[0].get("fails", ())):
                    res["violations"].append({"label": lab, "model": m, "observed": out[0]["fails"], "ties": True})
                    return True
        for m in v["models"][:4]:
            # a small difference: the same failure, far above the noise of double precision
            out = replay_models(pid, case, [m], real_so, tol=1e-9)
            if out and any(f[0] == lab for f in out[0].get("fails", ())):
                res["violations"].append({"label": lab, "model": m, "observed": out[0]["fails"], "tol": 1e-9})
                return True
        for m in v["models"][:2]:
            for m2, o in near(pid, case, m, real_so):
                if any(f[0] == lab for f in o.get("fails", ())):
                    res["violations"].append({"label": lab, "model": m2, "observed": o["fails"]})
                    return True
        res["unreproduced"].append({"label": lab, "model": v["models"][0] if v["models"] else {},
                                    "out": out[0] if v["models"] and out else None})
        return len(res["unreproduced"]) >= 6

    t0 = time.time()
    models = []

    def progress(e):
        if len(models) < case.validate * 20:
            models.append(e.export(e.base))

    if os.environ.get("VERIF_MARK"):
        mark = open(os.environ["VERIF_MARK"] + "." + re.sub(r"\W", "_", case.name), "w")
    try:
        ENG.explore(fn_guard, max_paths=case.max_paths, deadline=min(deadline, t0 + case.budget),
                    on_violation=on_violation, progress=progress)
        if ENG.truncated and not res["violations"]:
            res["error"] = "exploration not completed: " + ENG.truncated
        if ENG.inconclusive and not res["violations"]:
            res["error"] = "solver gave no verdict on: " + ", ".join(sorted(set(ENG.inconclusive))[:5])
    except (Unsupported, Inconclusive) as e:
        res["error"] = "%s: %s" % (type(e).__name__, e)
        res["trace"] = traceback.format_exc()[-1500:]
    except Exception as e:
        res["error"] = "engine error %s: %s" % (type(e).__name__, e)
        res["trace"] = traceback.format_exc()[-3000:]
    if res["unreproduced"] and not res["violations"]:
        res["error"] = "counterexample not reproduced on the real code: %s" % json.dumps(res["unreproduced"][0])[:600]
    st = ENG.stats.as_dict()
    res["stats"] = st
    for r in case.reach:
        if not st["reached"].get(r) and not res["violations"] and not res["error"]:
            res["error"] = "vacuous: point %r never reached" % r
    if not res["violations"] and not res["error"] and st["obligations"] == 0:
        res["error"] = "vacuous: no obligation was generated"
    # encoding validation: models of explored paths run through the real code must pass there too
    if models and not res["violations"] and not res["error"] and case.validate:
        step = max(1, len(models) // case.validate)
        sel = models[::step][:case.validate]
        out = replay_models(pid, case, sel, real_so)
        bad = [(m, o) for m, o in zip(sel, out or []) if o.get("fails")]
        res["validated"] = len(out or [])
        if bad:
            # the real code fails where the encoding says it cannot (floating rounding at a tie is ignored)
            res["disagree"] = [{"model": m, "out": o} for m, o in bad[:3]]
        res["samples"] = sel[:2]
    res["wall"] = time.time() - t0
    return res


def near(pid, case, model, real_so, n=40):
    """the real code at inputs near a model that did not reproduce (the encoding rounds less exactly than the machine)"""
    import random
    rnd = random.Random(7)
    var = [a for a in P.T.atoms if a.kind == "var" and "#" not in a.name and a.name not in ENG.choices and a.name in model]
    ms = []
    for i in range(n):
        m = dict(model)
        sc = 10.0 ** -rnd.randint(1, 6)
        for a in var:
            lo, hi = float(a.lo) if a.lo is not None else -1e3, float(a.hi) if a.hi is not None else 1e3
            v = min(hi, max(lo, m[a.name][0] + rnd.uniform(-1, 1) * sc * min(hi - lo, 4.0)))
            m[a.name] = [v, str(v)]
        ms.append(m)
    return list(zip(ms, replay_models(pid, case, ms, real_so)))


def replay_models(pid, case, models, real_so, ties=False, tol=1e-6):
    """run the case concretely in a fresh process for each model; returns list of {"fails": [...]}"""
    job = {"check": pid, "case": case.name, "models": [{k: v[0] for k, v in m.items()} for m in models],
           "real_so": real_so, "batch": len(models) > 1, "ties": ties, "tol": tol}
    fd, path = tempfile.mkstemp(prefix="verif_replay_", suffix=".json")
    with os.fdopen(fd, "w") as f:
        json.dump(job, f)
    try:
        r = subprocess.run([PY, "-m", "engine.runner", "--replay-raw", path], cwd=HERE, capture_output=True, text=True,
                           timeout=120, env=dict(os.environ, PYTHONPATH=""))
        for line in r.stdout.splitlines()[::-1]:
            if line.startswith("@@REPLAY "):
                out = json.loads(line[9:])
                if r.returncode < 0 and len(out) < len(models):
                    out.append({"fails": [["crash", "signal %d" % -r.returncode]]})
                return out
        if r.returncode < 0:
            return [{"fails": [["crash", "signal %d" % -r.returncode]]}]
        return [{"fails": [], "error": (r.stderr or r.stdout)[-800:]}]
    except subprocess.TimeoutExpired:
        return [{"fails": [], "error": "replay timed out"}]
    finally:
        os.unlink(path)


def concrete_run(pid, case, model, real_so, offset=None):
    env = ConcreteEnv(case.params, model, offset)
    try:
        if case.harness:
            so = real_so or get_build(case).compile(False)
            br = getattr(concrete_run, "br", {}).get(so)
            if br is None:
                br = cxx.Bridge(so, env)
                concrete_run.br = {so: br}
            br.env = env
            br.run(case.entry)
        else:
            case.fn(env)
    except PathAbort:
        env.aborted = True
    except Event as e:
        env.fails.append(("event:" + e.label, ""))
    except S.Unsupported as e:
        raise RuntimeError("replay touched symbolic machinery: %s" % e)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        env.fails.append(("event:exception %s: %s" % (type(e).__name__, str(e)[:200]),
                          "; ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in tb[-3:])))
    return env


def concrete_check(pid, case, model, real_so):
    env = concrete_run(pid, case, model, real_so)
    fails = [list(f) for f in env.fails]
    if not fails and env.derivs:
        # compare each reported derivative with a central difference of the real code's value
        vs = sorted({v for lst in env.derivs.values() for v, _, _ in lst})
        probes = {}
        for v in vs:
            for h in (1e-4, 1e-5):
                for sgn in (1, -1):
                    probes[(v, h, sgn)] = concrete_run(pid, case, model, real_so, {v: sgn * h})
        for lab, lst in env.derivs.items():
            for i, (v, val, d) in enumerate(lst):
                ok = False
                best = None
                for h in (1e-4, 1e-5):
                    try:
                        up = probes[(v, h, 1)].derivs[lab][i][1]
                        dn = probes[(v, h, -1)].derivs[lab][i][1]
                    except (KeyError, IndexError):
                        continue
                    scale = max(1.0, abs(d))
                    num = [(up - dn) / (2 * h), (up - val) / h, (val - dn) / h]
                    best = num[0]
                    if any(abs(x - d) <= 2e-3 * scale for x in num):
                        ok = True
                        break
                if best is None:
                    continue
                if not ok or d != d:
                    fails.append([lab, "reported derivative %r, finite difference %r" % (d, best)])
    return {"fails": fails[:5], "aborted": env.aborted}


# ---------------------------------------------------------------------------- parent
def run_check(pid, tier):
    t0 = time.time()
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    mod = load_check(pid)
    cases = [c for c in mod.cases(tier) if tier in c.tiers]
    only = os.environ.get("VERIF_CASE")
    if only:
        cases = [c for c in cases if re.search(only, c.name)]
    limit = float(os.environ.get("VERIF_LIMIT", getattr(mod, "LIMIT", {}).get(tier, 780 if tier == "quick" else 5400)))
    deadline = t0 + limit
    errors = []
    results = []
    # build harness libraries in parallel
    sos = {}
    procs = []
    builds = {}
    for c in cases:
        if c.harness:
            b = get_build(c)
            builds[(c.harness, tuple(c.defines))] = b
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        for k, b in builds.items():
            if not os.path.isdir(os.path.join(b.dir, "src")):
                cxx.copy_transformed(os.path.join(b.dir, "src"))
        futs = {(k, s): ex.submit(b.compile, s) for k, b in builds.items() for s in (True, False)}
        for k, f in futs.items():
            try:
                sos[k] = f.result()
            except cxx.BuildError as e:
                errors.append(str(e))
    jobs = [c for c in cases if not c.harness or ((c.harness, tuple(c.defines)), True) in sos]
    ncpu = int(os.environ.get("VERIF_JOBS", "8"))
    running = {}
    queue = list(jobs)
    stop = False
    while (queue and not stop) or running:
        while queue and len(running) < ncpu and not stop:
            c = queue.pop(0)
            rfd, wfd = os.pipe()
            sys.stdout.flush()
            pid_ = os.fork()
            if pid_ == 0:
                os.close(rfd)
                code = 0
                try:
                    dn = os.open(os.devnull, os.O_WRONLY)
                    if not os.environ.get("VERIF_DEBUG"):
                        os.dup2(dn, 1)
                        os.dup2(dn, 2)
                    k = (c.harness, tuple(c.defines))
                    r = run_case_symbolic(pid, c, sos.get((k, True)), sos.get((k, False)), deadline)
                except BaseException as e:
                    r = {"case": c.name, "violations": [], "error": "worker: %s %s" % (type(e).__name__, e),
                         "trace": traceback.format_exc()[-2000:], "stats": ENG.stats.as_dict(), "validated": 0, "samples": [],
                         "unreproduced": []}
                with os.fdopen(wfd, "wb") as f:
                    pickle.dump(r, f)
                os._exit(code)
            os.close(wfd)
            running[rfd] = (pid_, c, b"")
        if not running:
            break
        ready, _, _ = select.select(list(running), [], [], 1.0)
        for fd in ready:
            data = os.read(fd, 1 << 20)
            p, c, buf = running[fd]
            if data:
                running[fd] = (p, c, buf + data)
                continue
            os.close(fd)
            _, status = os.waitpid(p, 0)
            del running[fd]
            try:
                r = pickle.loads(buf)
            except Exception:
                r = {"case": c.name, "violations": [], "unreproduced": [], "stats": S.Stats().as_dict(), "validated": 0,
                     "samples": [], "error": "worker died with status %d" % status}
                # a crash of the code under test: look for a concrete witness
                if os.WIFSIGNALED(status) and c.harness:
                    r["crash"] = os.WTERMSIG(status)
                    k = (c.harness, tuple(c.defines))
                    w = crash_witness(pid, c, sos.get((k, True)), sos.get((k, False)))
                    if w:
                        r["violations"].append(w)
                        r["error"] = None
            results.append(r)
            if r["violations"]:
                stop = True
        if time.time() > deadline + 60:
            for fd, (p, c, _) in running.items():
                try:
                    os.kill(p, signal.SIGKILL)
                except OSError:
                    pass
    known = load_known(pid)
    return finish(pid, tier, mod, cases, results, errors, t0, known)


def crash_witness(pid, case, so, real_so):
    """re-run the case one path at a time, in a child that reports each path's model before running it"""
    rfd, wfd = os.pipe()
    p = os.fork()
    if p == 0:
        os.close(rfd)
        try:
            dn = os.open(os.devnull, os.O_WRONLY)
            os.dup2(dn, 1)
            os.dup2(dn, 2)
            ENG.reset()
            env = SymEnv(case.params)
            br = cxx.Bridge(so, env)
            w = os.fdopen(wfd, "wb", buffering=0)

            orig = ENG.decide

            def fn():
                w.write((json.dumps(ENG.export(ENG.base)) + "\n").encode())
                br.run(case.entry)
            ENG.explore(fn, max_paths=case.max_paths, deadline=time.time() + 120)
        finally:
            os._exit(0)
    os.close(wfd)
    data = b""
    while True:
        d = os.read(rfd, 1 << 16)
        if not d:
            break
        data = (data + d)[-200000:]
    os.close(rfd)
    os.waitpid(p, 0)
    lines = [l for l in data.split(b"\n") if l.startswith(b"{") and l.endswith(b"}")]
    for l in lines[::-1][:3]:
        m = json.loads(l)
        out = replay_models(pid, case, [m], real_so)
        if out and out[0].get("fails"):
            return {"label": "crash", "model": m, "observed": out[0]["fails"]}
    return None


def load_known(pid):
    path = os.path.join(HERE, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("{"):
                d = json.loads(line)
                if d.get("property") == pid and d.get("status") == "known":
                    out.append(d)
    return out


def finish(pid, tier, mod, cases, results, errors, t0, known):
    from fractions import Fraction as F
    agg = S.Stats().as_dict()
    for r in results:
        for k, v in r["stats"].items():
            if isinstance(v, dict):
                continue
            agg[k] = agg.get(k, 0) + v
    viols = []
    for r in results:
        for v in r["violations"]:
            viols.append((r["case"], v))
    rc = 0
    lines = []
    files = []
    outdir = os.path.join(HERE, "evidence", "replay")
    knownhits = []
    for cname, v in viols:
        hit = None
        for k in known:
            if re.fullmatch(k["case"], cname) and re.fullmatch(k["label"], v["label"]):
                hit = k
        if hit:
            knownhits.append(hit)
            continue
        os.makedirs(outdir, exist_ok=True)
        path = os.path.join(outdir, "%s_%s.json" % (pid, re.sub(r"\W+", "_", cname)))
        with open(path, "w") as f:
            json.dump({"check": pid, "case": cname, "label": v["label"], "model": v["model"], "observed": v["observed"], "ties": v.get("ties", False), "tol": v.get("tol", 1e-6),
                       "how": "bash /verif/run.sh --replay " + path}, f, indent=1)
        files.append(path)
        lines.append("VIOLATION property=%s replay=%s" % (pid, path))
        print("  case %s: %s violated; inputs %s; observed %s" % (
            cname, v["label"], json.dumps({k: x[1] for k, x in v["model"].items()})[:400], json.dumps(v["observed"])[:300]))
        rc = 1
    for r in results:
        if r.get("error"):
            errors.append("%s: %s" % (r["case"], r["error"]))
            if r.get("trace"):
                errors.append(r["trace"])
        if r.get("disagree"):
            errors.append("%s: real code fails on an input the encoding passes: %s" % (r["case"], json.dumps(r["disagree"])[:600]))
    per_case = []
    for r in results:
        c = next(x for x in cases if x.name == r["case"])
        st = r["stats"]
        per_case.append({"case": c.name, "bounds": c.bounds, "functions": c.functions, "paths": st["paths"],
                         "obligations": st["obligations"], "discharged": st["discharged"],
                         "discharged_by_normalisation": st["folded"], "queries": st["queries"],
                         "unsat": st["unsat"], "sat": st["sat"], "unknown": st["unknown"], "solver_s": round(st["solver_s"], 3),
                         "reached": st["reached"], "validated": r["validated"], "wall_s": round(r.get("wall", 0), 2),
                         "error": r.get("error")})
    samples = []
    for r in results:
        for m in r["samples"]:
            samples.append({"case": r["case"], "path_model": {k: v[1] for k, v in list(m.items())[:40]}})
            break
    funcs = sorted({f for c in cases for f in c.functions})
    ev = {"property": pid, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "1") or 1), "level": "model_checking",
          "coverage": {"states": agg["paths"], "transitions": agg["forks"],
                       "traces_validated_against_impl": sum(r["validated"] for r in results),
                       "obligations": agg["obligations"], "discharged": agg["discharged"], "solver_queries": agg["queries"],
                       "queries_unsat": agg["unsat"], "queries_sat": agg["sat"], "queries_unknown": agg["unknown"],
                       "solver_s": round(agg["solver_s"], 3), "functions_encoded": funcs,
                       "rule": "states = symbolic paths explored to their end, transitions = branch decisions taken on symbolic "
                               "values; every obligation is decided for all values of the symbolic inputs within the bounds",
                       "samples": samples[:6], "cases": per_case, "errors": [e[:1000] for e in errors[:10]]},
          "assumptions": getattr(mod, "ASSUMPTIONS", []), "violations": len(files), "wall_s": round(time.time() - t0, 2)}
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    for k in knownhits:
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    for l in lines:
        print(l)
    if rc == 0 and errors:
        for e in errors[:12]:
            print("ERROR " + e)
        rc = 2
    if rc == 0 and len(results) < len(cases) and not knownhits:
        print("ERROR not every case ran")
        rc = 2
    print("%s %s: cases=%d paths=%d obligations=%d discharged=%d queries=%d solver=%.1fs validated=%d wall=%.1fs -> %s" % (
        pid, tier, len(results), agg["paths"], agg["obligations"], agg["discharged"], agg["queries"], agg["solver_s"],
        ev["coverage"]["traces_validated_against_impl"], time.time() - t0, {0: "holds", 1: "VIOLATED", 2: "NO ANSWER"}[rc]))
    return rc


def main():
    a = sys.argv[1:]
    if a[0] == "--replay-raw":
        job = json.load(open(a[1]))
        mod = load_check(job["check"])
        case = next(c for t in ("quick", "thorough") for c in mod.cases(t) if c.name == job["case"])
        out = []
        real_so = job["real_so"]
        ConcreteEnv.ties = job["ties"]
        ConcreteEnv.tol = job["tol"]
        for m in job["models"]:
            if job["batch"]:
                # isolate crashes from the rest of the batch
                r, w = os.pipe()
                p = os.fork()
                if p == 0:
                    os.close(r)
                    try:
                        o = concrete_check(job["check"], case, m, real_so)
                    except BaseException as e:
                        o = {"fails": [], "error": repr(e)}
                    os.write(w, json.dumps(o).encode())
                    os._exit(0)
                os.close(w)
                data = b""
                while True:
                    d = os.read(r, 65536)
                    if not d:
                        break
                    data += d
                os.close(r)
                _, st = os.waitpid(p, 0)
                out.append(json.loads(data) if data else {"fails": [["crash", "status %d" % st]]})
            else:
                out.append(concrete_check(job["check"], case, m, real_so))
        sys.stdout.flush()
        print("\n@@REPLAY " + json.dumps(out))
        return 0
    if a[0] == "--replay":
        d = json.load(open(a[1]))
        mod = load_check(d["check"])
        case = next(c for t in ("quick", "thorough") for c in mod.cases(t) if c.name == d["case"])
        m = {k: v[0] for k, v in d["model"].items()}
        ConcreteEnv.ties = d.get("ties", False)
        ConcreteEnv.tol = d.get("tol", 1e-6)
        o = concrete_check(d["check"], case, m, None)
        print(json.dumps({"inputs": d["model"], "result": o}, indent=1))
        return 1 if o["fails"] else 0
    pid = a[0]
    tier = a[1] if len(a) > 1 else os.environ.get("VERIF_TIER", "quick")
    return run_check(pid, tier)


if __name__ == "__main__":
    sys.exit(main())
