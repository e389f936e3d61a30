"""completeness, soundness and uniqueness of the list of moment-tensor combinations"""
import time
import z3
from engine import cxx
from engine.sym import ENG
from engine.runner import Case
H = "level.cc"
F = ["source/descriptor/mtp/src/mtpLevel.cc: MtpMCoeffPairCombs::_build, get_all_schemes4lev, get_contracted_combs, nmus, MtpMCoeffPair"]
ASSUMPTIONS = ["a combination counts as contractible when the largest tensor is used up by all others, or when every order appears an even number of times "
               "(the two rules the code documents)"]


def parse(v, k):
    out = []
    while k < len(v):
        n = v[k]
        out.append([(v[k + 1 + 2 * i], v[k + 2 + 2 * i]) for i in range(n)])
        k += 1 + 2 * n
    return out


def decide(env, L, exact, contract, combos, label):
    """the solver looks for a multiset of moments on which the list and the definition differ"""
    kinds = [(m, n) for m in range(L // 4 + 1) for n in range(L + 1) if 2 + 4 * m + n <= L]
    env.check(all(p in kinds for c in combos for p in c), label + ": only moments within the level")
    cnt = {p: z3.Int("count_%d_%d" % p) for p in kinds}
    s = z3.Solver()
    s.set("timeout", 240000)
    for p in kinds:
        s.add(cnt[p] >= 0, cnt[p] <= L // (2 + 4 * p[0] + p[1]))
    tot = z3.Sum([cnt[p] * (2 + 4 * p[0] + p[1]) for p in kinds]) if kinds else z3.IntVal(0)
    spec = [tot == L if exact else z3.And(tot <= L, tot > 0)]
    if exact and L == 0:
        spec = [z3.BoolVal(True)]
    if contract:
        spec.append(tot > 0)
        sumnu = z3.Sum([cnt[p] * p[1] for p in kinds]) if kinds else z3.IntVal(0)
        top = []
        for v in range(L + 1):
            has = [cnt[p] > 0 for p in kinds if p[1] == v]
            if has:
                top.append(z3.And(z3.Or(has), z3.And([cnt[p] == 0 for p in kinds if p[1] > v]), sumnu == 2 * v))
        even = z3.And([z3.Sum([cnt[p] for p in kinds if p[1] == v]) % 2 == 0 for v in range(1, L + 1) if any(p[1] == v for p in kinds)])
        spec.append(z3.Or(z3.Or(top), even))
    spec = z3.And(spec)
    # which list positions hold the multiset
    keys = {}
    for c in combos:
        k = tuple(sorted((p, c.count(p)) for p in set(c)))
        keys[k] = keys.get(k, 0) + 1

    def same(k):
        d = dict(k)
        return z3.And([cnt[p] == d.get(p, 0) for p in kinds]) if kinds else z3.BoolVal(True)

    def ask(f):
        s.push()
        s.add(f)
        t = time.time()
        r = s.check()
        ENG.stats.queries += 1
        ENG.stats.solver_s += time.time() - t
        m = s.model() if r == z3.sat else None
        s.pop()
        if r == z3.unknown:
            raise cxx.Inconclusive(label)
        return None if m is None else {p: m.eval(cnt[p], model_completion=True).as_long() for p in kinds if m.eval(cnt[p], model_completion=True).as_long()}
    env.check(ask(z3.And(spec, z3.Not(z3.Or([same(k) for k in keys])))) is None, label + ": no combination is missing")
    env.check(ask(z3.And(z3.Not(spec), z3.Or([same(k) for k in keys]))) is None, label + ": nothing else is listed")
    env.check(ask(z3.Or([same(k) for k, n in keys.items() if n > 1])) is None, label + ": no combination is listed twice")


def levels(env, v):
    L = v[0]
    combos = parse(v, 3)
    decide(env, L, False, True, combos, "basis")
    if L >= 2:
        mus = {p[0] for c in combos for p in c}
        env.check(v[1] == len(mus) == v[2] and mus == set(range(v[1])), "number of radial functions")


cxx.TABLES["levels"] = levels
cxx.TABLES["schemes"] = lambda env, v: decide(env, v[0], True, False, parse(v, 1), "schemes")
cxx.TABLES["contracted"] = lambda env, v: decide(env, v[0], True, True, parse(v, 1), "contracted")


def cases(tier):
    out = []
    spans = [(0, 8), (9, 12), (13, 15), (16, 16), (17, 18), (19, 20)] if tier == "quick" else [(0, 10), (11, 14), (15, 16), (17, 18), (19, 20)] + [(k, k) for k in range(21, 27)]
    for lo, hi in spans:
        out.append(Case("level_list_%d" % hi, entry="level_list", harness=H, params=dict(lo=lo, hi=hi), reach=["end"] + (["combination"] if hi > 1 else []), functions=F,
                        budget=800, bounds="maximal levels %d to %d; the multiset of moments is symbolic" % (lo, hi)))
    for lo, hi in ([(0, 9), (10, 14)] if tier == "quick" else [(0, 9), (10, 13), (14, 15), (16, 16), (17, 18), (19, 20)]):
        out.append(Case("level_schemes_%d" % hi, entry="level_schemes", harness=H, params=dict(lo=lo, hi=hi), reach=["end"], functions=F,
                        budget=800, bounds="levels %d to %d; the multiset of moments is symbolic" % (lo, hi)))
    return out
