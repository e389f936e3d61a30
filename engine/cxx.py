"""Bridge between the engine and the C++ sources of /repo: the sources are re-read from the
   working tree on every run, their floating type replaced by the engine's symbolic scalar
   (token substitution, nothing else), compiled with a harness, and executed through ctypes."""
import ctypes, os, re, shutil, subprocess, sys, tempfile, math, atexit
from fractions import Fraction
from . import sym as S
from . import poly as P
from .sym import R, ENG, PathAbort, Event, Unsupported, Inconclusive

REPO = os.environ.get("VERIF_REPO", "/repo")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CXXDIR = os.path.join(HERE, "cxx")

TOK = re.compile(r'''
   (?P<comment>//[^\n]*|/\*.*?\*/)
 | (?P<include>^[ \t]*\#[ \t]*include[^\n]*)
 | (?P<str>"(?:\\.|[^"\\\n])*")
 | (?P<chr>'(?:\\.|[^'\\\n])+')
 | (?P<num>(?:0[xX][0-9a-fA-F]+[uUlL]*|(?:\d+\.\d*|\.\d+|\d+)(?:[eE][+-]?\d+)?[fFlLuU]*))
 | (?P<id>[A-Za-z_]\w*)
 | (?P<ws>\s+)
 | (?P<other>.)
''', re.X | re.S | re.M)


def transform(text):
    """double/float -> SymReal, floating literals -> SymReal(literal)"""
    out = []
    toks = [(m.lastgroup, m.group()) for m in TOK.finditer(text)]
    i = 0
    while i < len(toks):
        k, s = toks[i]
        if k == "id" and s in ("double", "float"):
            s = "SymReal"
        elif k == "id" and s == "long":
            j = i + 1
            while j < len(toks) and toks[j][0] in ("ws", "comment"):
                j += 1
            if j < len(toks) and toks[j][1] == "double":
                s = "SymReal"
                i = j
        elif k == "num" and not s.lower().startswith("0x") and (("." in s) or re.search(r"[eE]", s)):
            s = "SymReal(%s)" % s.rstrip("fFlL")
        out.append(s)
        i += 1
    return "".join(out)


SRC_DIRS = ("core", "nblist", "descriptor")


def copy_transformed(dst, only=None):
    for d in SRC_DIRS:
        for root, dirs, files in os.walk(os.path.join(REPO, "source", d)):
            dirs[:] = [x for x in dirs if x not in ("build", "gen", "test", "tests")]
            rel = os.path.relpath(root, os.path.join(REPO, "source"))
            for f in files:
                if f.endswith((".h", ".hpp", ".cc", ".cpp", ".cuh")):
                    os.makedirs(os.path.join(dst, rel), exist_ok=True)
                    with open(os.path.join(root, f), encoding="utf-8", errors="replace") as fh:
                        t = fh.read()
                    with open(os.path.join(dst, rel, f), "w", encoding="utf-8") as fh:
                        fh.write(transform(t))


WRAPS = ["malloc", "calloc", "realloc", "free", "_Znam", "_ZdaPv", "_ZdaPvm", "__assert_fail", "exit", "abort"]


class BuildError(Exception):
    pass


class Build:
    """one harness, compiled symbolically and (lazily) concretely"""

    def __init__(self, harness, defines=()):
        self.harness = harness
        self.defines = list(defines)
        self.dir = tempfile.mkdtemp(prefix="verif_cxx_")
        atexit.register(self.cleanup)
        self.owner = os.getpid()
        self.src = None

    def cleanup(self):
        if os.getpid() == self.owner:
            shutil.rmtree(self.dir, ignore_errors=True)

    def compile(self, sym):
        so = os.path.join(self.dir, "sym.so" if sym else "real.so")
        if os.path.exists(so):
            return so
        if sym:
            inc = os.path.join(self.dir, "src")
            if not os.path.isdir(inc):
                copy_transformed(inc)
        else:
            inc = os.path.join(REPO, "source")
        cmd = ["g++", "-std=c++17", "-O0", "-fPIC", "-shared", "-w", "-fno-unreachable-traps",
               "-DSYM=%d" % (1 if sym else 0), "-I" + CXXDIR, "-I" + os.path.join(CXXDIR, "fake"), "-I" + inc] + ["-D" + d for d in self.defines]
        cmd += [os.path.join(CXXDIR, h) for h in self.harness.split("+")] + ["-o", so]
        cmd += ["-Wl," + ",".join("--wrap=" + w for w in WRAPS)]
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode and sym:
            # C++ that converts silently from double to int, which the strict scalar refuses
            r2 = subprocess.run(cmd + ["-DSYM_IMPLICIT"], capture_output=True, text=True)
            if not r2.returncode:
                r = r2
        if r.returncode:
            raise BuildError("compile failed (%s):\n%s" % ("symbolic" if sym else "replay", r.stderr[:4000]))
        return so


class SymRealC(ctypes.Structure):
    _fields_ = [("num", ctypes.c_int64), ("den", ctypes.c_int32), ("id", ctypes.c_int32)]


SP = ctypes.POINTER(SymRealC)
I = ctypes.c_int
D = ctypes.c_double
CP = ctypes.c_char_p
PI = ctypes.POINTER(ctypes.c_int)
PL = ctypes.POINTER(ctypes.c_int64)
PD = ctypes.POINTER(D)
CBT = [("op", ctypes.CFUNCTYPE(I, I, SP, SP, SP)),
       ("cmp", ctypes.CFUNCTYPE(I, I, SP, SP)),
       ("toint", ctypes.CFUNCTYPE(I, I, SP, PL)),
       ("fromd", ctypes.CFUNCTYPE(I, D, SP)),
       ("real", ctypes.CFUNCTYPE(I, CP, D, D, SP, PD)),
       ("choose", ctypes.CFUNCTYPE(I, CP, I, I, PI)),
       ("check", ctypes.CFUNCTYPE(I, I, SP, SP, CP)),
       ("checkd", ctypes.CFUNCTYPE(I, I, D, D, CP)),
       ("checkb", ctypes.CFUNCTYPE(I, I, CP)),
       ("assume", ctypes.CFUNCTYPE(I, I, SP, SP)),
       ("assumed", ctypes.CFUNCTYPE(I, I)),
       ("deriv", ctypes.CFUNCTYPE(I, SP, D, CP, SP, D, CP)),
       ("param", ctypes.CFUNCTYPE(I, CP, SP, PD, PI)),
       ("reach", ctypes.CFUNCTYPE(I, CP)),
       ("event", ctypes.CFUNCTYPE(I, CP)),
       ("cont", ctypes.CFUNCTYPE(I, SP, D, CP, CP, I)),
       ("table", ctypes.CFUNCTYPE(I, CP, PI, I))]
TABLES = {}          # name -> decision procedure of a check module for a table of integers the code produced


class Callbacks(ctypes.Structure):
    _fields_ = CBT


RELS = ["lt", "le", "eq", "ne", "gt", "ge"]


def rel_formula(rel, a, b):
    d = P.p_add(a.p, b.p, -1)
    if rel in ("gt", "ge"):
        d = P.p_scale(d, -P.ONE)
        rel = {"gt": "lt", "ge": "le"}[rel]
    return S.f_rel(rel, d)


class Bridge:
    """callbacks for one loaded library"""

    def __init__(self, so, env):
        self.env = env
        self.lib = ctypes.CDLL(so)
        self.lib.h_run.argtypes = [CP]
        self.lib.h_event.restype = CP
        self.table = [None]
        self.err = None
        fns = []
        for name, t in CBT:
            fns.append(t(self.guard(getattr(self, "cb_" + name), 2 if name == "cmp" else 1)))
        self.keep = fns
        self.cbs = Callbacks(*fns)
        self.lib.h_setup(ctypes.byref(self.cbs))

    def guard(self, fn, bad):
        def g(*a):
            try:
                return fn(*a) or 0
            except BaseException as e:                      # noqa: transported to run()
                self.err = e
                return bad
        return g

    def run(self, case):
        self.table = [None]
        self.err = None
        self.tcache = {}
        rc = self.lib.h_run(case.encode())
        if rc == 9:
            raise KeyError("no harness case " + case)
        if self.err is not None:
            e, self.err = self.err, None
            raise e
        if rc == 2:
            raise Event(self.lib.h_event().decode(errors="replace"))
        if rc == 1:
            raise PathAbort()

    # ---- conversions
    def get(self, sp):
        s = sp.contents
        i = s.id
        if i == 0:
            if s.den < 0:
                raise Event("read of uninitialised or foreign memory")
            return R({(): Fraction(s.num, s.den or 1)} if s.num else {})
        if i < 0 or i >= len(self.table):
            raise Event("read of uninitialised or foreign memory")
        return self.table[i]

    def put(self, out, r):
        o = out.contents
        if r.is_const():
            c = r.cval()
            if -2 ** 62 < c.numerator < 2 ** 62 and c.denominator < 2 ** 31:
                o.num, o.den, o.id = c.numerator, c.denominator, 0
                return
        self.table.append(r)
        o.num, o.den, o.id = 0, 0, len(self.table) - 1

    # ---- callbacks
    def cb_op(self, k, a, b, out):
        x = self.get(a)
        if k <= 3 or k == 5:
            y = self.get(b)
        if k == 0: r = x + y
        elif k == 1: r = x - y
        elif k == 2: r = x * y
        elif k == 3: r = x / y
        elif k == 4: r = x.sqrt()
        elif k == 5: r = x ** y
        elif k == 8: r = x.cos()
        elif k == 9: r = x.sin()
        elif k == 10: r = x.exp()
        elif k == 11: r = x.log()
        elif k == 12: r = x.tanh()
        elif k == 13: r = x.arccos()
        elif k == 14: r = x.arcsin()
        else:
            raise Unsupported("op %d" % k)
        self.put(out, r)

    def cb_cmp(self, k, a, b):
        return 1 if ENG.decide(rel_formula(RELS[k], self.get(a), self.get(b))) else 0

    def cb_toint(self, k, a, out):
        x = self.get(a)
        if k == 0: v = x.floor()
        elif k == 1: v = x.ceil()
        elif k == 2: v = x.trunc()
        elif k == 3: v = (x + Fraction(1, 2)).floor() if x >= 0 else -((Fraction(1, 2) - x).floor())
        else: v = x.rint()
        out[0] = v

    def cb_fromd(self, x, out):
        try:
            self.put(out, R.const(x))
        except P.NonFinite:
            raise Event("non-finite constant")

    def cb_real(self, name, lo, hi, out, dout):
        v = self.env.real(name.decode(), lo, hi)
        if self.env.concrete:
            dout[0] = v
        else:
            self.put(out, v)

    def cb_choose(self, name, lo, hi, out):
        out[0] = self.env.choose(name.decode(), lo, hi)

    def cb_check(self, rel, a, b, label):
        if RELS[rel] == "eq":
            ENG.check_eq(self.get(a), self.get(b), label.decode())
        else:
            self.env.check(S.mkbool(rel_formula(RELS[rel], self.get(a), self.get(b))), label.decode())

    def cb_checkd(self, rel, a, b, label):
        if RELS[rel] == "eq":
            self.env.check_eq(a, b, label.decode())
        elif RELS[rel] == "ne":
            self.env.check(a != b, label.decode(), (a, b))
        else:
            tol = 1e-9 * max(1.0, abs(a), abs(b))
            ok = a <= b + tol if RELS[rel] == "le" else a < b
            self.env.check(ok and a == a and b == b, label.decode(), (a, b))

    def cb_checkb(self, ok, label):
        self.env.check(bool(ok), label.decode())

    def cb_assume(self, rel, a, b):
        self.env.assume(S.mkbool(rel_formula(RELS[rel], self.get(a), self.get(b))))

    def cb_assumed(self, ok):
        self.env.assume(bool(ok))

    def cb_deriv(self, v, dv, var, d, dd, label):
        if self.env.concrete:
            self.env.deriv(dv, var.decode(), dd, label.decode())
        else:
            self.env.deriv(self.get(v), var.decode(), self.get(d), label.decode())

    def cb_param(self, name, out, dout, isset):
        p = self.env.params.get(name.decode())
        if p is None:
            raise KeyError("harness parameter %s missing" % name.decode())
        isset[0] = 1
        dout[0] = float(p)
        if not self.env.concrete:
            self.put(out, R.const(p))

    def cb_reach(self, label):
        self.env.reach(label.decode())

    def cb_event(self, what):
        raise Event(what.decode())

    def cb_table(self, name, data, n):
        TABLES[name.decode()](self.env, [data[i] for i in range(n)])

    def cb_cont(self, *a):
        raise Unsupported("cont")
