"""Symbolic execution of the just-in-time front end (import/HyperHDG) of the current tree.

jit.py SCENARIO --repo R --out OUT.json [--tier T]      explore all paths of one scenario
jit.py SCENARIO --repo R --replay MODEL.json            run one history concretely (real file times)

The Python code under test is executed as it is, in a scratch copy of the repository with stand-ins for cython, compiler
and linker (tool.py). Which files are changed before which call of include is symbolic: os.stat delivers modification
times that are z3 terms, and every comparison of such terms that the code branches on is a fork decided by z3. The choice
of configurations, failing tools, new processes and include relations are symbolic integers, forked when they are used.
"""
import argparse, builtins, contextlib, importlib, importlib.machinery, io, json, os, re, shutil, stat, sys, tempfile, time
import z3

HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
real_stat, real_lstat, real_fstat = os.stat, os.lstat, os.fstat


class Stop(BaseException):
    pass


class PathEnd(BaseException):
    "the rest of the history is outside the scenario"


# ---------------------------------------------------------------- symbolic values
class SymBool:
    def __init__(self, ctx, e):
        self.ctx, self.e = ctx, e

    def __bool__(self):
        return self.ctx.fork(self.e)


class SymReal:
    def __init__(self, ctx, e):
        self.ctx, self.e = ctx, e

    def _o(self, o):
        if isinstance(o, SymReal):
            return o.e
        if isinstance(o, (int, float)):
            return z3.RealVal(repr(float(o)) if abs(float(o)) < 1e15 else int(o))
        return None

    def _c(self, o, f):
        e = self._o(o)
        return NotImplemented if e is None else SymBool(self.ctx, f(self.e, e))

    def __lt__(self, o): return self._c(o, lambda a, b: a < b)
    def __le__(self, o): return self._c(o, lambda a, b: a <= b)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b)
    def __eq__(self, o): return self._c(o, lambda a, b: a == b)
    def __ne__(self, o): return self._c(o, lambda a, b: a != b)

    def _a(self, o, f):
        e = self._o(o)
        return NotImplemented if e is None else SymReal(self.ctx, f(self.e, e))

    def __add__(self, o): return self._a(o, lambda a, b: a + b)
    def __radd__(self, o): return self._a(o, lambda a, b: b + a)
    def __sub__(self, o): return self._a(o, lambda a, b: a - b)
    def __rsub__(self, o): return self._a(o, lambda a, b: b - a)
    def __mul__(self, o): return self._a(o, lambda a, b: a * b)
    def __rmul__(self, o): return self._a(o, lambda a, b: b * a)
    def __truediv__(self, o): return self._a(o, lambda a, b: a / b)
    def __neg__(self): return SymReal(self.ctx, -self.e)
    def __bool__(self): return self.ctx.fork(self.e != 0)
    def __float__(self): return float(self.ctx.concrete(self.e))
    def __int__(self): return int(float(self))
    def __round__(self, n=None): return round(float(self), n) if n else int(round(float(self)))
    def __hash__(self): return hash(float(self))
    def __repr__(self): return repr(float(self))
    def __format__(self, s): return format(float(self), s)


class StatProxy:
    def __init__(self, st, m, ctx):
        self._st, self._m, self._ctx = st, m, ctx

    def __getattr__(self, n):
        if n in ("st_mtime", "st_ctime"):
            return self._m
        if n in ("st_mtime_ns", "st_ctime_ns"):
            return self._m * 1000000000
        return getattr(self._st, n)

    def __getitem__(self, i):
        return self._m if i in (8, 9, stat.ST_MTIME) else self._st[i]


# ---------------------------------------------------------------- scratch repository
def w(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)


LICENSE = "// synthetic header\n#pragma once\n\n"


def cls(name, key="class", incs=(), pre=""):
    return (LICENSE + "".join(f"#include <HyperHDG/{i}>\n" for i in incs) +
            f"\nnamespace N\n{{\n{pre}/*! {name} */\ntemplate <unsigned int n>\n{key} {name}\n{{\n public:\n  int f();\n}};  // end of {name}\n}}\n")


def synthetic(root):
    inc = root + "/include/HyperHDG/"
    w(inc + "topology/cubic.hxx", cls("Cubic", incs=["a.hxx"]))
    w(inc + "topology/file.hxx", cls("File", incs=["a.hxx"]))
    w(inc + "geometry/unit_cube.hxx", cls("UnitCube", incs=["mapping.hxx"]))
    w(inc + "geometry/file.hxx", cls("File", incs=["mapping.hxx"]))
    w(inc + "node_descriptor/cubic.hxx", cls("Cubic"))
    w(inc + "node_descriptor/file.hxx", cls("File"))
    w(inc + "local_solver/a_first.hxx", cls("DiffusionUniformX", pre="class Diffusion;\nclass Heat;\n"))
    w(inc + "local_solver/diffusion.hxx", cls("Diffusion", incs=["b.hxx"]))
    w(inc + "local_solver/diffusion_uniform.hxx", cls("DiffusionUniform", incs=["b.hxx"]))
    w(inc + "local_solver/z_heat.hxx", cls("Heat", key="struct", incs=["b.hxx"]))
    w(inc + "global_loop/prototype.hxx", LICENSE + "#include <HyperHDG/c.hxx>\n")
    for l in ("Elliptic", "Parabolic", "NonlinearEigenvalue", "ShiftedInverseEigenvalue", "MassApproxEigenvalue"):
        f = re.sub("(?<=[a-z])([A-Z])", r"_\1", l).lower()
        w(inc + f"global_loop/{f}.hxx", cls(l, incs=["global_loop/prototype.hxx", "topology/cubic.hxx"]))
    w(inc + "mapping.hxx", LICENSE)
    w(inc + "a.hxx", LICENSE + "#include <HyperHDG/b.hxx>\n#include <HyperHDG/c.hxx>\n")
    w(inc + "b.hxx", LICENSE + "#include <HyperHDG/c.hxx>\n")
    w(inc + "c.hxx", LICENSE + "#include <HyperHDG/d.hxx>\n#include <HyperHDG/a.hxx>\n")
    w(inc + "d.hxx", LICENSE)
    w(inc + "e.hxx", LICENSE + "#include <HyperHDG/f.hxx>\n")
    w(inc + "f.hxx", LICENSE)
    w(inc + "unrelated.hxx", LICENSE)
    w(root + "/parameters/mine.hxx", LICENSE + "#include <HyperHDG/e.hxx>\nstruct Mine {};\n")
    w(root + "/parameters/other.hxx", LICENSE + "struct Mine {};\n")


class Ctx:
    """One history. symbolic=True: times and choices are symbolic; otherwise they come from a model."""

    def __init__(self, repo, top, symbolic, model=None):
        self.repo, self.top, self.symbolic, self.model = repo, top, symbolic, model
        self.root = os.path.realpath(top) + "/hyper++hdg"
        self.template = os.path.realpath(top) + "/template"
        self.solver = z3.Solver()
        self.stats = dict(queries=0, sat=0, unsat=0, unknown=0, solver_s=0.0, forks=0, asserts=0, assert_queries=0,
                          folded=0)
        self.hits, self.functions, self.busy = {}, set(), False
        self.modules0, self.path0 = set(sys.modules), list(sys.path)

    # ------------------------------------------------ solver
    def query(self, *es):
        t = time.time()
        r = self.solver.check(*es)
        self.stats["solver_s"] += time.time() - t
        self.stats["queries"] += 1
        self.stats[str(r)] += 1
        if r == z3.unknown:
            raise Stop("the solver gave no answer")
        return r == z3.sat

    def fork(self, e):
        e = z3.simplify(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        t, f = self.query(e), self.query(z3.Not(e))
        if t and f:
            i = len(self.taken)
            b = self.prefix[i] if i < len(self.prefix) else True
            self.taken.append(b)
            self.stats["forks"] += 1
        else:
            b = t
        self.solver.add(e if b else z3.Not(e))
        return b

    def concrete(self, e):
        while True:
            s = z3.simplify(e)
            if z3.is_rational_value(s) or z3.is_int_value(s):
                return s.as_fraction() if z3.is_rational_value(s) else s.as_long()
            self.query()
            v = self.solver.model().eval(e, model_completion=True)
            if self.fork(e == v):
                return v.as_fraction() if z3.is_rational_value(v) else v.as_long()

    def choose(self, name, n):
        "a symbolic integer in [0, n), made concrete by forking"
        name = f"{name}@{self.step}"
        if not self.symbolic:
            return self.model["choices"].get(name, 0)
        v = z3.Int(name)
        self.solver.add(v >= 0, v < n)
        self.choices[name] = v
        for i in range(n - 1):
            if self.fork(v == i):
                return i
        return n - 1

    # ------------------------------------------------ time
    def c(self, f, s):
        return z3.Bool(f"changed:{os.path.relpath(f, self.root)}@{s}")

    def last_change(self, f, step=None):
        "step of the last change of f (term or number)"
        step = self.step if step is None else step
        if not self.symbolic:
            return max([s for s in range(1, step + 1) if [os.path.relpath(f, self.root), s] in self.model["changes"]] + [0])
        e = z3.IntVal(0)
        if f in self.tracked:
            for s in self.steps_of(f):
                if s <= step:
                    e = z3.If(self.c(f, s), z3.IntVal(s), e)
        return e

    def steps_of(self, f):
        return [s for s in range(1, self.step + 1) if s in self.change_steps]

    def stat(self, path, *a, **k):
        return self.proxy(real_stat(path, *a, **k), path)

    def lstat(self, path, *a, **k):
        return self.proxy(real_lstat(path, *a, **k), path)

    def fstat(self, fd):
        return self.proxy(real_fstat(fd), fd)

    def proxy(self, st, path):
        if not self.active or self.busy or not stat.S_ISREG(st.st_mode):
            return st
        self.busy = True  # realpath calls lstat
        try:
            p = os.path.realpath(f"/proc/self/fd/{path}" if isinstance(path, int) else os.fspath(path))
        finally:
            self.busy = False
        if not p.startswith(self.root + "/"):
            return st
        if p in self.tracked:
            return StatProxy(st, SymReal(self, z3.ToReal(self.last_change(p))), self)
        if p.startswith(self.root + "/build") and p != self.root + "/build/cmake_cython.cfg":
            s = max([i for i, t in enumerate(self.starts) if t <= st.st_mtime], default=0)
            v = s + 0.1 + min(0.8, (st.st_mtime - self.starts[s]) / 1000)
            return StatProxy(st, SymReal(self, z3.RealVal(repr(v))), self)
        return StatProxy(st, SymReal(self, z3.RealVal(0)), self)

    # ------------------------------------------------ history
    def begin(self, prefix):
        self.prefix, self.taken, self.choices = prefix, [], {}
        self.solver.reset()
        self.tracked, self.change_steps = set(), set()
        self.step, self.active, self.starts, self.trace = 0, False, [], []
        shutil.rmtree(self.root, ignore_errors=True)
        shutil.copytree(self.template, self.root)
        self.log = self.root + "/tool.log"
        open(self.log, "w").close()
        self.new_process()
        self.fail(None)
        self._start()

    def prepare(self, make=synthetic):
        t = self.template
        shutil.rmtree(t, ignore_errors=True)
        for d in ("import", "cython"):
            shutil.copytree(self.repo + "/" + d, t + "/" + d,
                            ignore=shutil.ignore_patterns("__pycache__"))
        make(t)
        w(t + "/py/Python.h", "\n")
        w(t + "/submodules/fiber_network.git/fiber_network.py", "\n")
        tool = f"{sys.executable} -I -S {HERE}/tool.py"
        r = self.root
        w(t + "/build/cmake_cython.cfg",
          f"[compiler]\ncommand = {tool} cxx\nincludes = -I{r}/py -I{r} -I{r}/include\nflags = -fPIC -shared\nstandard = 20\n"
          f"[linker]\ncommand = {tool} ld\nflags = -shared\nlibs = -llapack\n"
          f"[cython]\ncommand = {tool} cython\nflags = -3 --cplus\n"
          f"[python]\nver_maj = {sys.version_info.major}\nver_min = {sys.version_info.minor}\ndir = {r}/py\n")

    def _start(self):
        time.sleep(0.012)
        self.starts.append(time.time())
        time.sleep(0.012)

    def new_process(self):
        for m in set(sys.modules) - self.modules0:
            if m.split(".")[0] == "HyperHDG" or m.startswith("mod") or m == "fiber_network":
                del sys.modules[m]
        sys.path[:] = self.path0 + [self.root + "/import"]
        importlib.invalidate_caches()

    def next_step(self, files=()):
        "files may be changed now"
        self.step += 1
        self.change_steps.add(self.step)
        self.tracked |= set(files)
        os.environ["VF_STEP"] = str(self.step)
        self._start()
        if not self.symbolic:
            for f, s in self.model["changes"]:
                if s == self.step:
                    os.utime(os.path.join(self.root, f))
            time.sleep(0.012)

    def fail(self, tool):
        os.environ["VF_STEP"] = str(self.step)
        os.environ["VF_LOG"] = self.log
        if tool:
            os.environ["VF_FAIL"] = tool
        else:
            os.environ.pop("VF_FAIL", None)

    def hyperhdg(self):
        return importlib.import_module("HyperHDG")

    def calls(self):
        with open(self.log) as f:
            return [json.loads(l) for l in f]

    def include(self, fill):
        "returns (record of the class or None, exception, tools called)"
        n = len(self.calls())
        self.active = self.symbolic
        old = os.stat, os.lstat, os.fstat
        cwd = os.getcwd()
        out = io.StringIO()
        rec = exc = None
        try:
            if self.symbolic:
                os.stat, os.lstat, os.fstat = self.stat, self.lstat, self.fstat
            with contextlib.redirect_stdout(out):
                H = self.hyperhdg()
                conf = fill(H.config())
                cl = H.include(conf)
                rec = json.loads(cl.record)
        except Exception as x:
            exc = x
        finally:
            os.stat, os.lstat, os.fstat = old
            os.chdir(cwd)
            self.active = False
        calls = self.calls()[n:]
        self.trace.append([self.step, [c[1] for c in calls], None if exc is None else repr(exc)[:200]])
        return rec, exc, calls

    # ------------------------------------------------ assertions
    def check(self, cond, msg):
        self.stats["asserts"] += 1
        self.hits[msg] = self.hits.get(msg, 0) + 1
        if not self.symbolic:
            if not cond:
                raise Violation(msg)
            return
        if isinstance(cond, bool) or not z3.is_expr(cond):
            cond = z3.BoolVal(bool(cond))
        n = z3.simplify(z3.Not(cond))
        if z3.is_false(n):
            self.stats["folded"] += 1
            return
        self.stats["assert_queries"] += 1
        if self.query(n):
            m = self.solver.model()
            raise Violation(msg, self.model_of(m))

    def model_of(self, m):
        ev = lambda e: m.eval(e, model_completion=True)
        return dict(choices={k: ev(v).as_long() for k, v in self.choices.items()},
                    changes=[[os.path.relpath(f, self.root), s] for f in sorted(self.tracked)
                             for s in sorted(self.change_steps) if z3.is_true(ev(self.c(f, s)))])

    def deps(self, rec):
        loop = os.path.basename(next(a for a in rec["loop"]))
        d = [p for p in rec["files"] if not p.startswith(self.root + "/build/")]
        d += [self.root + f"/cython/{loop}.{e}" for e in ("pyx", "pxd", "cfg")]
        d += [self.root + "/py/Python.h", self.root + "/build/cmake_cython.cfg"]
        d += self.frontend()
        return d

    def frontend(self):
        d = self.root + "/import/HyperHDG/import_cxx"
        return sorted(os.path.realpath(d + "/" + f) for f in os.listdir(d) if f.endswith(".py"))


class Violation(Exception):
    def __init__(self, msg, model=None):
        Exception.__init__(self, msg)
        self.msg, self.model = msg, model


# ---------------------------------------------------------------- loading "shared objects" (text written by tool.py)
def patch_loader():
    L = importlib.machinery.ExtensionFileLoader
    c0, e0 = L.create_module, L.exec_module

    def text(path):
        with open(path, "rb") as f:
            b = f.read()
        return None if b.startswith(b"\x7fELF") else b.decode()

    def create_module(self, spec):
        return c0(self, spec) if text(spec.origin) is None else None

    def exec_module(self, module):
        t = text(self.path)
        e0(self, module) if t is None else exec(t, module.__dict__)
    L.create_module, L.exec_module = create_module, exec_module


# ---------------------------------------------------------------- what the property demands of one include
BASE = dict(global_loop="Elliptic", local_solver="Diffusion< 1 >", topology="Cubic< 1 >", geometry="UnitCube< 1 >",
            node_descriptor="Cubic< 1 >", cython_replacements=["vector[unsigned int]", "vector[unsigned int]"])


def filler(**kw):
    d = {**BASE, **kw}

    def fill(conf):
        for k, v in d.items():
            setattr(conf, k, list(v) if isinstance(v, list) else v)
        return conf
    fill.d = d
    return fill


HEADERS = dict(Cubic="cubic", File="file", UnitCube="unit_cube", Diffusion="diffusion", DiffusionUniform="diffusion_uniform",
               DiffusionUniformX="a_first", Heat="z_heat", Elliptic="elliptic", Parabolic="parabolic",
               NonlinearEigenvalue="nonlinear_eigenvalue", ShiftedInverseEigenvalue="shifted_inverse_eigenvalue",
               MassApproxEigenvalue="mass_approx_eigenvalue")


def base(name):
    return re.match(r"\w+", name).group(0)


def squeeze(s):
    return re.sub(r"\s+", "", s)


def contents(ctx, rec, d, header=None):
    "the module is the one that the configuration describes"
    loop = re.sub("(?<=[a-z])([A-Z])", r"_\1", d["global_loop"]).lower()
    rec["loop"] = [loop]
    import configparser
    cfg = configparser.ConfigParser()
    cfg.read(ctx.root + f"/cython/{loop}.cfg")
    rep = list(d.get("cython_replacements", []))
    n = int(cfg["default"]["n_replacements"])
    for i in range(n):
        if i >= len(rep):
            rep.append("")
        if rep[i] == "":
            rep[i] = cfg["default"]["replacement%02d" % (i + 1)]
    own = d.get("cpp_code", "")
    names = {}
    for end in ("pyx", "pxd"):
        with open(ctx.root + f"/cython/{loop}.{end}") as f:
            t = f.read()
        rx = ""
        seen = set()
        for piece in re.split(r"(C\+\+ClassName|CythonClassName|PythonClassName|IncludeFiles|CyReplace\d\d)", t):
            m = re.fullmatch(r"CyReplace(\d\d)", piece)
            key = {"C++ClassName": "cpp", "CythonClassName": "cy", "PythonClassName": "py", "IncludeFiles": "inc"}.get(piece)
            if m:
                rx += re.escape(rep[int(m.group(1)) - 1])
            elif key and key in seen:
                rx += f"(?P={key})"
            elif key:
                seen.add(key)
                rx += f"(?P<{key}>" + (r"\w+" if key in ("cy", "py") else r'"[^"]*"' if key == "cpp" else ".*?") + ")"
            else:
                rx += re.escape(piece)
        m = re.fullmatch(rx, rec[end], re.S)
        ctx.check(bool(m), f"the generated .{end} is the template with the replacements of the configuration")
        for k, v in m.groupdict().items():
            ctx.check(names.setdefault(k, v) == v, "the generated files use the same names")
    cpp = (f'"GlobalLoop::{d["global_loop"]}<Topology::{d["topology"]},Geometry::{d["geometry"]},'
           f'NodeDescriptor::{d["node_descriptor"]},LocalSolver::{d["local_solver"]}>"')
    ctx.check(squeeze(names["cpp"]) == squeeze(cpp), "the module wraps the C++ class of the configuration")
    ctx.check(("-DNDEBUG" in rec["cxx_args"]) == (not d.get("debug_mode", False)),
              "assertions are active exactly in debug mode")
    inc = re.findall(r'cdef extern from "<([^>]*)>"', names["inc"])
    head = header or (lambda folder, name: f"HyperHDG/{folder}/{HEADERS[name]}.hxx")
    need = [head(k, base(d[k])) for k in ("topology", "geometry", "node_descriptor", "local_solver", "global_loop")]
    need += d.get("include_files", [])
    rec["includes"] = sorted(i for i in inc if not i.startswith("/"))
    for i in need:
        ctx.check(i in inc, "every component and every file of the configuration is included")
    files = {os.path.relpath(p, ctx.root): t for p, t in rec["files"].items()}
    for i in need:
        ctx.check("include/" + i in files or i in files, "the headers of the components reach the compiler")
    ctx.check(all(i in need or i.startswith("/") for i in inc), "no file that the configuration does not name is included")
    if own:
        ctx.check(own in rec["files"].values(), "the own code of the configuration reaches the compiler")
    ctx.check(all("own code" not in t or t == own for t in rec["files"].values()), "no other own code reaches the compiler")
    return rec


def fresh(ctx, rec, msg="the loaded module is not older than any file it is made of"):
    for p in ctx.deps(rec):
        l = ctx.last_change(p)
        ctx.check(l <= rec["step"], msg)


def tools_ok(ctx, calls):
    ctx.check([c[1] for c in calls] in ([], ["cython", "cxx", "ld"]), "modules are made by cython, compiler and linker")


def good(ctx, fill, why=None, header=None):
    "include succeeds and returns what was asked for; why: whether compiling is allowed (None: judged by times)"
    rec, exc, calls = ctx.include(fill)
    ctx.check(exc is None, "include succeeds if the tools do" if exc is None else f"include succeeds if the tools do")
    contents(ctx, rec, fill.d, header)
    fresh(ctx, rec)
    tools_ok(ctx, calls)
    return rec, calls


def not_needless(ctx, fill, rec, calls, last, what="nothing is compiled if nothing has changed"):
    "last: record of the previous build of the same problem"
    if calls and last is not None:
        changed = [ctx.last_change(p) > last["step"] for p in ctx.deps({**last, "loop": rec["loop"]})]
        ctx.check(z3.Or(*changed) if ctx.symbolic else any(changed), what)


def h(ctx, *names):
    return [os.path.realpath(ctx.root + "/include/HyperHDG/" + n) for n in names]


def all_files(ctx):
    r = ctx.root
    out = []
    for d in ("include", "cython", "parameters", "py"):
        for b, _, fs in os.walk(r + "/" + d):
            out += [os.path.realpath(b + "/" + f) for f in fs]
    return out + ctx.frontend() + [r + "/build/cmake_cython.cfg"]


# ---------------------------------------------------------------- scenarios
SC = {}
HEAVY = dict(tree_a=8, failures=7, tree_b=6, relation=6, pairs_a=5, pairs_b=5, triples_quick=4, histories=3, failures_own=3)


def scenario(name, tier="quick", opt=False, bounds="", make=synthetic):
    def deco(f):
        SC[name] = dict(f=f, tier=tier, opt=opt, bounds=bounds, make=make)
        return f
    return deco


@scenario("times", bounds="one build, then any subset of all files changed, include in a new process, twice in one process")
def s_times(ctx):
    fill = filler(include_files=["parameters/mine.hxx"])
    r0, _ = good(ctx, fill)
    ctx.next_step(all_files(ctx))
    ctx.new_process()
    r1, calls = good(ctx, fill)
    not_needless(ctx, fill, r1, calls, r0)
    r2, calls = good(ctx, fill)
    ctx.check(not calls, "nothing is compiled if nothing has changed")


@scenario("times_own", bounds="own code that includes headers; one build, then any subset of all files changed, new process")
def s_times_own(ctx):
    fill = filler(cpp_code="#include <HyperHDG/e.hxx>\n// own code\n", include_files=["parameters/other.hxx"])
    r0, _ = good(ctx, fill)
    ctx.next_step(all_files(ctx))
    ctx.new_process()
    r1, calls = good(ctx, fill)
    not_needless(ctx, fill, r1, calls, r0)


@scenario("histories", bounds="one build, then two (three) rounds of changes of any subset of 7 files, new process each")
def s_histories(ctx, rounds=2):
    fill = filler(debug_mode=True)
    last, _ = good(ctx, fill)
    for i in range(rounds):
        ctx.next_step(h(ctx, "d.hxx", "local_solver/diffusion.hxx", "global_loop/prototype.hxx", "unrelated.hxx") +
                      [ctx.root + "/cython/elliptic.pxd", ctx.root + "/build/cmake_cython.cfg", ctx.root + "/py/Python.h"])
        ctx.new_process()
        rec, calls = good(ctx, fill)
        not_needless(ctx, fill, rec, calls, last)
        last = rec


@scenario("histories3", tier="thorough", bounds="as histories with three rounds")
def s_histories3(ctx):
    s_histories(ctx, 3)


def failing(ctx, confs, rounds, files, tools=(None, "cython", "cxx", "ld")):
    for i in range(rounds):
        if i:
            ctx.next_step(files)
            ctx.new_process()
        fill = confs[ctx.choose("conf", len(confs))] if len(confs) > 1 else confs[0]
        f = ctx.choose("fail", len(tools))
        ctx.fail(tools[f])
        rec, exc, calls = ctx.include(fill)
        if exc is not None:
            ctx.check(f != 0, "include succeeds if the tools do")
        if f == 0 or rec is not None:
            ctx.check(rec is not None, "include succeeds if the tools do")
            contents(ctx, rec, fill.d)
            fresh(ctx, rec)
        else:
            ctx.check(any(c[1] == tools[f] for c in calls), "include fails only if a tool does")
        ctx.fail(None)


@scenario("failures", bounds="three calls in new processes, at each any tool fails or none, any subset of 3 files changed between")
def s_failures(ctx):
    failing(ctx, [filler()], 3, h(ctx, "d.hxx", "topology/cubic.hxx", "unrelated.hxx"))


OWN = [filler(cpp_code="// own code 1\n"), filler(cpp_code="// own code 2\n")]


@scenario("failures_own", bounds="three calls with either of two own codes, at each the compiler fails or not")
def s_failures_own(ctx):
    failing(ctx, OWN, 3, [], (None, "cxx"))


@scenario("failures_own4", tier="thorough", bounds="three calls with either of two own codes, at each any tool fails or none")
def s_failures_own4(ctx):
    failing(ctx, OWN, 3, [])


@scenario("failures_O", opt=True, bounds="as failures, interpreter with -O, two calls")
def s_failures_O(ctx):
    failing(ctx, [filler()], 2, h(ctx, "d.hxx", "unrelated.hxx"))


@scenario("failures_long", tier="thorough", bounds="four calls, any tool fails or none, changes of 2 files")
def s_failures_long(ctx):
    failing(ctx, [filler()], 4, h(ctx, "d.hxx", "topology/cubic.hxx"))


def variants():
    return [filler(),
            filler(debug_mode=True),
            filler(cpp_code="// own code 1\n"),
            filler(cpp_code="// own code 2\n"),
            filler(cython_replacements=["vector[unsigned int]", "vector[unsigned int]", "float"]),
            filler(cython_replacements=["string", "string", "", "float"]),
            filler(include_files=["parameters/mine.hxx"]),
            filler(include_files=["parameters/other.hxx"]),
            filler(local_solver="DiffusionUniform< 1 >"),
            filler(global_loop="Parabolic", local_solver="DiffusionUniform< 12 >"),
            filler(global_loop="Parabolic", local_solver="DiffusionUniform< 1, 2 >"),
            filler(topology="File< 1 >", geometry="File< 1 >", node_descriptor="File< 1 >")]


def sequence(ctx, confs, n):
    built = {}
    for i in range(n):
        if i:
            ctx.next_step()
            if ctx.choose("newprocess", 2):
                ctx.new_process()
        cs = confs[i] if isinstance(confs[0], list) else confs
        fill = cs[ctx.choose("conf", len(cs))]
        k = repr(fill.d)
        rec, calls = good(ctx, fill)
        ctx.check(not (calls and k in built), "a problem that was compiled before is not compiled again")
        built[k] = rec


def pairs(ctx, lo, hi):
    v = variants()
    sequence(ctx, [v[lo:hi], v], 2)


@scenario("pairs_a", bounds="any two of 12 configurations after one another, in one process or in two (first: 1..6)")
def s_pairs_a(ctx):
    pairs(ctx, 0, 6)


@scenario("pairs_b", bounds="any two of 12 configurations after one another, in one process or in two (first: 7..12)")
def s_pairs_b(ctx):
    pairs(ctx, 6, 12)


@scenario("triples", bounds="any three of 5 configurations after one another, in one process or in several", tier="thorough")
def s_triples(ctx):
    v = variants()
    sequence(ctx, [v[0], v[2], v[3], v[6], v[9]], 3)


@scenario("triples_quick", bounds="any three of 3 configurations after one another, in one process or in several")
def s_triples_quick(ctx):
    v = variants()
    sequence(ctx, [v[0], v[2], v[6]], 3)


@scenario("same_object", bounds="one configuration object used again after another one, with any file lists of length up to 2")
def s_same_object(ctx):
    a = ctx.choose("n_include", 3)
    files = ["parameters/mine.hxx", "parameters/other.hxx"][:a]
    f1, f2 = filler(include_files=files), filler(local_solver="DiffusionUniform< 1 >")
    H = ctx.hyperhdg()
    c1, c2 = f1(H.config()), f2(H.config())
    g1, g2 = (lambda c: c1), (lambda c: c2)
    g1.d, g2.d = f1.d, f2.d
    good(ctx, g1)
    if ctx.choose("between", 2):
        good(ctx, g2)
    _, calls = good(ctx, g1)
    ctx.check(not calls, "nothing is compiled if nothing has changed")


@scenario("loops", bounds="all five global loops, all local solvers of the synthetic tree (class and struct), both modes")
def s_loops(ctx):
    loops = ["Elliptic", "Parabolic", "NonlinearEigenvalue", "ShiftedInverseEigenvalue", "MassApproxEigenvalue"]
    sol = ["Diffusion< 1 >", "DiffusionUniform<1>", "DiffusionUniformX< 2 >", "Heat< 1 >", "Heat"]
    k, s = ctx.choose("loop", 5), ctx.choose("solver", 5)
    good(ctx, filler(global_loop=loops[k], local_solver=sol[s]))


def relation(ctx, names, target):
    "any include relation among the named headers"
    inc = ctx.root + "/include/HyperHDG/"
    for x in names:
        text = LICENSE
        for y in names:
            if y != x and ctx.choose(f"{x}->{y}", 2):
                text += f"#include <HyperHDG/{y}>\n"
        w(inc + x, text)
    w(inc + target, cls("Diffusion", incs=[names[0]]))
    fill = filler()
    r0, _ = good(ctx, fill)
    ctx.next_step(h(ctx, *names, "unrelated.hxx"))
    ctx.new_process()
    rec, calls = good(ctx, fill)
    not_needless(ctx, fill, rec, calls, r0)


@scenario("relation", bounds="any include relation (cycles included) of 3 headers below a component, any of them changed")
def s_relation(ctx):
    relation(ctx, ["p.hxx", "q.hxx", "local_solver/p.hxx"], "local_solver/diffusion.hxx")


@scenario("relation4", bounds="any include relation of 4 headers below a component, any of them changed", tier="thorough")
def s_relation4(ctx):
    relation(ctx, ["p.hxx", "q.hxx", "local_solver/p.hxx", "s.hxx"], "local_solver/diffusion.hxx")


@scenario("rejected", bounds="every field of the configuration empty or of a wrong type, unknown classes")
def s_rejected(ctx):
    bad = [("global_loop", ""), ("local_solver", ""), ("topology", ""), ("geometry", ""), ("node_descriptor", ""),
           ("global_loop", 1), ("local_solver", None), ("topology", 1), ("geometry", None), ("node_descriptor", 2),
           ("cpp_code", 1), ("debug_mode", 1), ("cython_replacements", "ab"), ("cython_replacements", ["a", 1]),
           ("include_files", "parameters/mine.hxx"), ("include_files", [1]), ("local_solver", "Nothing< 1 >"),
           ("topology", "Cub< 1 >"), ("geometry", "UnitCubeX< 1 >"), ("node_descriptor", "ubic< 1 >"),
           ("local_solver", "iffusion< 1 >"), ("include_files", ["parameters/none.hxx"]), ("local_solver", "DiffusionUni<1>")]
    k, v = bad[ctx.choose("bad", len(bad))]
    rec, exc, calls = ctx.include(filler(**{k: v}))
    ctx.check(rec is None and exc is not None, "inconsistent configurations are rejected")


@scenario("version", bounds="Python version of CMake or of the last run equal to or different from the current one")
def s_version(ctx):
    a, b = ctx.choose("cmake", 3), ctx.choose("log", 2)
    cfg = ctx.root + "/build/cmake_cython.cfg"
    with open(cfg) as f:
        t = f.read()
    mi, ma = sys.version_info.minor, sys.version_info.major
    w(cfg, t.replace(f"ver_min = {mi}", f"ver_min = {mi + (a == 1)}").replace(f"ver_maj = {ma}", f"ver_maj = {ma + (a == 2)}"))
    if b:
        w(ctx.root + "/build/cython_log.txt", "Python version: sys.version_info(major=3, minor=6)")
    rec, exc, calls = ctx.include(filler())
    ctx.check((exc is None) == (a == 0 and b == 0), "modules are made and loaded exactly for the Python version in use")
    ctx.check(not calls or (a == 0 and b == 0), "modules are made and loaded exactly for the Python version in use")


def real_tree(root):
    shutil.copytree(REPO + "/include", root + "/include")


def components(root):
    out = {}
    for folder in ("topology", "geometry", "node_descriptor", "local_solver", "global_loop"):
        d = root + "/include/HyperHDG/" + folder
        for f in sorted(os.listdir(d)):
            with open(d + "/" + f) as g:
                t = re.sub(r"//.*", "", re.sub(r"/\*.*?\*/", "", g.read(), flags=re.S))
            for m in re.finditer(r"^(?:class|struct)\s+(\w+)\s*(?::[^{;]*)?\{", t, re.M):
                out.setdefault((folder, m.group(1)), []).append(f)
    return out


TREE = ("the real include tree: every local solver with the elliptic loop, every loop, topology, geometry, "
        "node descriptor; an arbitrary header that reaches the compiler is changed")


@scenario("tree_a", bounds=TREE + " (first half)", make=real_tree)
def s_tree_a(ctx):
    tree(ctx, 0)


@scenario("tree_b", bounds=TREE + " (second half)", make=real_tree)
def s_tree_b(ctx):
    tree(ctx, 1)


def tree(ctx, half):
    comp = components(ctx.root)
    loops = ["Elliptic", "Parabolic", "NonlinearEigenvalue", "ShiftedInverseEigenvalue", "MassApproxEigenvalue"]
    sols = [n for (f, n), fs in sorted(comp.items()) if f == "local_solver" and len(fs) == 1 and not n.endswith("arameters")
            and "Default" not in n]
    kinds = [("Cubic", "UnitCube", "Cubic"), ("File", "File", "File"), ("Cubic", "UnitCube", "File")]
    n = len(sols) + len(loops) + 1
    k = 2 * ctx.choose("problem", (n + 1 - half) // 2) + half
    loop, sol, kind = "Elliptic", "Diffusion", kinds[0]
    if k < len(sols):
        sol = sols[k]
    elif k < len(sols) + len(loops):
        loop = loops[k - len(sols)]
    else:
        kind = kinds[1]
    fill = filler(global_loop=loop, local_solver=sol + "< 1, 1 >", topology=kind[0] + "<1,1>", geometry=kind[1] + "<1,1>",
                  node_descriptor=kind[2] + "<1,1>")
    header = lambda folder, name: f"HyperHDG/{folder}/{comp[(folder, name)][0]}"
    r0, _ = good(ctx, fill, header=header)
    n = [p for p in r0["files"] if p.startswith(ctx.root + "/include")]
    ctx.next_step(n)
    # one arbitrary header is changed
    ctx.new_process()
    if ctx.symbolic:
        ctx.solver.add(z3.PbEq([(ctx.c(p, ctx.step), 1) for p in n], 1))
    rec, exc, calls = ctx.include(fill)
    ctx.check(exc is None, "include succeeds if the tools do")
    contents(ctx, rec, fill.d, header)
    fresh(ctx, rec)


# ---------------------------------------------------------------- driver of one scenario
def profile(ctx):
    import_dir = ctx.root + "/import/"

    def p(frame, event, arg):
        if event == "call" and frame.f_code.co_filename.startswith(import_dir):
            ctx.functions.add(os.path.relpath(frame.f_code.co_filename, import_dir) + ":" + frame.f_code.co_name)
    return p


def explore(name, repo, tier, limit):
    s = SC[name]
    top = tempfile.mkdtemp(prefix="vfjit-")
    t0 = time.time()
    res = dict(scenario=name, bounds=s["bounds"], paths=0, completed=0, instructions=0, violations=[], witnesses=[],
               inconclusive=[], wall_s=0)
    try:
        ctx = Ctx(repo, top, True)
        ctx.prepare(s["make"])
        todo, seen = [[]], set()
        sys.setprofile(profile(ctx))
        while todo:
            if time.time() - t0 > limit:
                res["inconclusive"].append(f"time limit of {limit} s, {len(todo)} branches left")
                break
            prefix = todo.pop()
            res["paths"] += 1
            try:
                ctx.begin(prefix)
                s["f"](ctx)
                res["completed"] += 1
                if len(res["witnesses"]) < 4 or (res["paths"] & (res["paths"] - 1)) == 0:
                    ctx.query()
                    res["witnesses"].append(dict(ctx.model_of(ctx.solver.model()), trace=ctx.trace))
            except Violation as v:
                if v.msg not in seen:
                    seen.add(v.msg)
                    res["violations"].append(dict(msg=v.msg, model=v.model, trace=ctx.trace))
            except PathEnd:
                pass
            except Stop as x:
                res["inconclusive"].append(str(x))
            res["instructions"] += len(ctx.trace)
            for i in range(len(prefix), len(ctx.taken)):
                todo.append(ctx.taken[:i] + [not ctx.taken[i]])
        sys.setprofile(None)
        res.update(ctx.stats, assert_hits=ctx.hits, functions=sorted(ctx.functions))
    finally:
        sys.setprofile(None)
        shutil.rmtree(top, ignore_errors=True)
    res["wall_s"] = time.time() - t0
    return res


def replay(name, repo, model):
    s = SC[name]
    top = tempfile.mkdtemp(prefix="vfjit-")
    try:
        ctx = Ctx(repo, top, False, model)
        ctx.prepare(s["make"])
        ctx.begin([])
        old = time.time() - 100000
        for b, _, fs in os.walk(ctx.root):
            for f in fs:
                os.utime(os.path.join(b, f), (old, old))
        try:
            s["f"](ctx)
        except Violation as v:
            print("VF-FAIL", v.msg)
            print(json.dumps(ctx.trace))
            return 1
        except PathEnd:
            pass
        return 0
    finally:
        shutil.rmtree(top, ignore_errors=True)


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("scenario", nargs="?")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--out")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--limit", type=float, default=600)
    ap.add_argument("--replay")
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    REPO = a.repo
    if a.list:
        print(json.dumps({k: dict(tier=v["tier"], opt=v["opt"], bounds=v["bounds"],
                                  weight=9 if v["tier"] == "thorough" else HEAVY.get(k, 1)) for k, v in SC.items()}))
        sys.exit(0)
    import warnings
    warnings.simplefilter("ignore")
    patch_loader()
    if a.replay:
        with open(a.replay) as f:
            model = json.loads("".join(l for l in f if not l.startswith("#")))
        sys.exit(replay(a.scenario, a.repo, model))
    r = explore(a.scenario, a.repo, a.tier, a.limit)
    json.dump(r, open(a.out, "w")) if a.out else print(json.dumps({k: v for k, v in r.items() if k not in ("witnesses",)}, indent=1))
