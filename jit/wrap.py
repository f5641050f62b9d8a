"""Symbolic execution of the Python wrapper classes (cython/*.pyx of the current tree).

wrap.py LOOP --repo R --out OUT.json            explore
wrap.py LOOP --repo R --replay MODEL.json       the same history with the real extension module: cython and g++ build the
                                                wrapper around a C++ class that records its calls

The body of the extension class is Python; its few C++ constructs (pointer member, new, del) are rewritten textually and
the code is executed with symbolic arguments: terms of an uninterpreted sort, strings with symbolic content, kinds of
arguments and sequences of calls chosen by forking. The C++ class is represented by what the .pxd declares; every call
yields a fresh symbolic result. That arguments and results are passed on is decided by z3."""
import argparse, importlib.util, json, os, re, shutil, subprocess, sys, tempfile, time
import z3
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import jit
from jit import SymBool, Violation, Stop

U = z3.DeclareSort("Object")
ENC, DEC = z3.Function("encode", U, U), z3.Function("decode", U, U)
NUM = z3.Function("number", z3.RealSort(), U)
TXT = z3.Function("text", z3.StringSort(), U)
LOOPS = ["elliptic", "parabolic", "nonlinear_eigenvalue", "mass_approx_eigenvalue", "shifted_inverse_eigenvalue"]


class Obj:
    "an object that is neither a string nor bytes"
    def __init__(self, ctx, t): self.ctx, self.t = ctx, t
    def __eq__(self, o):
        if isinstance(o, (str, bytes)):
            return False
        e = term(o)
        return SymBool(self.ctx, self.t == e)
    def __ne__(self, o):
        if isinstance(o, (str, bytes)):
            return True
        return SymBool(self.ctx, self.t != term(o))
    __hash__ = None


class SymStr(str):
    def __new__(cls, ctx, t, content=None):
        s = str.__new__(cls, "<symbolic>")
        s.ctx, s.t, s.content = ctx, t, content
        return s
    def __eq__(self, o):
        if isinstance(o, SymStr):
            return SymBool(self.ctx, self.t == o.t)
        if isinstance(o, str):
            return SymBool(self.ctx, self.content == z3.StringVal(o)) if self.content is not None else False
        return False
    def __ne__(self, o):
        return not self == o
    def __hash__(self): return 0
    def encode(self, *a): return SymBytes(self.ctx, ENC(self.t))


class SymBytes(bytes):
    def __new__(cls, ctx, t):
        s = bytes.__new__(cls, b"<symbolic>")
        s.ctx, s.t = ctx, t
        return s
    def decode(self, *a): return SymStr(self.ctx, DEC(self.t))
    def __eq__(self, o): return SymBool(self.ctx, self.t == o.t) if isinstance(o, SymBytes) else False
    def __ne__(self, o): return not self == o
    def __hash__(self): return 0


def term(x):
    if hasattr(x, "t"):
        return x.t
    if isinstance(x, (int, float)):
        return NUM(z3.RealVal(repr(float(x))))
    if isinstance(x, str):
        return TXT(z3.StringVal(x))
    if isinstance(x, bytes):
        return ENC(TXT(z3.StringVal(x.decode())))
    raise Violation(f"an unexpected object of type {type(x).__name__} is passed on")


# ---------------------------------------------------------------- the C++ side
def declared(pxd):
    "{class: {method or '': [(return type, C++ name, [argument types])]}}"
    out, cur = {}, None
    for line in pxd.splitlines():
        line = line.split("#")[0].rstrip()
        m = re.match(r"\s*(?:cdef\s+)?cppclass\s+(\w+)", line) or re.match(r"\s*cdef\s+cppclass\s+(\w+)", line)
        if m:
            cur = out.setdefault(m.group(1), {})
            continue
        m = re.match(r"\s+(.*?)\b(\w+)\s*(?:\"([^\"]*)\")?\s*\(([^()]*)\)\s*(?:except.*|nogil.*)?$", line)
        if m and cur is not None:
            ret, name, alias, args = m.groups()
            args = [a.strip() for a in re.split(r",(?![^\[]*\])", args) if a.strip()]
            if not ret.strip():
                cur.setdefault("", []).append((None, None, args))
            else:
                cur.setdefault(name, []).append((ret.strip(), alias or name, args))
    return out


def translate(pyx):
    out = []
    for line in pyx.splitlines():
        line = re.sub(r"^(\s*)cdef\s+class\s+(\w+)\s*:", r"\1class \2:", line)
        m = re.match(r"^(\s*)cdef\s+[\w\[\], ]+?\s*\*\s*(\w+)\s*(#.*)?$", line)
        if m:
            line = f"{m.group(1)}{m.group(2)} = None"
        m = re.match(r"^(\s*)(?:cdef|cpdef)\s+(?:inline\s+)?(?:[\w\[\], ]+?\s+)?\*?(\w+)\s*(\(.*\)\s*:.*)$", line)
        if m:
            line = f"{m.group(1)}def {m.group(2)}{m.group(3)}"
        m = re.match(r"^(\s*)cdef\s+[\w\[\], ]+?\s+\*?(\w+)\s*=\s*(.*)$", line)
        if m:
            line = f"{m.group(1)}{m.group(2)} = {m.group(3)}"
        elif re.match(r"^\s*cdef\s", line):
            line = re.match(r"^\s*", line).group(0) + "pass"
        line = line.replace("def __cinit__", "def __init__")
        line = re.sub(r"\bnew\s+(\w+)\s*\(", r"\1(", line)
        line = re.sub(r"^(\s*)del\s+(self\.\w+)", r"\1\2.delete()", line)
        out.append(line)
    return "\n".join(out) + "\n"


class World(jit.Ctx):
    def __init__(self, repo, loop, symbolic, model=None):
        jit.Ctx.__init__(self, repo, "/nonexistent", symbolic, model)
        self.loop = loop
        self.pxd = open(f"{repo}/cython/{loop}.pxd").read()
        self.pyx = open(f"{repo}/cython/{loop}.pyx").read()
        self.decl = declared(self.pxd)

    def begin(self, prefix):
        self.prefix, self.taken, self.choices = prefix, [], {}
        self.solver.reset()
        self.step, self.log, self.count, self.trace, self.strings = 0, [], 0, [], []
        self.plan = dict(calls=[])
        if self.symbolic:
            ns = {"print": lambda *a, **k: None}
            for c in self.decl:
                ns[c] = self.mock(c)
            exec(compile(translate(self.pyx), f"cython/{self.loop}.pyx", "exec"), ns)
            self.wrapper = ns["PythonClassName"]

    def mock(self, cname):
        world = self

        class Mock:
            def __init__(self, *a):
                world.invoke(cname, "", a, self)
            def delete(self):
                world.check(self.live == 1, "the C++ object is deleted once")
                self.live = 0
            def __getattr__(self, m):
                if m not in world.decl[cname]:
                    raise AttributeError(m)
                return lambda *a: world.invoke(cname, m, a, self)
        Mock.__name__ = cname
        return Mock

    def invoke(self, cname, m, args, obj):
        over = [d for d in self.decl[cname].get(m, []) if len(d[2]) == len(args)]
        self.check(len(over) > 0, "every call agrees with a declared C++ method")
        ret, name, types = over[0]
        for a, t in zip(args, types):
            if isinstance(a, str):
                self.check(False, "strings are encoded for C++")
            if t == "string":
                self.check(isinstance(a, bytes), "strings are encoded for C++")
        if m == "":
            obj.live = 1
            self.log.append(("", [term(a) for a in args]))
            return
        self.count += 1
        self.log.append((name, [term(a) for a in args]))
        if ret == "void":
            return None
        if ret in self.decl:
            r = self.mock.__func__(self, ret).__new__(self.mock_of(ret))
            return r
        t = z3.Const(f"result{self.count}", U)
        return SymBytes(self, t) if ret == "string" else Obj(self, t)

    def mock_of(self, ret):
        if not hasattr(self, "_m"):
            self._m = {}
        if ret not in self._m:
            self._m[ret] = self.mock(ret)
        return self._m[ret]

    def model_of(self, m):
        return json.loads(json.dumps(self.plan))

    # arguments
    def arg(self, name, kind):
        "kind: 0 object, 1 string, 2 bytes"
        self.step += 1
        n = f"{name}{self.step}"
        if kind == 1:
            c = z3.String("content_" + n)
            self.solver.add(c != z3.StringVal("default"))
            return SymStr(self, TXT(c), c)
        t = z3.Const(n, U)
        return SymBytes(self, ENC(t)) if kind == 2 else Obj(self, t)


FORMS = ["topology", "topology and local solver", "all", "topology and geometry", "all by keyword"]


def cpp(x):
    "what C++ has to get for x"
    return ENC(x.t) if isinstance(x, SymStr) else term(x)


def same(w, got, want, msg):
    w.check(len(got) == len(want), msg)
    for g, x in zip(got, want):
        w.check(g == x, msg)


def history(w, n_calls=2):
    loop = w.wrapper
    decl = w.decl["CythonClassName"]
    form = w.plan["form"] = w.choose("form", len(FORMS))
    k = w.plan["kind"] = w.choose("kind", 3)
    topo, geom, lsol = w.arg("topo", k), w.arg("geom", k), w.arg("lsol", 0)
    want = None
    if form == 0:
        o = loop(topo)
        want = [cpp(topo)]
    elif form == 1:
        o = loop(topo, lsol_constr=lsol)
        want = [cpp(topo), cpp(lsol)]
    elif form == 2:
        o = loop(topo, geom, lsol)
        want = [cpp(topo), cpp(geom), cpp(lsol)]
    elif form == 3:
        o = loop(topo, geom)
        want = [cpp(topo), cpp(geom), term(1.)]
    else:
        o = loop(lsol_constr=lsol, geom_constr=geom, topo_constr=topo)
        want = [cpp(topo), cpp(geom), cpp(lsol)]
    w.check([c[0] for c in w.log] == [""], "construction makes exactly one C++ object")
    same(w, w.log[0][1], want, "the C++ object is constructed from the given arguments")
    mock = [v for v in vars(o).values() if hasattr(v, "live")]
    w.check(len(mock) == 1, "construction makes exactly one C++ object")
    import inspect
    methods = sorted(m for m, f in vars(loop).items() if inspect.isfunction(f) and not m.startswith("_"))
    for m in decl:
        if m and m not in ("get_refinement", "set_refinement", "trace_to_flux_mat"):
            w.check(m in methods, "every declared method can be called from Python")
    for i in range(n_calls):
        if form and i:
            break
        w.step += 1
        m = methods[w.choose("method", len(methods))]
        call = dict(method=m)
        w.plan["calls"].append(call)
        w.log.clear()
        before = w.count
        w.trace.append([form, m])
        if m == "refine":
            call["given"] = w.choose("given", 2)
            if call["given"]:
                n = w.arg("n", 0)
                r = o.refine(n)
                w.check([c[0] for c in w.log] == ["set_refinement"], "refine sets the refinement")
                same(w, w.log[0][1], [cpp(n)], "refine sets the refinement")
                w.check(term(r) == n.t, "refine returns the refinement")
            else:
                r = o.refine()
                w.check([c[0] for c in w.log] == ["get_refinement"], "refine without argument reads the refinement")
                w.check(term(r) == z3.Const(f"result{w.count}", U), "refine returns the refinement")
        elif m == "sparse_stiff_mat":
            r = o.sparse_stiff_mat()
            names = [c[0] for c in w.log]
            w.check(names[0] == "trace_to_flux_mat" and sorted(names[1:]) == ["get_cols", "get_rows", "get_values"],
                    "the matrix is computed once and read completely")
            pos = {c: z3.Const(f"result{before + 1 + j}", U) for j, c in enumerate(names)}
            w.check(len(r) == 3, "the matrix is returned as columns, rows and values")
            for x, c in zip(r, ("get_cols", "get_rows", "get_values")):
                w.check(term(x) == pos[c], "the matrix is returned as columns, rows and values")
        elif m == "plot_option":
            call["k1"], call["k2"] = w.choose("k1", 2), w.choose("k2", 2)
            a, b = w.arg("option", 1 + call["k1"]), w.arg("value", 1 + call["k2"])
            r = o.plot_option(a, b)
            w.check([c[0] for c in w.log] == ["plot_option"], "a method calls the C++ method of its name once")
            same(w, w.log[0][1], [cpp(a), cpp(b)], "all arguments are passed on in order")
            w.check(isinstance(r, str), "options are returned as strings")
            w.check(term(r) == DEC(z3.Const(f"result{w.count}", U)), "the result is that of the C++ method")
        else:
            sig = [p for p in inspect.signature(vars(loop)[m]).parameters.values()][1:]
            need = sum(p.default is p.empty for p in sig)
            n = need + w.choose("given", len(sig) - need + 1)
            call["n"] = n
            args = [w.arg(p.name, 0) for p in sig[:n]]
            call["keyword"] = w.choose("keyword", 2)
            if call["keyword"]:
                r = getattr(o, m)(**{p.name: a for p, a in zip(sig, args)})
            else:
                r = getattr(o, m)(*args)
            w.check([c[0] for c in w.log] == [m], "a method calls the C++ method of its name once")
            same(w, w.log[0][1], [cpp(a) for a in args] + [term(0.)] * (len(sig) - n), "all arguments are passed on in order")
            if m in decl and decl[m][0][0] != "void":
                w.check(term(r) == z3.Const(f"result{w.count}", U), "the result is that of the C++ method")
        w.check(mock[0].live == 1 and mock[0] in vars(o).values(), "the C++ object lives as long as the wrapper")
    w.log.clear()
    if hasattr(o, "__dealloc__"):
        o.__dealloc__()
    w.check(mock[0].live == 0, "the C++ object is deleted once")


def explore(loop, repo, tier, limit):
    t0 = time.time()
    res = dict(scenario=loop, paths=0, completed=0, instructions=0, violations=[], witnesses=[], inconclusive=[])
    w = World(repo, loop, True)
    todo, seen, shown = [[]], set(), set()
    while todo:
        if time.time() - t0 > limit:
            res["inconclusive"].append(f"time limit of {limit} s")
            break
        prefix = todo.pop()
        res["paths"] += 1
        try:
            w.begin(prefix)
            history(w, 3 if tier == "thorough" else 2)
            res["completed"] += 1
            for key in (("f", w.plan["form"], w.plan["kind"]), json.dumps(w.plan["calls"][0], sort_keys=True)):
                if key not in shown:
                    shown.add(key)
                    res["witnesses"].append(w.model_of(None))
        except Violation as v:
            if v.msg not in seen:
                seen.add(v.msg)
                if v.model is None:
                    w.query()
                    v.model = w.model_of(w.solver.model())
                res["violations"].append(dict(msg=v.msg, model=v.model, trace=w.trace))
        except (AttributeError, TypeError, NameError, UnboundLocalError) as x:
            msg = f"a call of the wrapper ends with {type(x).__name__}: {x}"
            if msg not in seen:
                seen.add(msg)
                w.query()
                res["violations"].append(dict(msg=msg, model=w.model_of(w.solver.model()), trace=w.trace))
        except Stop as x:
            res["inconclusive"].append(str(x))
        res["instructions"] += 1 + len(w.trace)
        for i in range(len(prefix), len(w.taken)):
            todo.append(w.taken[:i] + [not w.taken[i]])
    # all witnesses of one loop are replayed with one extension module
    res["witnesses"] = [dict(many=res["witnesses"])] if res["witnesses"] else []
    res.update(w.stats, assert_hits=w.hits, functions=[f"cython/{loop}.pyx:{m}" for m in sorted(vars(w.wrapper))
                                                       if callable(vars(w.wrapper)[m])], wall_s=time.time() - t0)
    return res


# ---------------------------------------------------------------- native replay
CPP = {"void": "void", "string": "std::string", "int": "int", "unsigned int": "unsigned int"}


def ctype(t):
    t = t.strip()
    m = re.fullmatch(r"vector\s*\[(.*)\]", t)
    return f"std::vector<{ctype(m.group(1))}>" if m else CPP.get(t, t)


def build(repo, loop, topo, tmp):
    """the wrapper around a C++ class that writes its calls to a file; topo: type of the first two constructor arguments"""
    rep = {"CyReplace01": topo, "CyReplace02": topo, "CyReplace03": "double", "CyReplace04": "double"}
    name = f"wrap_{loop}_{'s' if topo == 'string' else 'v'}"
    text = {}
    for e in ("pxd", "pyx"):
        s = open(f"{repo}/cython/{loop}.{e}").read()
        for k, v in rep.items():
            s = s.replace(k, v)
        text[e] = s
    hx = ["#pragma once", "#include <string>", "#include <vector>", "#include <fstream>", "#include <cstdlib>",
          "inline std::ofstream& vf_log() { static std::ofstream f(std::getenv(\"VF_CALLS\"), std::ios::app); return f; }",
          "inline int& vf_n() { static int n = 0; return n; }",
          "inline std::string vf_s(const std::string& s) { return \"\\\"\" + s + \"\\\"\"; }",
          "template <class T> std::string vf_s(const T& x) { return std::to_string(x); }",
          "template <class T> std::string vf_s(const std::vector<T>& v) { std::string s = \"[\"; for (auto x : v) s += (s.size() > 1 ? \",\" : \"\") + vf_s(x); return s + \"]\"; }",
          "template <class... T> void vf_call(const char* n, const T&... a) { std::string s; ((s += (s.empty() ? \"\" : \",\") + vf_s(a)), ...); vf_log() << \"[\\\"\" << n << \"\\\",[\" << s << \"]]\" << std::endl; }",
          "struct vf_r { operator std::string() const { return \"text\" + std::to_string(vf_n()); } operator int() const { return vf_n(); } operator unsigned int() const { return vf_n(); } template <class T> operator std::vector<T>() const { return {T(vf_n()), T(7)}; } };"]
    decl = declared(text["pxd"])
    for c in sorted(decl, key=lambda c: c == "CythonClassName"):
        cn = "VfObject" if c == "CythonClassName" else c
        hx.append(("template <class V> " if c == "sparse_mat" else "") + f"struct {cn} {{")
        for m, ds in decl[c].items():
            for ret, cname, types in ds:
                ar = ", ".join(f"{ctype(t)} a{i}" for i, t in enumerate(types))
                ca = "".join(f", a{i}" for i in range(len(types)))
                if m == "":
                    hx.append(f"  {cn}({ar}) {{ " + (f'vf_call("construct"{ca});' if c == "CythonClassName" else "") + " }")
                else:
                    r = ctype(ret) if ret not in decl else "sparse_mat<std::vector<double>>"
                    val = "" if ret == "void" else f"return {r}();" if ret in decl else "return vf_r();"
                    hx.append(f'  {r} {cname}({ar}) {{ ++vf_n(); vf_call("{cname}"{ca}); {val} }}')
        if c == "CythonClassName":
            hx.append(f'  ~{cn}() {{ vf_call("destruct"); }}')
        hx.append("};")
    os.makedirs(f"{tmp}/HyperHDG/global_loop", exist_ok=True)
    # all files the template names are the recording class
    open(f"{tmp}/vf_mock_{name}.hxx", "w").write("\n".join(hx) + "\n")
    for e in ("pxd", "pyx"):
        s = text[e]
        s = s.replace("C++ClassName", '"VfObject"').replace("CythonClassName", name + "CP").replace("PythonClassName", name)
        s = re.sub(r'"<HyperHDG/[^">]*>"', f'"vf_mock_{name}.hxx"', s).replace("IncludeFiles", "")
        open(f"{tmp}/{name}.{e}", "w").write(s)
    r = subprocess.run([sys.executable, "-m", "cython", "-3", "--cplus", name + ".pyx"], cwd=tmp, capture_output=True, text=True)
    if r.returncode == 0:
        import sysconfig
        inc = sysconfig.get_paths()["include"]
        r = subprocess.run(["g++", "-std=gnu++20", "-O0", "-w", "-shared", "-fPIC", f"-I{inc}", "-I.", name + ".cpp", "-o", name + ".so"],
                           cwd=tmp, capture_output=True, text=True)
    if r.returncode:
        return None, (r.stdout + r.stderr)[-1500:]
    return name, ""


def native(w, name, tmp, model):
    "one history in a process of its own; 0 ok, 1 violation"
    spec = importlib.util.spec_from_file_location(name, f"{tmp}/{name}.so")
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    loop = getattr(mod, name)
    logf = os.environ["VF_CALLS"]

    def log():
        with open(logf) as f:
            l = [json.loads(x) for x in f]
        open(logf, "w").close()
        return l

    def need(c, msg):
        if not c:
            raise Violation(msg)
    form, k = model["form"], model["kind"]
    val = (lambda s: [3, 4]) if k == 0 else (lambda s: s) if k == 1 else (lambda s: s.encode())
    shown = (lambda s: [3, 4]) if k == 0 else (lambda s: s)
    T, G, L = val("topo"), val("geom"), 2.5
    open(logf, "w").close()
    if form == 0:
        o, want = loop(T), [shown("topo")]
    elif form == 1:
        o, want = loop(T, lsol_constr=L), [shown("topo"), L]
    elif form == 2:
        o, want = loop(T, G, L), [shown("topo"), shown("geom"), L]
    elif form == 3:
        o, want = loop(T, G), [shown("topo"), shown("geom"), 1.]
    else:
        o, want = loop(lsol_constr=L, geom_constr=G, topo_constr=T), [shown("topo"), shown("geom"), L]
    need(log() == [["construct", want]], "the C++ object is constructed from the given arguments")
    methods = sorted(m for m in dir(loop) if not m.startswith("_"))
    decl = w.decl["CythonClassName"]
    for m in decl:
        if m and m not in ("get_refinement", "set_refinement", "trace_to_flux_mat"):
            need(m in methods, "every declared method can be called from Python")
    count = 0
    import inspect
    ns = {c: None for c in w.decl}
    exec(compile(translate(w.pyx), "x", "exec"), ns)
    vec = lambda i: [1.5 + i, 2.5]
    for call in model["calls"]:
        m = call["method"]
        if m == "refine":
            count += 1
            if call["given"]:
                r = o.refine(5)
                need(log() == [["set_refinement", [5]]], "refine sets the refinement")
                need(r == 5, "refine returns the refinement")
            else:
                r = o.refine()
                need(log() == [["get_refinement", []]] and r == count, "refine without argument reads the refinement")
        elif m == "sparse_stiff_mat":
            r = o.sparse_stiff_mat()
            names = [c[0] for c in log()]
            need(names[0] == "trace_to_flux_mat" and sorted(names[1:]) == ["get_cols", "get_rows", "get_values"],
                 "the matrix is computed once and read completely")
            for x, c in zip(r, ("get_cols", "get_rows", "get_values")):
                need(list(x) == [count + 1 + names.index(c), 7], "the matrix is returned as columns, rows and values")
            count += len(names)
        elif m == "plot_option":
            r = o.plot_option(b"opt" if call["k1"] else "opt", b"val" if call["k2"] else "val")
            count += 1
            need(log() == [["plot_option", ["opt", "val"]]], "all arguments are passed on in order")
            need(r == f"text{count}", "the result is that of the C++ method")
        else:
            sig = [p for p in inspect.signature(vars(ns["PythonClassName"])[m]).parameters.values()][1:]
            n = call["n"]
            types = max((d[2] for d in decl.get(m, [(0, 0, [])])), key=len)
            args = [vec(j) if j < len(types) and types[j].startswith("vector") else 3.5 + j for j in range(len(sig))]
            if types and types[0] == "vector[unsigned int]":
                args[0] = [1, 2]
            if call["keyword"]:
                r = getattr(o, m)(**{p.name: a for p, a in zip(sig[:n], args)})
            else:
                r = getattr(o, m)(*args[:n])
            count += 1
            need(log() == [[m, args[:n] + [0.] * (len(sig) - n)]], "all arguments are passed on in order")
            if m in decl and decl[m][0][0] != "void":
                need((list(r) if isinstance(r, list) else r) == ([count, 7] if decl[m][0][0].startswith("vector") else count),
                     "the result is that of the C++ method")
    del o
    import gc
    gc.collect()
    need(log() == [["destruct", []]], "the C++ object is deleted once")


def replay(loop, repo, model):
    tmp = tempfile.mkdtemp(prefix="vfwrap-")
    try:
        w = World(repo, loop, False, model)
        models = model.get("many", [model])
        names = {}
        for m in models:
            topo = "string" if m["kind"] else "vector[unsigned int]"
            if topo not in names:
                names[topo], err = build(repo, loop, topo, tmp)
                if names[topo] is None:
                    print("VF-FAIL the wrapper does not compile:", err)
                    return 3
        groups = {}
        for m in models:
            groups.setdefault("string" if m["kind"] else "vector[unsigned int]", []).append(m)
        for topo, ms in groups.items():
            for m in ms:
                # a process per history: a null pointer ends it with a signal
                os.environ["VF_CALLS"] = tmp + "/calls"
                pid = os.fork()
                if pid == 0:
                    code = 4
                    try:
                        native(w, names[topo], tmp, m)
                        code = 0
                    except Violation as v:
                        print("VF-FAIL", v.msg, json.dumps(m), flush=True)
                        code = 1
                    except Exception as x:
                        print("VF-FAIL", type(x).__name__, x, json.dumps(m), flush=True)
                        code = 1
                    finally:
                        os._exit(code)
                _, st = os.waitpid(pid, 0)
                if st:
                    if os.WIFSIGNALED(st):
                        print("VF-FAIL ended by signal", os.WTERMSIG(st), json.dumps(m))
                        return 1
                    return os.WEXITSTATUS(st)
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


if __name__ == "__main__":
    ap = argparse.ArgumentParser()
    ap.add_argument("scenario", nargs="?")
    ap.add_argument("--repo", default="/repo")
    ap.add_argument("--out")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--limit", type=float, default=600)
    ap.add_argument("--replay")
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    if a.list:
        print(json.dumps({k: dict(tier="quick", opt=False, bounds="every form of construction and kind of arguments (object, "
                                  "string, bytes), then up to two (three) calls of any methods with any number of arguments, "
                                  "positional or by keyword; all values") for k in LOOPS}))
        sys.exit(0)
    if a.replay:
        with open(a.replay) as f:
            model = json.loads("".join(l for l in f if not l.startswith("#")))
        sys.exit(replay(a.scenario, a.repo, model))
    r = explore(a.scenario, a.repo, a.tier, a.limit)
    json.dump(r, open(a.out, "w")) if a.out else print(json.dumps({k: v for k, v in r.items() if k not in ("witnesses",)}, indent=1))
