#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--keep] [--only ENTRY]

Decides one property: compiles its harnesses (which include /repo's current headers) to LLVM IR,
runs every entry function in the symbolic executor, replays counterexamples and reachability
witnesses against a native build of the real code, and writes evidence/PROPERTY.json.

Exit 0: held on everything explored.  Exit 1: VIOLATION line.  Exit 2: no answer.
"""
import argparse, glob, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
CLANG = "clang++-18"
ENGINE_FLAGS = ["-std=c++20", "-O1", "-gline-tables-only", "-fno-vectorize", "-fno-slp-vectorize",
                "-fno-unroll-loops", "-ffp-contract=off", "-fno-math-errno",
                "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-DVF_ENGINE", "-w"]
NATIVE_FLAGS = ["-std=c++20", "-O1", "-g", "-ffp-contract=off", "-fsanitize=address,undefined,float-cast-overflow",
                "-fno-sanitize-recover=undefined", "-ftrivial-auto-var-init=pattern", "-w"]


# properties of the Python code: script that explores it
PYTHON = {"C29": "jit.py", "C30": "wrap.py"}


def run(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)


class Unit:
    """One harness source in one configuration."""

    def __init__(self, src, tag, flags):
        self.src, self.tag, self.flags = src, tag, flags
        self.bc = self.exe = None
        self.entries = []
        self.err = ""


def directives(src):
    d = {"config": [], "opts": {}, "bounds": [], "assume": []}
    for line in open(src, encoding="utf-8"):
        m = re.match(r"//\s*VF-(\w+):\s*(.*)", line)
        if not m:
            continue
        k, v = m.group(1), m.group(2).strip()
        if k == "CONFIG":      # tier tag flags...
            t = v.split()
            d["config"].append((t[0], t[1], t[2:]))
        elif k == "OPTS":      # entry-regex options...
            t = v.split()
            d["opts"][t[0]] = t[1:]
        elif k == "BOUNDS":
            d["bounds"].append(v)
        elif k == "ASSUME":
            d["assume"].append(v)
    if not d["config"]:
        d["config"] = [("quick", "debug", [])]
    return d


def includes(stub):
    inc = ["-I" + os.path.join(HERE, "models")]
    if stub:
        inc.insert(0, "-I" + os.path.join(HERE, "models", "std"))
    return inc + ["-I" + os.path.join(HERE, "models", "third_party"), "-I" + REPO + "/include"]


def compile_engine(u, tmp):
    u.bc = os.path.join(tmp, os.path.basename(u.src)[:-4] + "." + u.tag + ".bc")
    r = run([CLANG] + ENGINE_FLAGS + u.flags + includes(True) + ["-emit-llvm", "-c", u.src, "-o", u.bc])
    if r.returncode:
        u.err = r.stderr
        return u
    r = run(["llvm-nm-18", "--defined-only", u.bc])
    for line in r.stdout.splitlines():
        t = line.split()
        if len(t) >= 2 and t[-2] in "Tt" and re.match(r"[qt]_\w+$", t[-1]):
            u.entries.append(t[-1])
    return u


def compile_native(u, tmp):
    if u.exe is not None:
        return u.exe
    exe = os.path.join(tmp, os.path.basename(u.src)[:-4] + "." + u.tag + ".exe")
    r = run(["g++"] + NATIVE_FLAGS + u.flags + includes(False) + [u.src, "-o", exe, "-llapack", "-lblas"])
    if r.returncode:
        u.err = r.stderr
        u.exe = ""
    else:
        u.exe = exe
    return u.exe


def native_run(exe, entry, model, tmp, name):
    """Run the native harness on one assignment in a scratch directory; returns (code, output)."""
    d = tempfile.mkdtemp(prefix="run-", dir=tmp)
    f = os.path.join(d, name)
    with open(f, "w") as o:
        for k, v in model:
            o.write(f"{k}\t{v}\n")
    os.makedirs(os.path.join(d, "output"), exist_ok=True)
    env = dict(os.environ, ASAN_OPTIONS="hard_rss_limit_mb=6000:detect_leaks=0:abort_on_error=0:exitcode=99:max_malloc_fill_size=16777216:malloc_fill_byte=254", UBSAN_OPTIONS="exitcode=99")
    try:
        r = subprocess.run([exe, entry, f], cwd=d, env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, timeout=60)
        code, out = r.returncode, r.stdout.decode(errors="replace")
    except subprocess.TimeoutExpired:
        code, out = 124, "timeout"
    text = open(f).read()
    shutil.rmtree(d, ignore_errors=True)
    return code, out, text


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--keep", action="store_true")
    ap.add_argument("--only")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(os.path.join(HERE, "build"), exist_ok=True)
    if prop in PYTHON:
        sys.path.insert(0, os.path.join(HERE, "jit"))
        sys.dont_write_bytecode = True
        import decide as py
        return py.decide(prop, tier, seed, a, t0, PYTHON[prop])
    r = run(["bash", os.path.join(HERE, "engine", "build.sh")])
    if r.returncode:
        print("cannot build the engine:\n" + r.stderr)
        return 2
    os.makedirs(os.path.join(HERE, "build"), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix=f"{prop}-", dir=os.path.join(HERE, "build"))
    try:
        return decide(prop, tier, seed, tmp, a, t0)
    finally:
        if not a.keep:
            shutil.rmtree(tmp, ignore_errors=True)


def decide(prop, tier, seed, tmp, a, t0):
    srcs = sorted(glob.glob(os.path.join(HERE, "harness", prop + "_*.cxx")))
    units, dirs = [], {}
    for s in srcs:
        d = dirs[s] = directives(s)
        for (t, tag, flags) in d["config"]:
            if t == "quick" or tier == "thorough":
                units.append(Unit(s, tag, flags + (["-DVF_THOROUGH"] if tier == "thorough" else [])))
    if not units:
        print("no harness for", prop)
        return 2
    jobs = int(os.environ.get("VERIF_JOBS", "8"))
    pool = ThreadPoolExecutor(jobs)
    list(pool.map(lambda u: compile_engine(u, tmp), units))
    nocompile = [f"harness {os.path.basename(u.src)} [{u.tag}] does not compile against /repo:\n{u.err[:3000]}"
                 for u in units if u.err]
    units = [u for u in units if not u.err]
    natf = {u: pool.submit(compile_native, u, tmp) for u in units} if not a.only else {}
    tasks = []
    for u in units:
        for e in u.entries:
            if e.startswith("t_") and tier != "thorough":
                continue
            if a.only and not re.search(a.only, e):
                continue
            opts = ["--time", "1800" if tier == "thorough" else "240"]
            if tier == "thorough":
                opts += ["--query-ms", "120000", "--max-witness", "16"]
            for rx, o in dirs[u.src]["opts"].items():
                if re.fullmatch(rx, e):
                    opts += o
            tasks.append((u, e, opts))

    def one(t):
        u, e, opts = t
        out = os.path.join(tmp, f"{u.tag}.{os.path.basename(u.src)}.{e}.json")
        limit = 2400 if tier == "thorough" else 420
        try:
            r = run([os.path.join(HERE, "build", "hysym"), u.bc, e, out] + opts, timeout=limit)
        except subprocess.TimeoutExpired:
            return t, {"fatal": f"engine stopped after {limit} s", "entry": e}, None
        try:
            return t, json.load(open(out)), r
        except Exception as x:
            return t, {"fatal": f"engine ended with {r.returncode}: {r.stderr[-400:]}", "entry": e}, r

    # static constructors of each unit run once per entry; entries are independent processes
    results = list(pool.map(one, tasks))
    known = []
    kf = os.path.join(HERE, "known_findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf)) if k.get("property") == prop and k.get("status") == "known"]

    agg = dict(paths=0, completed=0, instructions=0, asserts=0, assert_queries=0, folded=0, queries=0,
               sat=0, unsat=0, unknown=0, solver_s=0.0)
    functions, stubs, samples, hits = set(), {}, [], {}
    viol, noanswer, notes, known_seen = [], list(nocompile), [], []
    validated = 0
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    for (u, e, _), j, _r in results:
        label = f"{os.path.basename(u.src)}[{u.tag}]:{e}"
        if a.v:
            print(f"{label}: wall {j.get('wall_s', 0):.1f}s solver {j.get('solver_s', 0):.1f}s paths {j.get('paths')}"
                  f" completed {j.get('completed')} asserts {j.get('asserts')} instr {j.get('instructions')}"
                  f" viol {len(j.get('violations', []))} unk {j.get('unknown')} fatal {j.get('fatal')!r}"
                  f" inconcl {j.get('inconclusive')}")
        for k in agg:
            agg[k] += j.get(k, 0)
        functions |= set(j.get("functions", []))
        for k, v in j.get("stubs", {}).items():
            stubs[k] = stubs.get(k, 0) + v
        for k, v in j.get("assert_hits", {}).items():
            hits[k] = hits.get(k, 0) + v
        if j.get("fatal"):
            noanswer.append(f"{label}: {j['fatal']}")
        for i in j.get("inconclusive", []):
            noanswer.append(f"{label}: {i}")
        cands = [(v["kind"], v["msg"], v["where"], v["model"]) for v in j.get("violations", [])]
        if not cands and not j.get("fatal"):
            if not j.get("completed"):
                noanswer.append(f"{label}: the end of the harness is unreachable (vacuous)")
            if not j.get("asserts") and not hits.get("abort reached as demanded"):
                noanswer.append(f"{label}: no assertion was reached (vacuous)")
        for h in j.get("hangs", []) if not any(v[1] == "termination" for v in viol) else []:
            # a path without end: confirmed if the real code does not end (or dies) on its input either
            exe = natf[u].result() if u in natf else compile_native(u, tmp)
            if not exe:
                continue
            code, out, text = native_run(exe, e, h["model"], tmp, "replay.txt")
            if code not in (0, 77, 78):
                path = os.path.join(HERE, "replays", f"{prop}-{u.tag}-{e}-end.txt")
                with open(path, "w") as o:
                    o.write(f"# property {prop}, harness {label}\n# does not end (native exit {code}, 124: stopped after 60 s)\n"
                            f"# at {h['where']}\n" + text)
                viol.append((path, "termination", "the call does not end on this input", h["where"]))
        wit = j.get("witnesses", [])
        if (cands or wit) and not (a.only and not cands):
            exe = natf[u].result() if u in natf else compile_native(u, tmp)
            if not exe:
                noanswer.append(f"{label}: native build failed: {u.err[:1500]}")
                continue
            reproduced = False
            for n, (kind, msg, where, model) in enumerate(cands):
                code, out, text = native_run(exe, e, model, tmp, "replay.txt")
                ok = code not in (0, 77, 78, 124)
                if ok:
                    k = [x for x in known if re.fullmatch(x["entry"], e) and re.search(x["msg"], msg)]
                    if k:
                        known_seen.append((k[0], label, msg))
                    else:
                        path = os.path.join(HERE, "replays", f"{prop}-{u.tag}-{e}-{n}.txt")
                        with open(path, "w") as o:
                            o.write(f"# property {prop}, harness {label}\n# {kind}: {msg}\n# at {where}\n"
                                    f"# replay: build {u.src} natively (see check.py compile_native), run '{e} <this file>'\n")
                            o.write(text)
                            o.write("# native output:\n" + "".join("# " + l + "\n" for l in out.splitlines()[:20]))
                        viol.append((path, kind, msg, where))
                    reproduced = True
                else:
                    noanswer.append(f"{label}: counterexample for '{msg}' ({kind}) did not reproduce natively "
                                    f"(exit {code}: {out[-200:]!r}) model {model[:12]} at {where}")
            for n, w in enumerate(wit):
                code, out, text = native_run(exe, e, w, tmp, "witness.txt")
                if code == 0:
                    validated += 1
                    if len(samples) < 6:
                        samples.append({"harness": label, "inputs": w[:12]})
                elif code in (77, 78):
                    notes.append(f"{label}: witness {n} diverges natively through rounding (exit {code})")
                elif not reproduced:
                    m = re.search(r"VF-FAIL (.*)", out)
                    msg = m.group(1) if m else f"native run ends with {code}: {out[-300:]}"
                    k = [x for x in known if re.fullmatch(x["entry"], e) and re.search(x["msg"], msg)]
                    if k:
                        known_seen.append((k[0], label, msg))
                        continue
                    path = os.path.join(HERE, "replays", f"{prop}-{u.tag}-{e}-w{n}.txt")
                    with open(path, "w") as o:
                        o.write(f"# property {prop}, harness {label} (input produced by the solver as path witness)\n# {msg}\n")
                        o.write(text)
                    viol.append((path, "native", msg, ""))
                    reproduced = True
    pool.shutdown()
    bounds = [b for s in srcs for b in dirs[s]["bounds"]]
    assume = [b for s in srcs for b in dirs[s]["assume"]]
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": agg["paths"], "transitions": agg["instructions"],
            "traces_validated_against_impl": validated,
            "samples": samples or [{"note": "no completed path was replayed"}],
            "entries": len(results), "paths_completed": agg["completed"],
            "assertions_reached": agg["asserts"], "assertion_queries": agg["assert_queries"],
            "assertions_decided_by_constant_folding": agg["folded"],
            "solver_queries": agg["queries"], "unsat": agg["unsat"], "sat": agg["sat"],
            "unknown": agg["unknown"], "solver_seconds": round(agg["solver_s"], 2),
            "functions_encoded": sorted(functions), "bounds": bounds,
            "assertions": hits, "contracts_used": stubs, "exhaustive": False,
            "explanation": "states = symbolic paths, transitions = LLVM instructions executed symbolically",
        },
        "assumptions": assume + [
            "symbolic floating point is exact real arithmetic; concrete floating point is evaluated natively",
            "clang 18 -O1 lowering of the headers; z3 5.3; hysym (engine/)"],
        "wall_s": round(time.time() - t0, 2), "violations": len(viol),
        "notes": notes[:20], "no_answer": noanswer[:20],
    }
    if not a.only:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)
    seen = set()
    for k, label, msg in known_seen:
        if k["id"] not in seen:
            seen.add(k["id"])
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for path, kind, msg, where in viol:
        print(f"{kind}: {msg}\n   at {where}")
        print(f"VIOLATION property={prop} replay={path}")
    print(f"{prop} [{tier}]: {len(results)} entries, {agg['paths']} paths, {agg['asserts']} assertions, "
          f"{agg['queries']} queries ({agg['unsat']} unsat, {agg['sat']} sat, {agg['unknown']} unknown), "
          f"solver {agg['solver_s']:.1f} s, {validated} paths replayed natively, wall {time.time() - t0:.1f} s")
    if viol:
        return 1
    if noanswer:
        for n in noanswer[:20]:
            print("NO ANSWER:", n)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
