"""Runs all scenarios of jit.py for one property and writes the evidence."""
import json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
TOP = os.path.dirname(HERE)
PY = shutil.which("python3-vt") or "/opt/veriftools/pyvenv/bin/python3"


def decide(prop, tier, seed, a, t0, script="jit.py"):
    repo = os.environ.get("VERIF_REPO", "/repo")
    script = os.path.join(HERE, script)
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1")
    r = subprocess.run([PY, script, "--list"], capture_output=True, text=True, env=env)
    if r.returncode:
        print("NO ANSWER: " + r.stderr[-2000:])
        return 2
    scen = {k: v for k, v in json.loads(r.stdout).items() if v["tier"] == "quick" or tier == "thorough"}
    if a.only:
        scen = {k: v for k, v in scen.items() if re.search(a.only, k)}
    tmp = tempfile.mkdtemp(prefix=f"{prop}-", dir=os.path.join(TOP, "build"))
    known = []
    kf = os.path.join(TOP, "known_findings.json")
    if os.path.exists(kf):
        known = [k for k in json.load(open(kf)) if k.get("property") == prop and k.get("status") == "known"]
    limit = 3000 if tier == "thorough" else 400

    def cmd(n, *x):
        return [PY] + (["-O"] if scen[n]["opt"] else []) + [script, n, "--repo", repo] + list(x)

    def one(n):
        out = os.path.join(tmp, n + ".json")
        try:
            r = subprocess.run(cmd(n, "--out", out, "--tier", tier, "--limit", str(limit)), capture_output=True, text=True,
                               timeout=limit + 200, env=env, stdin=subprocess.DEVNULL)
            return n, json.load(open(out))
        except subprocess.TimeoutExpired:
            return n, {"fatal": f"stopped after {limit + 200} s"}
        except Exception as x:
            return n, {"fatal": f"ended with {r.returncode}: {r.stderr[-1500:]}"}

    def again(n, model, name):
        f = os.path.join(tmp, name)
        json.dump(model, open(f, "w"))
        r = subprocess.run(cmd(n, "--replay", f), capture_output=True, text=True, timeout=300, env=env,
                           stdin=subprocess.DEVNULL)
        return r.returncode, r.stdout + r.stderr[-1500:]

    agg = dict(paths=0, completed=0, instructions=0, asserts=0, assert_queries=0, folded=0, queries=0, sat=0, unsat=0,
               unknown=0, solver_s=0.0)
    viol, noanswer, seen_known, hits, functions, samples, validated = [], [], [], {}, set(), [], 0
    try:
        with ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8"))) as pool:
            results = list(pool.map(one, sorted(scen, key=lambda n: -scen[n].get("weight", 1))))
            os.makedirs(os.path.join(TOP, "replays"), exist_ok=True)
            for n, j in results:
                if a.v:
                    print(n, {k: j.get(k) for k in ("paths", "completed", "asserts", "queries", "wall_s", "fatal")})
                for k in agg:
                    agg[k] += j.get(k, 0)
                for k, v in j.get("assert_hits", {}).items():
                    hits[k] = hits.get(k, 0) + v
                functions |= set(j.get("functions", []))
                noanswer += [f"{n}: {x}" for x in j.get("inconclusive", []) + ([j["fatal"]] if j.get("fatal") else [])]
                if not j.get("violations") and not j.get("fatal") and not (j.get("completed") and j.get("asserts")):
                    noanswer.append(f"{n}: no path was completed (vacuous)")
                for i, v in enumerate(j.get("violations", [])):
                    code, out = again(n, v["model"], f"{n}.{i}.model")
                    if code != 1:
                        noanswer.append(f"{n}: counterexample for '{v['msg']}' did not reproduce ({code}: {out[-300:]}) {v}")
                        continue
                    k = [x for x in known if re.fullmatch(x["entry"], n) and re.search(x["msg"], v["msg"])]
                    if k:
                        seen_known.append(k[0])
                        continue
                    path = os.path.join(TOP, "replays", f"{prop}-{n}-{i}.txt")
                    with open(path, "w") as o:
                        o.write(f"# property {prop}, scenario {n}: {v['msg']}\n# steps, tools called, exceptions: {json.dumps(v['trace'])}\n"
                                f"# replay: {' '.join(cmd(n, '--replay', path))}\n")
                        o.write(json.dumps(v["model"]) + "\n")
                        o.write("".join("# " + l + "\n" for l in out.splitlines()[:20]))
                    viol.append((path, f"{n}: {v['msg']}"))

            def wit(t):
                n, i, m = t
                return n, m, again(n, m, f"{n}.w{i}.model")
            jobs = [(n, i, m) for n, j in results for i, m in enumerate(j.get("witnesses", [])[:6]) if not j.get("violations")]
            for n, m, (code, out) in pool.map(wit, jobs):
                if code == 0:
                    validated += 1
                    if len(samples) < 6:
                        samples.append({"scenario": n, "history": m})
                elif code == 1:
                    path = os.path.join(TOP, "replays", f"{prop}-{n}-w.txt")
                    with open(path, "w") as o:
                        o.write(f"# property {prop}, scenario {n} (path witness)\n{json.dumps(m)}\n")
                        o.write("".join("# " + l + "\n" for l in out.splitlines()[:20]))
                    viol.append((path, f"{n}: {out.strip()[:300]}"))
                else:
                    noanswer.append(f"{n}: replay ended with {code}: {out[-400:]}")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    ev = {
        "property": prop, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": agg["paths"], "transitions": agg["instructions"], "traces_validated_against_impl": validated,
            "samples": samples or [{"note": "no completed path was replayed"}],
            "entries": len(results), "paths_completed": agg["completed"], "assertions_reached": agg["asserts"],
            "assertion_queries": agg["assert_queries"], "assertions_decided_by_constant_folding": agg["folded"],
            "solver_queries": agg["queries"], "unsat": agg["unsat"], "sat": agg["sat"], "unknown": agg["unknown"],
            "solver_seconds": round(agg["solver_s"], 2), "functions_encoded": sorted(functions),
            "bounds": [f"{n}: {v['bounds']}" for n, v in sorted(scen.items())], "assertions": hits, "exhaustive": False,
            "explanation": "states = symbolic paths (histories), transitions = calls of the code under test on them"},
        "assumptions": ["stand-ins as described in DESIGN.md; the Python code itself is executed unchanged",
                        "z3 " + "(python3-vt)"],
        "wall_s": round(time.time() - t0, 2), "violations": len(viol), "no_answer": noanswer[:20]}
    if not a.only:
        os.makedirs(os.path.join(TOP, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(TOP, "evidence", prop + ".json"), "w"), indent=1)
    for k in {x["id"]: x for x in seen_known}.values():
        print(f"KNOWN-FINDING: property={prop} {k['what']}")
    for path, msg in viol:
        print(msg)
        print(f"VIOLATION property={prop} replay={path}")
    print(f"{prop} [{tier}]: {len(results)} scenarios, {agg['paths']} paths, {agg['asserts']} assertions, {agg['queries']} "
          f"queries ({agg['unsat']} unsat, {agg['sat']} sat), solver {agg['solver_s']:.1f} s, {validated} paths replayed, "
          f"wall {time.time() - t0:.1f} s")
    if viol:
        return 1
    for n in noanswer[:20]:
        print("NO ANSWER:", n)
    return 2 if noanswer else 0
