#!/usr/bin/env python3
"""mkbug.py SPECFILE: creates seeded/<id>/ from a spec (python dict file) and confirms its demonstration
in a scratch copy of /repo's include directory.  Spec keys: id, property, file, edits=[(old,new)...], needs, what, demo."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0 if the property holds for the demonstrated input
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
g++ -std=c++20 -w %s -I"$PWD/include" -I"$d" "$d/demo.cxx" -o "$t/demo" -llapack -lblas || exit 2
cd "$t" && mkdir -p output domains && ./demo
'''
for f in sys.argv[1:]:
    s = eval(open(f).read())
    d = os.path.join(HERE, "seeded", s["id"])
    t = tempfile.mkdtemp()
    try:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
        subprocess.check_call(f"git -C /repo archive HEAD | tar x -C {t} && cd {t} && git init -q . && git add -A -f . && git -c user.name=x -c user.email=x commit -qm base", shell=True)
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        for edit in s["edits"]:
            fn, old, new = edit if len(edit) == 3 else (s["file"],) + tuple(edit)
            p = os.path.join(t, fn)
            x = open(p).read()
            n = x.count(old)
            assert n == 1, (s["id"], "occurrences", n, old)
            open(p, "w").write(x.replace(old, new))
        diff = subprocess.check_output(["git", "-C", t, "diff"], text=True)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        if "demo_sh" in s:
            open(os.path.join(d, "demo.sh"), "w").write(s["demo_sh"])
        else:
            open(os.path.join(d, "demo.sh"), "w").write(DEMO % s.get("flags", ""))
        for k, v in s.get("files", {}).items():
            os.makedirs(os.path.dirname(os.path.join(d, k)) or d, exist_ok=True)
            open(os.path.join(d, k), "w").write(v)
        if "demo" in s:
            open(os.path.join(d, "demo.cxx"), "w").write(s["demo"])
        json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["what"]), open(os.path.join(d, "meta.json"), "w"), indent=1)
        a = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd="/repo").returncode
        b = subprocess.run(["bash", os.path.join(d, "demo.sh")], cwd=t).returncode
        print(s["id"], "clean", a, "patched", b, "OK" if a == 0 and b not in (0, 2) else "BAD")
    finally:
        shutil.rmtree(t, ignore_errors=True)
