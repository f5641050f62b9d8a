#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run after editing the table)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
I = "include/HyperHDG/"
TECH = "symbolic execution of the compiled headers (LLVM IR) with SMT (z3), counterexamples replayed natively"
NOTE = ("Every path of every harness entry is explored and each assertion is decided by the solver for all values within the bounds; "
        "trusts clang -O1, z3, the engine and exact real arithmetic for symbolic reals. ")
PYTECH = "symbolic execution of the Python source with SMT (z3): symbolic file times and choices, counterexamples replayed with real files"
PYNOTE = ("Every path of every scenario is explored; branches on symbolic values and assertions are decided by z3 for all values within "
          "the bounds. Trusts the Python interpreter, z3 and the stand-ins. ")
P, NA = [], []


def prop(id, title, statement, over, text, why, files, mech, note="", na=None, py=False):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=[f if os.path.exists("/repo/" + f) else I + f for f in files],
                               mechanism=[dict(name=n, where=w) for n, w in mech])))
    assert len(title) <= 80, (id, len(title))
    if na:
        NA.append(dict(property=id, reason=na))
    else:
        CH.append(dict(property=id, quick_cmd=f"python3 check.py {id}", thorough_cmd=f"python3 check.py {id} --tier thorough",
                       technique=PYTECH if py else TECH, level="model_checking",
                       level_note=(PYNOTE if py else NOTE) + note))


CH = []
exec(open(os.path.join(HERE, "tools", "properties_table.py")).read())
with open(os.path.join(HERE, "properties.jsonl"), "w") as o:
    for p in P:
        o.write(json.dumps(p) + "\n")
json.dump(dict(version=1, setup_cmd="bash engine/build.sh", checks=CH, not_applicable=NA,
               notes="Checks take /repo's headers from its working tree on every run; VERIF_REPO overrides the path for experiments."),
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
