"""Stand-in for cython, compiler and linker: tool.py cython|cxx|ld ARGS.
What it writes is a record (json) of everything that went into the result; VF_FAIL names the tool that fails, VF_STEP
the step of the history, VF_LOG a file that lists the calls."""
import json, os, re, sys
kind, args = sys.argv[1], sys.argv[2:]
with open(os.environ["VF_LOG"], "a") as f:
    f.write(json.dumps([int(os.environ["VF_STEP"]), kind, args]) + "\n")
if os.environ.get("VF_FAIL") == kind:
    sys.exit(1)
def read(p):
    with open(p) as f:
        return f.read()
def output():
    return args[args.index("-o") + 1] if "-o" in args else None
if kind == "cython":
    src = [a for a in args if a.endswith(".pyx")][0]
    out = output() or src[:-4] + ".cpp"
    rec = dict(pyx=read(src), pxd=read(src[:-4] + ".pxd"), cython_args=args)
elif kind == "cxx":
    src = [a for a in args if a.endswith(".cpp")][0]
    out = output()
    rec = json.loads(read(src))
    dirs = [a[2:] for a in args if a.startswith("-I") and len(a) > 2]
    files = {}
    def add(name, here=None):
        if here and os.path.isfile(os.path.join(here, name)):
            p = os.path.join(here, name)
        elif os.path.isabs(name):
            p = name
        else:
            p = next((os.path.join(d, name) for d in dirs if os.path.isfile(os.path.join(d, name))), None)
        if p is None or not os.path.isfile(p):
            sys.stderr.write("no such file: " + name + "\n")
            sys.exit(1)
        p = os.path.realpath(p)
        if p in files:
            return
        files[p] = text = read(p)
        for m in re.finditer(r'^[ \t]*#[ \t]*include[ \t]*([<"])([^>"\n]*)[>"]', text, re.M):
            n = m.group(2)
            if n.startswith("HyperHDG/") or m.group(1) == '"':
                add(n, os.path.dirname(p) if m.group(1) == '"' else None)
    for m in re.finditer(r'cdef extern from "<?([^">\n]*)>?"', rec["pyx"] + "\n" + rec["pxd"]):
        if not m.group(1).startswith("lib"):
            add(m.group(1)) if "/" in m.group(1) or m.group(1).endswith(".hxx") else None
    rec.update(files=files, cxx_args=args)
elif kind == "ld":
    src = [a for a in args if a.endswith(".o")][0]
    out = output()
    rec = json.loads(read(src))
    rec.update(ld_args=args)
rec["step"] = int(os.environ["VF_STEP"])
text = json.dumps(rec)
if kind == "ld":
    name = os.path.basename(out)[:-3]
    text = "record = %r\nclass %s:\n  record = record\n" % (text, name)
with open(out, "w") as f:
    f.write(text)
