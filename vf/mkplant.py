#!/usr/bin/env python3
"""Write /verif/seeded/<id>/ from vf/plants/*.py (development tool; no check uses it).
Each plant: P(id, property, file, old, new, needs, breaks, demo) with demo = C++ text."""
import os, sys, glob, json, difflib, subprocess
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# exit 0 when the behaviour is right, nonzero when it is broken; cwd is /repo after a build
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
INC=$(find core/lib ext/lib -type d -printf '-I%p ')
g++ -std=c++11 -w -O0 -o "$T/demo" "$D/demo.cpp" -I_build/generated $INC -L_build -lgpstk -Wl,-rpath,/repo/_build || exit 3
cd "$T" && timeout 120 ./demo
'''
def P(id, prop, file, old, new, needs, breaks, demo):
    if len(sys.argv) > 1 and id not in sys.argv[1:]: return
    edits = old if isinstance(old, list) else [(file, old, new)]
    diff = ""
    byf = {}
    for f, o, n in edits: byf.setdefault(f, []).append((o, n))
    for f, es in byf.items():
        s = open("/repo/" + f, encoding="latin-1", newline="").read(); t = s
        for o, n in es:
            if "\r\n" in s: o, n = o.replace("\n", "\r\n"), n.replace("\n", "\r\n")
            assert t.count(o) == 1, (id, f, t.count(o), o)
            t = t.replace(o, n)
        diff += "".join(l if l.endswith("\n") else l + "\n\\ No newline at end of file\n" for l in
            difflib.unified_diff(s.splitlines(True) if "\r" not in s else s.split("\n") and [x + "\n" for x in s.split("\n")[:-1]], [x + "\n" for x in t.split("\n")[:-1]] if "\r" in t else t.splitlines(True), "a/" + f, "b/" + f))
    for f in byf:
        orig = set(subprocess.run(["git", "-C", "/repo", "show", "f2e4d57:" + f], capture_output=True).stdout.decode("latin-1").splitlines())
        for l in diff.splitlines():
            if l.startswith("-") and not l.startswith("---") and l[1:] not in orig and l[1:].rstrip("\r") not in orig: print("NOT ORIGINAL", id, l)
    d = H + "/seeded/" + id; os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w", encoding="latin-1", newline="").write(diff)
    open(d + "/demo.cpp", "w").write(demo.lstrip("\n")); open(d + "/demo.sh", "w").write(DEMO); os.chmod(d + "/demo.sh", 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    r = subprocess.run(["git", "-C", "/repo", "apply", "--check", d + "/patch.diff"], capture_output=True, text=True)
    print(id, "ok" if r.returncode == 0 else r.stderr)
for f in sorted(glob.glob(H + "/vf/plants/*.py")): exec(compile(open(f).read(), f, "exec"))
