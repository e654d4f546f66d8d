#!/usr/bin/env python3
"""mkbug.py <id> <property> <needs> <what> <demo.py|demo.cpp> FILE OLD NEW [FILE OLD NEW ...]: writes seeded/<id> (patch against /repo HEAD)."""
import json, os, subprocess, sys, shutil
i, prop, needs, what, demo = sys.argv[1:6]
edits = sys.argv[6:]
d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "seeded", i)
os.makedirs(d, exist_ok=True)
assert subprocess.run(["git", "-C", "/repo", "diff", "--quiet"]).returncode == 0
try:
    for k in range(0, len(edits), 3):
        p = "/repo/" + edits[k]
        s = open(p, newline="").read()
        old, new = edits[k + 1], edits[k + 2]
        if "\r\n" in s:
            old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
        assert s.count(old) == 1, (edits[k], s.count(old))
        open(p, "w", newline="").write(s.replace(old, new))
    open(d + "/patch.diff", "wb").write(subprocess.run(["git", "-C", "/repo", "diff"], capture_output=True).stdout)
finally:
    subprocess.run(["git", "-C", "/repo", "checkout", "--", "."])
json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
if demo.endswith(".py"):
    shutil.copy(demo, d + "/demo.py")
    open(d + "/demo.sh", "w").write('#!/bin/bash\nPYTHONPATH=/repo exec /opt/vp/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
else:
    shutil.copy(demo, d + "/demo.cpp")
    open(d + "/demo.sh", "w").write('#!/bin/bash\nset -e\nW=$(mktemp -d)\ntrap \'rm -rf "$W"\' EXIT\nH="$(cd "$(dirname "$0")" && pwd)"\n'
        'mkdir "$W/o"\nfind /repo/src -name "*.cpp" ! -name main.cpp ! -name bindings.cpp | xargs -P 8 -I{} sh -c \'g++ -std=c++17 -O1 -w -I/repo/include -c "$1" -o "$2/o/$(echo "$1" | tr / _).o"\' _ {} "$W"\n'
        'g++ -std=c++17 -O1 -w -I/repo/include "$H/demo.cpp" "$W"/o/*.o -o "$W/demo"\n"$W/demo"\n')
os.chmod(d + "/demo.sh", 0o755)
