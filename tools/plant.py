#!/usr/bin/env python3
"""plant.py SPEC...: writes seeded/<id>/ from a spec file (python: id, prop, needs, breaks, edits=[(file, old, new)], demo).
Applies the edits to /repo, records the diff, and puts /repo back."""
import json, os, subprocess, sys
V = "/verif"
def sh(c): return subprocess.run(c, shell=True, capture_output=True, text=True)
for f in sys.argv[1:]:
    ns = {}; exec(open(f).read(), ns)
    assert not sh("git -C /repo status --porcelain").stdout, "dirty /repo"
    d = f"{V}/seeded/{ns['id']}"; os.makedirs(d, exist_ok=True)
    try:
        for path, old, new in ns["edits"]:
            p = "/repo/" + path; s = open(p).read()
            assert s.count(old) == 1, (path, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        open(d + "/patch.diff", "w").write(sh("git -C /repo diff").stdout)
    finally: sh("git -C /repo checkout -- .")
    open(d + "/demo.cpp", "w").write(ns["demo"])
    sh(f"cp {V}/tools/demo.sh {d}/demo.sh; chmod +x {d}/demo.sh")
    json.dump({"property": ns["prop"], "needs": ns["needs"], "what_it_breaks": ns["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print("planted", ns["id"])
