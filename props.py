#!/usr/bin/env python3
"""Single source for properties.jsonl, MANIFEST.json and harness/meta.json:  python3 props.py"""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
P, NA = [], []
def prop(id, title, statement, over, text, why, files, mech, level="proof", note="", trusted=(), na=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], **({"observe_at": observe} if observe else {})}})
    P[-1]["_"] = dict(level=level, note=note, trusted=list(trusted), na=na)
exec(open(V + "/props_data.py").read())
TECH = "contract-based deductive verification: contracts and invariants in harness/{0}*.cpp, obligations generated from the LLVM IR of /repo's current sources by engine/ (path-wise symbolic execution with inductive loop invariants) and discharged by z3"
def main():
    with open(V + "/properties.jsonl", "w") as f:
        for p in P: f.write(json.dumps({k: v for k, v in p.items() if k != "_"}) + "\n")
    checks, na, meta = [], [], {}
    for p in P:
        m, i = p["_"], p["id"]
        if m["na"]: na.append({"property": i, "reason": m["na"]}); continue
        checks.append({"property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --thorough", "technique": TECH.format(i), "level": m["level"], "level_note": m["note"]})
        meta[i] = {"level": m["level"], "trusted": m["trusted"]}
    json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
               "notes": "No hooks in /repo: harnesses are compiled together with the unmodified sources. See DESIGN.md."}, open(V + "/MANIFEST.json", "w"), indent=1)
    json.dump(meta, open(V + "/harness/meta.json", "w"), indent=1)
main()
