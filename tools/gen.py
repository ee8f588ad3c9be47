#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from meta.py and props.py."""
import sys, os, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, V)
import meta, props
for p, m in meta.META.items():
    assert len(m["title"]) <= 80, (p, len(m["title"]))
    for f in m["files"]: assert os.path.exists("/repo/" + f), (p, f)
with open(V + "/properties.jsonl", "w") as o:
    for p, m in meta.META.items():
        a = dict(files=m["files"], mechanism=[dict(name=n, where=w) for n, w in m["mech"]])
        if m.get("state"): a["state"] = [dict(name=n, meaning=x, where=w) for n, x, w in m["state"]]
        o.write(json.dumps(dict(id=p, title=m["title"], statement=m["statement"], quantifier=dict(over=m["over"], text=m["qtext"]), why_tests_cant=m["why"], anchors=a)) + "\n")
checks = []
for p in meta.META:
    if p in meta.NA: continue
    P = props.PROPS[p]
    b = "; ".join(dict.fromkeys(props.bounds(r, "quick") for r in P["runs"]))
    checks.append(dict(property=p, quick_cmd=f"python3 check.py {p} quick", thorough_cmd=f"python3 check.py {p} thorough", technique="symbolic execution of the compiled LLVM IR of the real sources with Z3, replayed on the real build",
        level="model_checking", level_note=("Bounded: " + b + ". " + " ".join(P.get("assumptions", [])))[:1500]))
json.dump(dict(version=1, setup_cmd="python3 check.py --setup", checks=checks, not_applicable=[dict(property=p, reason=r) for p, r in meta.NA.items()]), open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(meta.NA), "not applicable")
