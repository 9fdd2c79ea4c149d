#!/usr/bin/env python3
import json, os
from props import PL, NA
from registry import PROPS
H = os.path.dirname(os.path.abspath(__file__)); na = dict(NA)
TECH = "symbolic execution of the real code's LLVM IR, decided by an SMT solver (Z3 bit-vectors), counterexamples replayed natively"
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for p in PL:
        a = dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], hook_needed=None)
        if p["observe"]: a["observe_at"] = p["observe"]
        if p["state"]: a["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in p["state"]]
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"], anchors=a)) + "\n")
checks = []
for p in PL:
    if p["id"] in na: continue
    b = "; ".join(sorted({e["bounds"] for e in PROPS[p["id"]]["entries"] if e["bounds"]}))
    checks.append(dict(property=p["id"], quick_cmd="python3 run.py %s --tier quick" % p["id"], thorough_cmd="python3 run.py %s --tier thorough" % p["id"], evidence_file="evidence/%s.json" % p["id"], technique=TECH, level="model_checking",
        level_note=p["note"] + " Bounds: " + b + ". Trusted: clang -O1 lowering, the engine's libc/libstdc++ models (path witnesses are replayed against a g++ -O2 ASAN build)."))
assert {c["property"] for c in checks} == set(PROPS), {c["property"] for c in checks} ^ set(PROPS)
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=[dict(property=i, reason=r) for i, r in NA], notes="No hooks in /repo. Genuine defects found are repaired by fix: commits and listed in known_findings.txt."), open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
