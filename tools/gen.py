#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the property list below (docs only; no check reads this)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None, note=None, na=None, technique=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, observe=observe or [], state=state or [], note=note, na=na, technique=technique))


exec(open(V + "/tools/props.py").read())
with open(V + "/properties.jsonl", "w") as f:
    for p in P:
        a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}
        if p["observe"]:
            a["observe_at"] = p["observe"]
        if p["state"]:
            a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
M = {"version": 1, "setup_cmd": "python3 run.py --setup", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: harnesses drive the public functions of /repo's own sources, compiled to LLVM IR on every run. See DESIGN.md."}
for p in P:
    if p["na"]:
        M["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        M["checks"].append({"property": p["id"], "quick_cmd": "VERIF_TIER=quick python3 run.py " + p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + p["id"],
                            "technique": p["technique"] or "symbolic execution of the real code's LLVM IR, assertions decided by z3",
                            "level": "model_checking",
                            "level_note": (p["note"] or "") + " Exhaustive within the bounds stated in the harness and repeated in the evidence, nothing beyond them. Trusted: clang's IR, engine/ (cross-checked by replaying sampled paths natively under AddressSanitizer), rt/models.c for libc, z3; allocation never fails."})
json.dump(M, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
