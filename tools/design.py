#!/usr/bin/env python3
"""fills DESIGN.md from tools/DESIGN.in"""
import json, glob, re, os
V = "/verif/"
s = open(V + "tools/DESIGN.in").read()
props = [json.loads(l) for l in open(V + "properties.jsonl")]
man = json.load(open(V + "MANIFEST.json"))
na = {x["property"]: x["reason"] for x in man["not_applicable"]}
t = []
for p in props:
    if p["id"] in na: continue
    t.append("### %s %s\n" % (p["id"], p["title"]))
    t.append(p["statement"] + "\n")
    note = [c for c in man["checks"] if c["property"] == p["id"]][0]["level_note"].split(" Exhaustive within")[0]
    t.append("Decision: " + note + " Oracle: the ideal model in the harness. Beyond the tests because " + p["why_tests_cant"][0].lower() + p["why_tests_cant"][1:] + "\n")
    for h in sorted(glob.glob(V + "harness/" + p["id"] + "_*.c")):
        src = open(h).read()
        b = "; ".join(re.findall(r"//@ bounds (.*)", src)); o = "; ".join(re.findall(r"//@ outside (.*)", src))
        t.append("* `%s`: %s. Outside: %s." % (os.path.basename(h), b, o or "nothing more"))
    t.append("")
s = s.replace("@TABLE@", "\n".join(t))
s = s.replace("@NA@", "\n".join("* %s (%s): %s" % (i, [p["title"] for p in props if p["id"] == i][0], r) for i, r in na.items()) or "None so far.")
k = json.load(open(V + "known_findings.json"))
s = s.replace("@FIXED@", "\n".join("* " + x[7:] for x in k["fixed"]))
s = s.replace("@FINDINGS@", ("Recorded, not repaired (`known_findings.json`):\n\n" + "\n".join("* %s, property %s: %s. %s" % (x["id"], x["property"], x["what"], x.get("why_not_fixed", "")) for x in k["findings"])) if k["findings"] else "None is left unrepaired.")
sd = []
res = {}
if os.path.exists(V + "tools/seed_results.json"): res = json.load(open(V + "tools/seed_results.json"))
for d in sorted(glob.glob(V + "seeded/*/meta.json")):
    m = json.load(open(d)); i = d.split("/")[-2]
    sd.append("* %s (%s): %s; needs %s. %s" % (i, m["property"], m["what_it_breaks"], m["needs"], res.get(i, "")))
s = s.replace("@SEEDS@", "\n".join(sd))
ex = V + "tools/design_extra.json"
e = json.load(open(ex)) if os.path.exists(ex) else {}
s = s.replace("@MISSED@", e.get("missed", "")).replace("@FALSE@", e.get("false", ""))
open(V + "DESIGN.md", "w").write(s)
