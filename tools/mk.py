#!/usr/bin/env python3-vt
"""Writes properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md from vlib/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
sys.dont_write_bytecode = True
from vlib import props, registry
import jsonschema
S = "/root/.vp/"

ps = props.PROPS
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    sch = json.load(open(S + "PROPERTIES.schema.json"))
    for p in ps:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["q"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                         "observe_at": p.get("observe", ["public API of the classes named"]), "hook_needed": None}}
        jsonschema.validate(d, sch)
        for x in p["files"]:
            assert os.path.exists(os.path.join("/repo", x)), x
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for p in ps:
    if p["id"] in registry.CHECKS:
        c = registry.CHECKS[p["id"]]
        checks.append({"property": p["id"], "quick_cmd": "VERIF_TIER=quick python3 check.py " + p["id"],
                       "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + p["id"],
                       "technique": p.get("technique", "TLA+ specification model-checked with TLC; traces recorded from the real code validated against it by TLC"),
                       "level": c.level, "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": p.get("na") or "no check built yet"})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
     "notes": "Everything is decided by TLA+ specifications in spec/ bound to the code by trace validation; see DESIGN.md."}
jsonschema.validate(m, json.load(open(S + "MANIFEST.schema.json")))
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
# design
head = open(os.path.join(V, "tools", "design_head.md")).read()
tail = open(os.path.join(V, "tools", "design_tail.md")).read()
out = [head, "\n## 4. The properties, one by one\n"]
for p in ps:
    out.append("### %s %s\n\n%s\n" % (p["id"], p["title"], p["statement"]))
    if p["id"] in registry.CHECKS:
        c = registry.CHECKS[p["id"]]
        out.append("*Specification:* %s. *Driver(s):* %s. *Quick size:* %s.\n" % (
            ", ".join("`%s`" % x for x in dict.fromkeys([m.module for m in c.mcs] + [q.trace for q in c.parts])),
            ", ".join("`harness/%s.cpp`" % x for x in dict.fromkeys(q.driver for q in c.parts)),
            ", ".join("%d shards x %d events" % (q.shards["quick"], q.size["quick"]) for q in c.parts)))
        out.append(p["design"].strip() + "\n\n*Assurance and limits:* " + p["note"] + "\n")
    else:
        out.append("Not claimed: " + (p.get("na") or "no check built yet") + "\n")
# seeded table
sd = os.path.join(V, "seeded")
rows = []
res = {}
rp = os.path.join(V, "tools", "seeded_results.json")
if os.path.exists(rp):
    res = json.load(open(rp))
for i in sorted(os.listdir(sd)):
    mj = os.path.join(sd, i, "meta.json")
    if os.path.exists(mj):
        d = json.load(open(mj))
        rows.append("| %s | %s | %s | %s |" % (i, d["property"], d["what_it_breaks"].replace("|", "/"), res.get(i, "not run")))
out.append(tail.replace("@SEEDED@", "| bug | property | what it breaks | result |\n|---|---|---|---|\n" + "\n".join(rows)))
open(os.path.join(V, "DESIGN.md"), "w").write("\n".join(out))
print("%d properties, %d checks, %d not applicable, %d seeded" % (len(ps), len(checks), len(na), len(rows)))
