#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from tool/props.py; a property is claimed when rules/<id>.py exists"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, "tool"))
from props import P
checks, na = [], []
with open(os.path.join(H, "properties.jsonl"), "w") as f:
    for q in P:
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
        d = {"id": q["id"], "title": q["title"], "statement": q["statement"], "quantifier": {"over": q["over"], "text": q["text"]},
             "why_tests_cant": q["why"], "anchors": {"files": q["files"], "mechanism": [{"name": a, "where": "src/include/" + b} for a, b in q["mech"]]}}
        if q["state"]: d["anchors"]["state"] = [{"name": s.strip()} for s in q["state"].split(",")]
        if q["observe"]: d["anchors"]["observe_at"] = [q["observe"]]
        f.write(json.dumps(d) + "\n")
        if os.path.exists(os.path.join(H, "rules", q["id"].lower() + ".py")):
            checks.append({"property": q["id"], "quick_cmd": "python3 check.py %s quick" % q["id"], "thorough_cmd": "python3 check.py %s thorough" % q["id"],
                           "technique": "static analysis: " + q["technique"], "level": "other",
                           "level_note": q["note"] or "decided from the LLVM IR of /repo's current sources, for every path of the analysed functions; assumptions are in the evidence file and DESIGN.md"})
        else: na.append({"property": q["id"], "reason": q["na"] or "no check built for it yet"})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
import jsonschema
S = json.load(open("/root/.vp/MANIFEST.schema.json")); jsonschema.validate(m, S)
S = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for l in open(os.path.join(H, "properties.jsonl")): jsonschema.validate(json.loads(l), S)
print(len(checks), "claimed,", len(na), "not applicable")

# DESIGN.md
sys.path[:0] = [os.path.join(H, "lib"), os.path.join(H, "rules")]
import importlib, glob
def rd(n): return open(os.path.join(H, "tool", n)).read()
out = [rd("design_head.md")]
for q in P:
    out.append("### %s %s\n" % (q["id"], q["title"]))
    if not os.path.exists(os.path.join(H, "rules", q["id"].lower() + ".py")):
        out.append("*Not applicable / not claimed*: %s.\n" % (q["na"] or "no check built for it yet")); continue
    r = importlib.import_module(q["id"].lower())
    a = r.ASSUMPTIONS if not isinstance(r.ASSUMPTIONS, str) else [r.ASSUMPTIONS]
    out.append("*How*: %s\n\n*Rule*: `%s`\n" % (r.EXPLANATION, r.RULE.replace("`", "'")))
    if a: out.append("*Assumed*: " + "; ".join(a) + ".\n")
    out.append("*Why tests cannot*: %s\n" % q["why"])
out.append("## 3. Planted bugs\n\nEach was validated (`tool/seed.sh`): builds, the existing tests pass, its demonstration fails with it and passes without.\n\n| seed | property | needs | caught by |\n|---|---|---|---|")
C = {}
for l in open(os.path.join(H, "tool", "caught.txt")):
    if l.strip(): a, b = l.split(None, 1); C[a] = b.strip()
for d in sorted(glob.glob(os.path.join(H, "seeded", "*"))):
    mj = json.load(open(d + "/meta.json")); n = os.path.basename(d)
    out.append("| %s | %s | %s | %s |" % (n, mj["property"], mj["needs"].replace("|", "/"), C.get(n, "?")))
out.append("\n" + rd("design_tail.md"))
open(os.path.join(H, "DESIGN.md"), "w").write("\n".join(out))
