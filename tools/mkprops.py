#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "scantool/"
P = []
def prop(id, title, statement, over, text, why, files, mech, note, tech=None, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  note=note, tech=tech, state=state, observe=observe))

exec(open(os.path.join(V, "tools", "props_table.py")).read())

NA = globals().get("NOT_APPLICABLE", {})
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["text"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": [S + x for x in p["files"]],
                         "mechanism": [{"name": n, "where": S + w} for n, w in p["mech"]]}}
        if p["state"]:
            d["anchors"]["state"] = [{"name": a, "meaning": b, "where": S + w} for a, b, w in p["state"]]
        if p["observe"]:
            d["anchors"]["observe_at"] = p["observe"]
        d["anchors"]["hook_needed"] = None
        f.write(json.dumps(d) + "\n")
import glob
checks = []
na = []
for p in P:
    if p["id"] in NA:
        na.append({"property": p["id"], "reason": NA[p["id"]]})
        continue
    if not (glob.glob(os.path.join(V, "harness", p["id"] + ".cpp")) + glob.glob(os.path.join(V, "harness", p["id"] + "_*.cpp"))):
        na.append({"property": p["id"], "reason": "check not built yet"})
        continue
    checks.append({"property": p["id"], "quick_cmd": "python3 check.py run " + p["id"],
                   "thorough_cmd": "python3 check.py run " + p["id"],
                   "technique": p["tech"] or "property-based testing: coverage-guided choice-sequence generation with shrinking against a reference model, in virtual time, under ASan/UBSan",
                   "level": "exploration", "level_note": p["note"]})
json.dump({"version": 1, "setup_cmd": "python3 check.py build", "checks": checks, "not_applicable": na},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
