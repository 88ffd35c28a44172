#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, level_note="", technique=None, claim=True, reason=None):
    p = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": False}}
    if state: p["anchors"]["state"] = state
    if observe: p["anchors"]["observe_at"] = observe
    PROPS.append((p, level_note, technique, claim, reason))
exec(open(os.path.join(V, "tools", "props.py")).read())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p, *_ in PROPS:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
checks, na = [], []
for p, note, tech, claim, reason in PROPS:
    if not claim:
        na.append({"property": p["id"], "reason": reason}); continue
    checks.append({"property": p["id"], "quick_cmd": f"./check.sh {p['id']} quick", "thorough_cmd": f"./check.sh {p['id']} thorough",
                   "technique": tech or "deterministic simulation with fault injection: seeded search over ceremonies, histories, schedules and faults against the real driver code, judged by an independent executable reference model",
                   "level": "exploration", "level_note": note})
m = {"version": 1, "setup_cmd": "./setup.sh", "hooks": {"guard": "none", "enable": "", "source_commits": []}, "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(V, "MANIFEST.json"), "a").write("\n")

# the table of planted bugs in DESIGN.md
import glob, re
rows = []
for d in sorted(glob.glob(os.path.join(V, "seeded", "B*"))):
    x = json.load(open(os.path.join(d, "meta.json")))
    rows.append("| %s | %s | %s | %s | %s |" % (os.path.basename(d), x["property"], x["needs"], x.get("caught_by", x["property"]), x["what_it_breaks"]))
if rows:
    p = os.path.join(V, "DESIGN.md")
    s = open(p).read()
    s = re.sub(r"(?s)<!-- bugs -->.*?<!-- /bugs -->", lambda _: "<!-- bugs -->\n" + "\n".join(rows) + "\n<!-- /bugs -->", s)
    open(p, "w").write(s)
