#!/usr/bin/env python3
"""Writes properties.jsonl, bin/checks.json and MANIFEST.json."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import P
try:
    from props import NA
except ImportError:
    NA = []
checks, lines, man = {}, [], []
for p in P + NA:
    a = {"files": p["files"], "mechanism": p["mech"], "hook_needed": None}
    if p["state"]:
        a["state"] = p["state"]
    if p["observe"]:
        a["observe_at"] = p["observe"]
    assert len(p["title"]) <= 80, p["title"]
    lines.append(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                             "quantifier": {"over": p["over"], "text": p["text"]},
                             "why_tests_cant": p["why"], "anchors": a}))
    for f in p["files"]:
        assert os.path.exists("/repo/" + f), (p["id"], f)
for p in P:
    c = {k: p[k] for k in ("more", "fuzz", "tools") if p[k]}
    if p["assume"]:
        c["assumptions"] = p["assume"]
    if p["limit"]:
        c["thorough_limit"] = p["limit"]
    checks[p["id"]] = c
    man.append({"property": p["id"], "quick_cmd": f"python3 bin/check.py {p['id']} quick",
                "thorough_cmd": f"python3 bin/check.py {p['id']} thorough",
                "evidence_file": f"evidence/{p['id']}.json", "technique": p["tech"],
                "level": "exploration", "level_note": p["note"]})
open(f"{V}/properties.jsonl", "w").write("\n".join(lines) + "\n")
json.dump(checks, open(f"{V}/bin/checks.json", "w"), indent=1)
m = {"version": 1, "setup_cmd": "bash bin/setup.sh", "checks": man,
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA]}
json.dump(m, open(f"{V}/MANIFEST.json", "w"), indent=1)
import subprocess
code = f"""
import json, jsonschema
jsonschema.validate(json.load(open('{V}/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open('{V}/properties.jsonl'): jsonschema.validate(json.loads(l), s)
print('schemas ok')
"""
if os.path.exists("/root/.vp/MANIFEST.schema.json"):
    subprocess.run(["python3-vt", "-c", code])
