"""Writes DESIGN.md from DESIGN.in.md: tables from props.py, known-findings.json, seeded/ and the last statistics in build/."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(os.path.dirname(H))
sys.path.insert(0, H)
import props
t = open(f"{H}/DESIGN.in.md").read()
rows = []
for p in sorted(props.P, key=lambda p: p["id"]):
    subs = []
    for d in [p["id"]] + p["more"]:
        f = f"{V}/build/{d}.stats.json"
        if os.path.exists(f):
            subs += [f"{s['name']} ({s['evaluations']})" for s in json.load(open(f))["subs"]]
    subs += [f"{z['target']} ({z['quick_s']} s libFuzzer)" for z in p["fuzz"]]
    rows.append(f"| {p['id']} {p['title']} | {', '.join(subs)} | {p['tech']}; {p['note']} |")
fx = {}
for l in json.load(open(f"{V}/known-findings.json"))["fixed"]:
    _, pr, c, w = l.split(" ", 3)
    fx.setdefault(pr.split("=")[1], []).append(f"{w} ({c})")
bugs = []
for b in sorted(os.listdir(f"{V}/seeded")):
    m = json.load(open(f"{V}/seeded/{b}/meta.json"))
    bugs.append(f"| {b} | {m['property']} | {m['needs']} | {m.get('caught_by', m['property'])} |")
t = t.replace("@@TABLE@@", "\n".join(rows)).replace("@@BUGS@@", "\n".join(bugs))
t = t.replace("@@FIXES@@", "\n".join(f"* {k}: " + "; ".join(v) for k, v in sorted(fx.items())))
open(f"{V}/DESIGN.md", "w").write(t)
