#!/usr/bin/env python3
"""Runs the check of one property: builds its driver against /repo's current
working tree, generates cases, writes the evidence, prints violations.

usage: check.py ID [quick|thorough]
exit 0: held on everything explored; 1: VIOLATION; 2: no answer.
"""
import json, os, subprocess, sys, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("REPO", "/repo")
pid = sys.argv[1]
tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
if tier not in ("quick", "thorough"):
    tier = "quick"
try:
    seed = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    seed = 1
t0 = time.time()
build = os.environ.get("VERIF_BUILD", f"{V}/build")
os.makedirs(build, exist_ok=True)


def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if p.returncode:
        print(p.stdout[-6000:])
        print(f"check {pid}: command failed: {' '.join(cmd)}")
        sys.exit(2)


sh(["python3", f"{V}/harness/mkbuild.py", REPO, V, build])
meta = json.load(open(f"{V}/bin/checks.json"))[pid]
drivers = [(pid, [])] + [(d, []) for d in meta.get("more", [])]
fuzzers = meta.get("fuzz", [])
targets = [f"{build}/{d}" for d, _ in drivers] + [f"{build}/{f['target']}" for f in fuzzers] + \
    [f"{build}/{t}" for t in meta.get("tools", [])]
sh(["ninja", "-C", build] + targets)
tb = time.time()

rd = f"{V}/replay"
os.makedirs(rd, exist_ok=True)
known = json.load(open(f"{V}/known-findings.json"))
env = dict(os.environ)
env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_abort=0:detect_stack_use_after_return=0:max_allocation_size_mb=4096"
env["UBSAN_OPTIONS"] = "print_stacktrace=1"
env["VERIF_BUILD"] = build
env["LC_ALL"] = "C"

total = {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "subs": []}
viol = []
rule = ""
for d, extra in drivers:
    out = f"{build}/{d}.stats.json"
    if os.path.exists(out):
        os.remove(out)
    cmd = [f"{build}/{d}", "--id", pid, "--tier", tier, "--seed", str(seed), "--replay-dir", rd,
           "--known", f"{V}/known-findings.json", "--out", out] + extra
    if tier == "thorough":
        cmd += ["--limit", str(meta.get("thorough_limit", 3000))]
    p = subprocess.run(cmd, env=env, stderr=subprocess.PIPE, text=True, errors="replace")
    sys.stderr.write(p.stderr[-20000:])
    if p.returncode not in (0, 1) or not os.path.exists(out):
        print(f"check {pid}: driver {d} gave no answer (exit {p.returncode})")
        sys.exit(2)
    s = json.load(open(out))
    rule = rule or s["rule"]
    total["evaluations"] += s["evaluations"]
    total["distinct_nontrivial"] += s["distinct_nontrivial"]
    total["samples"] += s["samples"]
    total["subs"] += s["subs"]
    viol += s["violations"]

for f in fuzzers:
    secs = f["thorough_s"] if tier == "thorough" else f["quick_s"]
    work = f"{build}/fuzz-{f['target']}"
    os.makedirs(f"{work}/corpus", exist_ok=True)
    seeds = f"{V}/harness/fuzz/seeds/{f['target']}"
    cmd = [f"{build}/{f['target']}", f"{work}/corpus"] + ([seeds] if os.path.isdir(seeds) else []) + \
        [f"-max_total_time={secs}", f"-seed={seed}", f"-artifact_prefix={work}/", "-timeout=20", "-rss_limit_mb=3000",
         "-print_final_stats=1", "-verbosity=1", f"-max_len={f.get('max_len', 400)}"]
    dic = f"{V}/harness/fuzz/{f['target']}.dict"
    if os.path.exists(dic):
        cmd.append(f"-dict={dic}")
    p = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    n = 0
    for l in p.stdout.splitlines():
        if l.startswith("stat::number_of_executed_units:"):
            n = int(l.split()[-1])
    total["evaluations"] += n
    nt = len(os.listdir(f"{work}/corpus"))
    total["distinct_nontrivial"] += nt
    total["subs"].append({"name": f["target"], "evaluations": n, "corpus_units_with_new_coverage": nt, "seconds": secs})
    if p.returncode:
        arts = sorted(x for x in os.listdir(work) if x.startswith(("crash-", "timeout-", "oom-")))
        if arts and not arts[0].startswith("oom-"):
            path = f"{rd}/{pid}-{f['target']}.input"
            small = f"{work}/min"
            subprocess.run([f"{build}/{f['target']}", "-minimize_crash=1", "-max_total_time=40", f"-exact_artifact_path={small}",
                            f"{work}/{arts[0]}"], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            data = open(small if os.path.exists(small) else f"{work}/{arts[0]}", "rb").read()
            open(path, "wb").write(data)
            sys.stderr.write(p.stdout[-4000:])
            viol.append({"sub": f["target"], "key": "fuzz", "msg": p.stdout[-1500:], "input": repr(data), "replay": path})
        else:
            print(f"check {pid}: fuzzer {f['target']} gave no answer (exit {p.returncode})")
            print(p.stdout[-2000:])
            sys.exit(2)

seen = {}
for s in total["subs"]:
    for l, n in s.get("labels", {}).items():
        if l.startswith("KNOWN:"):
            seen[l[6:]] = seen.get(l[6:], 0) + n
for k in known["findings"]:
    if k["property"] == pid:
        print(f"KNOWN-FINDING: property={pid} {k['what']} (seen {seen.get(k['id'], 0)} times)")

ev = {
    "property": pid, "tier": tier, "seed": seed, "level": "exploration",
    "coverage": {
        "evaluations": total["evaluations"],
        "distinct_nontrivial": total["distinct_nontrivial"],
        "rule": rule,
        "samples": total["samples"][:30],
        "subs": total["subs"],
    },
    "assumptions": meta.get("assumptions", []),
    "violations": [{"sub": v["sub"], "key": v["key"], "replay": v["replay"], "input": v["input"][:2000], "msg": v["msg"][:2000]} for v in viol],
    "wall_s": round(time.time() - t0, 1),
    "build_s": round(tb - t0, 1),
}
os.makedirs(f"{V}/evidence", exist_ok=True)
with open(f"{V}/evidence/{pid}.json", "w") as f:
    json.dump(ev, f, indent=1)
for v in viol:
    print(f"VIOLATION property={pid} replay={v['replay']}")
print(f"{pid} {tier} seed={seed}: {total['evaluations']} cases, {total['distinct_nontrivial']} distinct non-trivial, "
      f"{len(viol)} violations, {ev['wall_s']} s ({ev['build_s']} s build)")
sys.exit(1 if viol else 0)
