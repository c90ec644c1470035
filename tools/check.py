#!/usr/bin/env python3
"""Run one property's check: rebuild what it needs from /repo's working tree,
search, write evidence/<id>.json, print VIOLATION / KNOWN-FINDING lines.

usage: check.py ID [--tier quick|thorough] [--seed N] [--replay FILE] [extra harness args]
"""
import json, os, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, f"{VERIF}/tools")
from registry import RUNS  # id -> [(harness, variant, extra args)]
OUT = os.environ.get("VERIF_BUILD", f"{VERIF}/build")


def main():
    args = sys.argv[1:]
    pid = args.pop(0)
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = os.environ.get("VERIF_SEED", "1")
    replay, extra = None, []
    while args:
        a = args.pop(0)
        if a == "--tier":
            tier = args.pop(0)
        elif a == "--seed":
            seed = args.pop(0)
        elif a == "--replay":
            replay = args.pop(0)
        else:
            extra.append(a)
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = str(int(seed) % (1 << 62))
    except ValueError:
        seed = "1"
    if pid not in RUNS:
        print(f"no check for {pid}", file=sys.stderr)
        return 2
    ev = f"{VERIF}/evidence/{pid}.json"
    os.makedirs(f"{VERIF}/evidence/replays", exist_ok=True)
    t0 = time.time()
    merged, worst = None, 0
    for n, (harness, variant, xargs) in enumerate(RUNS[pid]):
        b = subprocess.run([sys.executable, f"{VERIF}/tools/build.py", "--variant", variant, harness])
        if b.returncode:
            print(f"{pid}: build failed", file=sys.stderr)
            return 2
        part = f"{ev}.part{n}"
        if os.path.exists(part):
            os.unlink(part)
        cmd = [f"{OUT}/{variant}/{harness}", "--property", pid, "--tier", tier, "--seed", seed,
               "--known", f"{VERIF}/known_findings.txt", "--evidence", part,
               "--replaydir", f"{VERIF}/evidence/replays", *xargs, *extra]
        if replay:
            cmd = [f"{OUT}/{variant}/{harness}", "--replay", replay, "--property", pid, "--known", f"{VERIF}/known_findings.txt"]
        env = dict(os.environ)
        env["EUROPA_NDDL"] = os.environ.get("EUROPA_REPO", "/repo") + "/src/PLASMA"
        r = subprocess.run(cmd, env=env, cwd=f"{OUT}")
        if replay:
            if r.returncode != 0 or n + 1 == len(RUNS[pid]):
                return r.returncode
            continue
        if r.returncode not in (0, 1) or not os.path.exists(part):
            print(f"{pid}: {harness} ended with {r.returncode}", file=sys.stderr)
            return 2
        e = json.load(open(part))
        os.unlink(part)
        worst = max(worst, r.returncode)
        if merged is None:
            merged = e
        else:
            for k in ("evaluations", "distinct_nontrivial", "discarded", "known_finding_hits", "unreproducible"):
                merged["coverage"][k] += e["coverage"][k]
            merged["coverage"]["per_check"].update({f"{variant}:{k}": v for k, v in e["coverage"]["per_check"].items()})
            merged["coverage"]["build"] += " + " + e["coverage"]["build"]
            merged["violations"] += e["violations"]
        if worst:
            break
    merged["wall_s"] = round(time.time() - t0, 2)
    while len(json.dumps(merged)) > 60000 and merged["coverage"]["samples"]:
        if len(merged["coverage"]["samples"]) == 1:
            merged["coverage"]["samples"][0] = merged["coverage"]["samples"][0][:2000]
            break
        merged["coverage"]["samples"].pop()
    if len(json.dumps(merged)) > 60000:
        for v in merged["coverage"]["per_check"].values():
            v["labels"] = dict(list(v["labels"].items())[:15])
    with open(ev, "w") as f:
        json.dump(merged, f, indent=1)
    return worst


sys.exit(main())
