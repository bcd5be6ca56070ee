#!/usr/bin/env python3
"""Runs every check once: runall.py TIER SEED [PROPERTY...]. With --floors, rewrites floors.json for that tier."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = [a for a in sys.argv[1:] if a != "--floors"]
tier, seed = args[0], args[1]
ids = args[2:] or [json.loads(l)["id"] for l in open(f"{V}/properties.jsonl")]
floors = json.load(open(f"{V}/floors.json"))
bad = []
for i in ids:
    t = time.time()
    p = subprocess.run([sys.executable, f"{V}/run.py", i, "--tier", tier, "--seed", seed], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    print(i, p.returncode, f"{time.time() - t:.0f}s", p.stdout.strip().splitlines()[-1][:300] if p.stdout.strip() else p.stderr[-500:], flush=True)
    if p.returncode:
        bad.append(i)
        print(p.stdout[-1500:], flush=True)
    elif "--floors" in sys.argv:
        for st in json.load(open(f"{V}/evidence/{i}.json"))["coverage"]["stages"]:
            # Part of X01 runs for a fixed time.
            share = 20 if st["build"] == "miri" else {"X01": 500, "X01T": 10}.get(st["workload"], 3)
            floors[f"{st['workload']}/{st['build']}/{tier}"] = max(1, st["judged"] // share)
if "--floors" in sys.argv:
    json.dump(floors, open(f"{V}/floors.json", "w"), indent=1, sort_keys=True)
print("failed:", bad or "none")
