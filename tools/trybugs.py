#!/usr/bin/env python3
"""Applies planted bugs to /repo one by one, runs the check of each one's property, and undoes them.

usage: trybugs.py OUT.json [ID...]   (development only; no check uses this)
"""
import json, os, subprocess, sys, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = sys.argv[1]
ids = sys.argv[2:] or sorted(os.listdir(VERIF + "/seeded"))
results = json.load(open(out)) if os.path.exists(out) else {}
assert not subprocess.run("git -C /repo status --porcelain", shell=True, capture_output=True, text=True).stdout
for i in ids:
    meta = json.load(open(f"{VERIF}/seeded/{i}/meta.json"))
    subprocess.run(["git", "-C", "/repo", "apply", f"{VERIF}/seeded/{i}/patch.diff"], check=True)
    t = time.time()
    try:
        p = subprocess.run([sys.executable, VERIF + "/run.py", meta["property"]], cwd=VERIF, capture_output=True, text=True,
                           env=dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"), timeout=1200)
        code, text = p.returncode, p.stdout + p.stderr
    except subprocess.TimeoutExpired:
        code, text = None, ""
    finally:
        subprocess.run("git -C /repo checkout -q -- .", shell=True)
    caught = code == 1 and f"VIOLATION property={meta['property']} " in text
    results[i] = dict(property=meta["property"], caught=caught, exit=code, seconds=round(time.time() - t),
                      tail=[l[:200] for l in text.splitlines() if "VIOLATION" in l or l.startswith("  ")][:3])
    print(i, "CAUGHT" if caught else f"MISSED exit={code}", results[i]["seconds"], results[i]["tail"][:2], flush=True)
    json.dump(results, open(out, "w"), indent=1)
