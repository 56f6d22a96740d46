#!/usr/bin/env python3
"""runseeds.py [ID...]  Applies each planted bug to /repo, runs its property's quick check, undoes it."""
import sys, os, subprocess, json
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(HERE + "/seeded"))
for i in ids:
    d = HERE + "/seeded/" + i
    p = json.load(open(d + "/meta.json"))["property"]
    a = subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"])
    if a.returncode: print(i, p, "PATCH DOES NOT APPLY", flush=True); continue
    try:
        r = subprocess.run([sys.executable, HERE + "/check.py", p], cwd=HERE, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."])
    print(i, p, {0: "MISSED", 1: "caught", 2: "ERROR"}.get(r.returncode, r.returncode), "" if r.returncode == 1 else r.stdout[-300:], flush=True)
