#!/usr/bin/env python3
"""Applies each planted bug in turn to /repo, runs its property's quick check and undoes it.

usage: catch.py [id ...]     prints caught / MISSED per bug"""
import os, sys, json, subprocess, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(V, "seeded")
ids = sys.argv[1:] or sorted(d for d in os.listdir(S) if os.path.exists(os.path.join(S, d, "patch.diff")))
for i in ids:
    d = os.path.join(S, i)
    pid = json.load(open(d + "/meta.json"))["property"]
    subprocess.check_call(["git", "-C", "/repo", "apply", d + "/patch.diff"])
    t = time.time()
    try:
        p = subprocess.run([sys.executable, "check.py", pid], cwd=V, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                           env=dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"))
    finally:
        subprocess.check_call(["git", "-C", "/repo", "checkout", "-q", "--", "."])
    v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
    print("%-26s %s rc=%d %5.1fs %s %s" % (i, pid, p.returncode, time.time() - t, "caught" if p.returncode == 1 and v else "MISSED", (v or p.stdout.splitlines()[-2:])[:1]), flush=True)
