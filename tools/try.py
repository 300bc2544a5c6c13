#!/usr/bin/env python3
"""try.py <seed> [property...]  run checks with a planted bug applied to /repo, then undo it"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = sys.argv[1]
ps = sys.argv[2:] or [json.load(open(V + "/seeded/%s/meta.json" % s))["property"]]
assert subprocess.run(["git", "-C", "/repo", "status", "--porcelain"], capture_output=True, text=True).stdout == ""
subprocess.run(["git", "-C", "/repo", "apply", V + "/seeded/%s/patch.diff" % s], check=True)
try:
    for p in ps:
        t = time.time()
        r = subprocess.run(["python3", V + "/check.py", p, "quick"], capture_output=True, text=True, cwd=V)
        print("%s %s rc=%d %.0fs %s" % (s, p, r.returncode, time.time() - t, "CAUGHT" if r.returncode == 1 else "missed"))
        print("   " + "\n   ".join(l[:220] for l in r.stdout.splitlines()[:6]))
finally:
    subprocess.run(["git", "-C", "/repo", "checkout", "--", "."])
