#!/usr/bin/env python3
"""tryseeds.py [ID[:Pxx,...]...]: applies each planted bug to /repo, runs the check of its property (or the given ones), and undoes it."""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
ids = sys.argv[1:] or sorted(os.listdir(V + "/seeded"))
for a in ids:
    i, _, ps = a.partition(":")
    meta = json.load(open("%s/seeded/%s/meta.json" % (V, i)))
    for p in ps.split(",") if ps else [meta["property"]]:
        subprocess.run(["git", "-C", REPO, "apply", "%s/seeded/%s/patch.diff" % (V, i)], check=True)
        t = time.time()
        try:
            r = subprocess.run(["python3", "check.py", p, "--tier", os.environ.get("VERIF_TIER", "quick")], cwd=V, capture_output=True, text=True)
        finally:
            subprocess.run(["git", "-C", REPO, "checkout", "--", "."], check=True)
        v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        print("%s %s: exit %d, %s, %.0f s" % (i, p, r.returncode, v[0] if v else "-", time.time() - t), flush=True)
        if r.returncode not in (0, 1):
            print((r.stdout + r.stderr)[-1500:])
