#!/usr/bin/env python3
"""catch.py ID... : runs the check of each planted bug's property against a scratch copy of /repo with the bug"""
import json, os, subprocess, sys, time
W, B = "/tmp/plantwork", "/tmp/plantbuild"
ids = sys.argv[1:] or sorted(os.listdir("/verif/seeded"))
if not os.path.exists(W):
    subprocess.run(["cp", "-a", "/repo", W], check=True)
for i in ids:
    prop = json.load(open("/verif/seeded/%s/meta.json" % i))["property"]
    subprocess.run("git checkout -q -- . && git apply /verif/seeded/%s/patch.diff" % i, shell=True, cwd=W, check=True)
    t = time.time()
    p = subprocess.run(["python3", "/verif/driver/check.py", prop], env=dict(os.environ, AM_REPO=W, AM_BUILD=B), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION")]
    why = [l for l in p.stdout.splitlines() if "rejected" in l]
    print("%-24s %s rc=%d %s %.0fs %s" % (i, prop, p.returncode, "CAUGHT" if v and p.returncode == 1 else "MISSED", time.time() - t, why[0][:160] if why else p.stdout[-300:] if p.returncode not in (0, 1) else ""), flush=True)
subprocess.run("git checkout -q -- .", shell=True, cwd=W)
