#!/usr/bin/env python3
"""plant.py FILE...: makes /verif/seeded/<id>/ from the definitions in FILE (python: a list BUGS of dicts), and confirms each
in a scratch copy of /repo: applies, builds, passes the stable tests, demo 0 without and nonzero with it. Definitions:
id, property, needs, breaks, edits [(file, old, new)], demo (python after 'from h import *')"""
import json, os, shutil, subprocess, sys
V = "/verif"
W = "/tmp/plantwork"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_TERM_COLOR="never", CARGO_PROFILE_DEV_DEBUG="line-tables-only", RUSTC_WRAPPER="")


def sh(cmd, cwd=W, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def build():
    p = sh(["cargo", "test", "--workspace", "--no-run", "--offline"])
    return p.returncode == 0, p.stdout


def tests():
    p = sh("timeout 800 cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > /tmp/plant.log 2>&1; python3 /opt/vp/results.py /tmp/plant.json cargo:/tmp/plant.log", shell=True)
    got = json.load(open("/tmp/plant.json"))
    return got


def names(x):
    """the tests that passed"""
    if isinstance(x, dict):
        for k in ("passed", "pass", "stable"):
            if k in x and isinstance(x[k], list):
                return {t if isinstance(t, str) else t["id"] for t in x[k]}
        if "tests" in x:
            t = x["tests"]
            return {k for k, v in t.items() if v in ("pass", "passed", "ok")} if isinstance(t, dict) else {u["name"] for u in t if u.get("outcome") in ("pass", "passed", "ok")}
    raise SystemExit("unknown result format %s" % str(x)[:300])


def demo(d):
    try:
        return sh(["bash", os.path.join(d, "demo.sh")], timeout=280)
    except subprocess.TimeoutExpired:
        return subprocess.CompletedProcess([], 99, "demo timed out")


def main():
    bugs = []
    for f in [a for a in sys.argv[1:] if a.endswith(".py")]:
        ns = {}
        exec(open(f).read(), ns)
        bugs += ns["BUGS"]
    only = [a for a in sys.argv[1:] if not a.endswith(".py")]
    bugs = [b for b in bugs if not only or b["id"] in only]
    if not os.path.exists(W):
        subprocess.run(["cp", "-a", "/repo", W], check=True)
    base = names(json.load(open("/opt/vp/BASELINE.json")))
    sh(["git", "checkout", "-q", "--", "."])
    sh(["git", "fetch", "-q", "/repo"]); sh(["git", "reset", "-q", "--hard", subprocess.check_output(["git", "-C", "/repo", "rev-parse", "HEAD"], text=True).strip()])
    ok, out = build()
    assert ok, out
    clean = []
    for b in bugs:
        d = os.path.join(V, "seeded", b["id"])
        os.makedirs(d, exist_ok=True)
        shutil.copy(os.path.join(V, "tools/plant/h.py"), d)
        with open(os.path.join(d, "demo.sh"), "w") as f:
            f.write('#!/bin/bash\nPYTHONDONTWRITEBYTECODE=1 exec python3 "$(dirname "$0")/demo.py"\n')
        with open(os.path.join(d, "demo.py"), "w") as f:
            f.write('"""%s: %s"""\nfrom h import *\n\n%s' % (b["id"], b["breaks"], b["demo"].lstrip("\n")))
        with open(os.path.join(d, "meta.json"), "w") as f:
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, f, indent=1)
        p = demo(d)
        if p.returncode:
            print(b["id"], "demo fails on the unchanged tree:", p.stdout[-600:])
            clean.append(b["id"])
    for b in bugs:
        d = os.path.join(V, "seeded", b["id"])
        sh(["git", "checkout", "-q", "--", "."])
        bad = False
        for f, old, new in b["edits"]:
            path = os.path.join(W, f)
            s = open(path).read()
            if s.count(old) != 1:
                print(b["id"], "edit of", f, "matches", s.count(old), "times:", old[:80])
                bad = True
                break
            open(path, "w").write(s.replace(old, new))
        if bad:
            continue
        p = sh(["git", "diff"])
        open(os.path.join(d, "patch.diff"), "w").write(p.stdout)
        ok, out = build()
        if not ok:
            print(b["id"], "does not build:", out[-1500:])
            continue
        missing = base - names(tests())
        p = demo(d)
        print(b["id"], b["property"], "TESTS FAIL %s" % sorted(missing)[:4] if missing else "tests ok", "demo %s" % p.returncode if p.returncode else "DEMO PASSES WITH THE BUG", p.stdout.strip()[-160:].replace("\n", " | "), flush=True)
    sh(["git", "checkout", "-q", "--", "."])


main()
