#!/usr/bin/env python3
"""Development tool: make planted bugs and try the checks on them. No check uses it.

  plant.py make BATCH.py [ID...]   write seeded/ID from the specifications in BATCH.py, confirm it, run its check
  plant.py check ID [CHECK...]     run the checks against a planted bug

Every change to /repo is undone before the tool ends.
"""
import json
import os
import runpy
import subprocess
import sys
import time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(ROOT, "seeded")


def run(cmd, cwd="/repo", timeout=900, env=None):
    try:
        r = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout,
                           shell=isinstance(cmd, str), errors="replace", env=env)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return 124, str(e.stdout)[-2000:]


def undo():
    run("git checkout -q -- . && git clean -fdq src")


def build():
    return run("bash /opt/vp/build.sh")


def stable():
    base = json.load(open("/opt/vp/BASELINE.json"))
    want = base if isinstance(base, list) else next(base[k] for k in ("tests", "stable", "passed", "passing") if k in base)
    rc, out = run("bash /opt/vp/test.sh /tmp/plant/out.json")
    got = json.load(open("/tmp/plant/out.json"))
    passed = got.get("passed") or [k for k, v in got.get("tests", {}).items() if v in ("pass", "passed", True)]
    missing = [t for t in want if t not in set(passed)]
    return missing


def demo(d):
    env = {k: v for k, v in os.environ.items()}
    return run(["bash", os.path.join(d, "demo.sh")], timeout=300, env=env)


def check(prop, tier="quick"):
    t = time.time()
    env = dict(os.environ, VERIF_SEED="1", VERIF_TIER=tier)
    rc, out = run([os.path.join(ROOT, "bin/check"), prop, tier], cwd=ROOT, env=env)
    v = [l for l in out.splitlines() if l.startswith("VIOLATION")]
    return rc, v, out, time.time() - t


def report(i, props):
    for p in props:
        rc, v, out, t = check(p)
        good = rc == 1 and any("property=" + p in l for l in v)
        print("  %s check %s: %s (rc %d, %.0f s)" % (i, p, "CAUGHT" if good else "missed", rc, t), flush=True)
        for l in v[:2]:
            print("     ", l)
        if rc not in (0, 1):
            print(out[-1500:])


def make(batch, ids):
    undo()
    for b in runpy.run_path(batch)["BUGS"]:
        if ids and b["id"] not in ids:
            continue
        d = os.path.join(SEEDED, b["id"])
        os.makedirs(d, exist_ok=True)
        print("==", b["id"], flush=True)
        ok = True
        try:
            for f, old, new in b["edits"]:
                p = os.path.join("/repo/src", f)
                s = open(p).read()
                if s.count(old) != 1:
                    print("  edit does not apply (%d matches): %s: %r" % (s.count(old), f, old[:60]))
                    ok = False
                    break
                open(p, "w").write(s.replace(old, new))
            if not ok:
                continue
            rc, out = run("git diff")
            open(os.path.join(d, "patch.diff"), "w").write(out)
            open(os.path.join(d, "demo.sh"), "w").write("#!/bin/bash\n" + b["demo"].lstrip("\n"))
            os.chmod(os.path.join(d, "demo.sh"), 0o755)
            for n, c in b.get("files", {}).items():
                open(os.path.join(d, n), "w").write(c.lstrip("\n"))
            json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]},
                      open(os.path.join(d, "meta.json"), "w"), indent=1)
            rc, out = build()
            if rc:
                print("  BUILD FAILS\n", out[-3000:])
                continue
            m = stable()
            print("  stable tests:", "all pass" if not m else "FAIL %s" % m[:5])
            rc, out = demo(d)
            print("  demo with the bug: rc %d %s" % (rc, "" if rc else "NOT SHOWN " + out[-600:]), flush=True)
            if b.get("show"):
                print(out[-800:])
            if not os.environ.get("NOCHECK"):
                report(b["id"], [b["property"]])
        finally:
            undo()
    rc, out = build()
    for b in runpy.run_path(batch)["BUGS"]:
        if ids and b["id"] not in ids:
            continue
        rc, out = demo(os.path.join(SEEDED, b["id"]))
        print("clean", b["id"], "demo rc", rc, "" if rc == 0 else "FAILS ON CLEAN " + out[-800:])


def main():
    os.makedirs("/tmp/plant", exist_ok=True)
    if sys.argv[1] == "make":
        make(sys.argv[2], sys.argv[3:])
    else:
        i = sys.argv[2]
        props = sys.argv[3:] or [json.load(open(os.path.join(SEEDED, i, "meta.json")))["property"]]
        undo()
        try:
            rc, out = run(["git", "apply", os.path.join(SEEDED, i, "patch.diff")])
            if rc:
                raise SystemExit(out)
            report(i, props)
        finally:
            undo()


main()
