#!/usr/bin/env python3
"""Confirm a planted bug (development aid; no check uses it).
seed.py mk ID PROP 'needs' 'breaks'   : take /repo's uncommitted diff as the patch (demo.sh already in seeded/ID), confirm, undo
seed.py run [ID...]                   : apply each, run the check of its property, undo; print caught/missed
"""
import sys, os, json, subprocess, re
V = "/verif"; R = "/repo"
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def clean(): sh("git -C %s checkout -- ." % R)
def tests():
    p = sh("bash /opt/vp/test.sh /tmp/o.json")
    o = json.load(open("/tmp/o.json")); b = json.load(open("/opt/vp/BASELINE.json"))
    return len(set(b["stable"]) - set(o["passed"]))
def demo(d): return sh("bash %s/demo.sh" % d, cwd=R, timeout=300)
def mk(i, prop, needs, breaks):
    d = "%s/seeded/%s" % (V, i)
    diff = sh("git -C %s diff" % R).stdout
    assert diff, "no diff"
    open(d + "/patch.diff", "w").write(diff)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + "/meta.json", "w"), indent=1)
    try:
        lost = tests(); r1 = demo(d)
    finally: clean()
    sh("bash /opt/vp/build.sh"); r0 = demo(d)
    ok = lost == 0 and r1.returncode != 0 and r0.returncode == 0
    print(i, "lost", lost, "demo patched", r1.returncode, "clean", r0.returncode, "OK" if ok else "BAD")
    if not ok: print((r1.stdout + r1.stderr)[-600:], "---", (r0.stdout + r0.stderr)[-600:])
def run(ids):
    for i in ids or sorted(os.listdir(V + "/seeded")):
        d = "%s/seeded/%s" % (V, i); m = json.load(open(d + "/meta.json"))
        a = sh("git -C %s apply %s/patch.diff" % (R, d))
        if a.returncode: print(i, "patch does not apply", a.stderr[:200]); continue
        try:
            p = sh("python3 %s/run.py %s" % (V, m["property"]), cwd=V)
        finally: clean()
        v = [l for l in p.stdout.splitlines() if l.startswith("VIOLATION property=" + m["property"])]
        print(i, m["property"], "CAUGHT" if p.returncode == 1 and v else "MISSED rc=%d" % p.returncode, p.stdout.splitlines()[-1][:150] if p.stdout else p.stderr[-300:], flush=True)
if sys.argv[1] == "mk": mk(*sys.argv[2:])
else: run(sys.argv[2:])
