#!/usr/bin/env python3
"""Confirm planted changes: applies, builds, passes the stable tests, demo 0/non-zero, and which checks catch it.
   seedcheck.py [--nochecks] [id ...]   (works on /repo's tree and restores it)"""
import json, os, subprocess, sys, tempfile, shutil
V = "/verif/seeded"
def sh(c, **k):
    return subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **k)
args = [a for a in sys.argv[1:] if not a.startswith("--")]
ids = args or sorted(os.listdir(V))
stable = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
assert not sh("git -C /repo status --porcelain").stdout.strip()
tmp = tempfile.mkdtemp()
sh("bash /opt/vp/build.sh")
clean = {}
for i in ids:
    d = os.path.join(tmp, i); shutil.copytree(os.path.join(V, i), d)
    os.remove(d + "/patch.diff"); os.remove(d + "/meta.json")
    r = sh("bash %s/demo.sh" % d, cwd="/repo", timeout=300); clean[i] = (r.returncode, r.stdout[-500:])
for i in ids:
    m = json.load(open(f"{V}/{i}/meta.json")); out = [i, m["property"]]
    try:
        r = sh(f"git -C /repo apply {V}/{i}/patch.diff")
        if r.returncode: print(i, "PATCH FAILS", r.stdout); continue
        r = sh("bash /opt/vp/test.sh %s/o.json" % tmp)
        o = json.load(open(tmp + "/o.json")); miss = stable - set(o["passed"])
        out.append("tests ok" if not miss else "TESTS FAIL %s" % sorted(miss)[:4])
        r = sh("bash %s/%s/demo.sh" % (tmp, i), cwd="/repo", timeout=300)
        out.append("demo clean=%d%s patched=%d%s" % (clean[i][0], "" if clean[i][0] == 0 else " BAD " + clean[i][1], r.returncode, " BAD" if r.returncode in (0, 3) else ""))
        if "--nochecks" not in sys.argv:
            c = m["property"]
            r = sh(f"python3 /verif/run.py check {c} quick")
            out.append("CAUGHT" if r.returncode == 1 and f"VIOLATION property={c} " in r.stdout else "MISSED rc=%d %s" % (r.returncode, r.stdout[-300:]))
            fl = [l for l in r.stdout.splitlines() if l.startswith("failure:")]
            if fl: out.append(fl[0][:160])
    finally:
        sh("git -C /repo checkout -q -- . && git -C /repo clean -fdq")
    print(" | ".join(out), flush=True)
shutil.rmtree(tmp)
sh("bash /opt/vp/build.sh")
