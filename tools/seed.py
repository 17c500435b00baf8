#!/usr/bin/env python3
"""seed.py ID -- test a planted bug in scratch copies: builds, tests, demo both ways,
then (with --checks P..) runs quick checks against the patched tree."""
import json, os, shutil, subprocess, sys, tempfile
ID = sys.argv[1]
D = "/verif/seeded/" + ID
def sh(cmd, **k): return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
if not os.path.exists(D + "/demo.sh") and os.path.exists(D + "/demo.py"):
    open(D + "/demo.sh", "w").write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
if os.path.exists(D + "/demo.py"):
    shutil.copy("/verif/tools/demolib.py", D + "/demolib.py")
assert sh("git -C /repo status --porcelain").stdout.strip() == "", "repo dirty"
def demo(n):
    t = tempfile.mkdtemp(); shutil.copytree(D, t + "/x")
    for f in os.listdir(t + "/x"):
        if f.endswith((".diff", ".json")): os.remove(t + "/x/" + f)
    bad = []
    for i in range(n):
        try: r = sh("bash %s/x/demo.sh" % t, cwd="/repo", timeout=300); rc, out = r.returncode, r.stdout
        except subprocess.TimeoutExpired: rc, out = "timeout", ""
        bad.append(rc)
    shutil.rmtree(t); return bad, out.strip()[-300:]
def build():
    r = sh("bash /opt/vp/build.sh")
    if r.returncode: print(r.stdout[-2500:])
    return r.returncode
try:
    build()
    a = demo(3); print("unchanged:", *a)
    r = sh("git -C /repo apply %s/patch.diff" % D)
    assert r.returncode == 0, r.stdout
    assert build() == 0, "build"
    b = demo(2); print("patched:  ", *b)
    t = sh("bash /opt/vp/test.sh /tmp/t.json").stdout.strip().split("\n")[-1]
    print("tests:", t)
    assert all(x == 0 for x in a[0]) and all(x not in (0,) for x in b[0]) and "184 passed" in t, "SEED BAD"
    print("SEED OK")
    pids = sys.argv[2:] or [json.load(open(D + "/meta.json"))["property"]]
    for p in pids:
        r = sh("python3 /verif/tools/run.py %s quick" % p, cwd="/verif")
        v = [l for l in r.stdout.split("\n") if "VIOLATION" in l]
        print("check", p, "rc", r.returncode, v[:1], "" if v else r.stdout[-300:])
finally:
    sh("git -C /repo checkout -- .")
    build()
