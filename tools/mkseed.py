#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE NEEDS BREAKS < "old\n=====\nnew"  (edits separated by a line '#####' possibly 'FILE: path'),
demo read from /verif/tmp/demo.mjs.  Confirms in a scratch copy: builds, stable tests pass, demo 0 clean / nonzero patched.
Then runs the property's check against /repo with the patch applied and undoes it."""
import sys, os, subprocess, shutil, json
ID, prop, path, needs, breaks = sys.argv[1:6]; SKIPTEST = "--notest" in sys.argv
edits = []
cur = path
for part in sys.stdin.read().split("\n#####\n"):
    if part.startswith("FILE: "): h, part = part.split("\n", 1); cur = h[6:].strip()
    old, new = part.split("\n=====\n"); edits.append((cur, old.strip("\n"), new.strip("\n")))
if subprocess.run("git -C /repo diff --quiet", shell=True).returncode: sys.exit("REPO DIRTY")
S = "/tmp/sw"; shutil.rmtree(S, ignore_errors=True)
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
sh("cp -a /repo /tmp/sw")
D = f"/verif/seeded/{ID}"; shutil.rmtree(D, ignore_errors=True); os.makedirs(D)
for f in os.listdir("/verif/tmp/demo"): shutil.copy(f"/verif/tmp/demo/{f}", D)
open(D + "/demo.sh", "w").write('#!/bin/bash\nexport DOMOTION_HELPER_NO_SERVE=1\nexec node "$(cd "$(dirname "$0")" && pwd)/demo.mjs"\n'); os.chmod(D + "/demo.sh", 0o755)
def fail(m): print("FAIL", m); shutil.rmtree(S, ignore_errors=True); shutil.rmtree(D); sys.exit(1)
for f, old, new in edits:
    t = open(f"{S}/{f}").read()
    if t.count(old) != 1: fail(f"{t.count(old)} matches for {old[:60]!r}")
    open(f"{S}/{f}", "w").write(t.replace(old, new))
patch = sh("git diff", cwd=S).stdout
open(D + "/patch.diff", "w").write(patch)
r = sh(f"bash {D}/demo.sh", cwd="/repo")
if r.returncode: fail("demo fails on clean: " + (r.stdout + r.stderr)[-1500:])
# build script works on /repo path: build patched /repo, run, undo
try:
    sh(f"git apply {D}/patch.diff", cwd="/repo")
    b = sh("bash /opt/vp/build.sh", cwd="/repo")
    if b.returncode: fail("build " + (b.stdout + b.stderr)[-800:])
    r = sh(f"bash {D}/demo.sh", cwd="/repo")
    print("demo patched rc", r.returncode, (r.stdout + r.stderr)[-300:].strip().replace("\n", " | "))
    if r.returncode == 0: fail("demo passes with the patch")
    if not SKIPTEST:
        t = sh("bash /opt/vp/test.sh /tmp/seedout.json", cwd="/repo")
        base = set(map(str, json.load(open("/opt/vp/BASELINE.json")).get("passing", []) or []))
        print("tests:", t.stdout.strip().split("\n")[-1])
        if "3969 passed" not in t.stdout: fail("tests " + t.stdout[-1500:])
    c = sh(f"bin/check {prop}", cwd="/verif")
    print("CHECK", prop, "rc", c.returncode, "|", "\n".join(x[:260] for x in c.stdout.strip().split("\n")[-3:]))
finally:
    sh("git checkout -- .", cwd="/repo"); 
    sh("bash /opt/vp/build.sh", cwd="/repo")
    shutil.rmtree(S, ignore_errors=True)
json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(D + "/meta.json", "w"), indent=1)
print("KEPT", ID, "caught" if c.returncode == 1 else "MISSED")
