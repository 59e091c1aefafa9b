#!/usr/bin/env python3
"""tryseed.py ID...: build the change in a scratch copy, run the stable tests and the demonstration on both trees."""
import subprocess, sys, os, shutil, json
V = "/verif"
def sh(c, cwd=None, t=600):
    try: r = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t); return r.returncode, r.stdout.decode("latin1")
    except subprocess.TimeoutExpired: return 124, "timeout"
wt = "/tmp/seedrun"
shutil.rmtree(wt, ignore_errors=True); sh("cp -a /repo " + wt)
for i in sys.argv[1:]:
    d = V + "/seeded/" + i; shutil.copy(V + "/tools/demo_cm.py", d + "/cm.py")
    if not os.path.exists(d + "/demo.sh"): open(d + "/demo.sh", "w").write('#!/bin/bash\nexec timeout 120 python3 "$(dirname "$0")/demo.py"\n'); os.chmod(d + "/demo.sh", 0o755)
    sh("git checkout -q -- . && cd _build && make -j8", wt)
    r0 = sh("bash %s/demo.sh" % d, wt)
    a = sh("git apply %s/patch.diff" % d, wt)
    b = sh("cd _build && make -j8 2>&1", wt)
    warn = [l for l in b[1].splitlines() if "warning" in l]
    r1 = sh("bash %s/demo.sh" % d, wt)
    print(i, "clean=%d" % r0[0], "apply=%d" % a[0], "build=%d" % b[0], "patched=%d" % r1[0], "OK" if r0[0] == 0 and a[0] == 0 and b[0] == 0 and r1[0] not in (0, 3, 124) else "BAD", r1[1].strip()[-200:], (r0[1][-300:] if r0[0] else ""), a[1] if a[0] else "", b[1][-800:] if b[0] else "", warn)
    sys.stdout.flush()
shutil.rmtree(wt, ignore_errors=True)
