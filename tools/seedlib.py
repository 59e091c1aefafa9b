"""seed(id, property, needs, breaks, [(file, old, new)...], demo): write seeded/<id> from textual edits of /repo."""
import os, subprocess, json, shutil, textwrap
V = "/verif"; WT = "/tmp/seedmk"
def seed(id, prop, needs, breaks, edits, demo):
    if not os.path.isdir(WT): subprocess.check_call(["git", "clone", "-q", "/repo", WT])
    subprocess.check_call("git fetch -q && git reset -q --hard origin/HEAD", shell=True, cwd=WT)
    for f, a, b in edits:
        p = WT + "/src/" + f; s = open(p).read(); assert s.count(a) == 1, (id, f, s.count(a), a); open(p, "w").write(s.replace(a, b))
    d = V + "/seeded/" + id; os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "diff"], cwd=WT).decode())
    open(d + "/demo.py", "w").write("from cm import *\n" + textwrap.dedent(demo).lstrip("\n"))
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1\nexec timeout 120 python3 "$(dirname "$0")/demo.py"\n'); os.chmod(d + "/demo.sh", 0o755)
    shutil.copy(V + "/tools/demo_cm.py", d + "/cm.py")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    print("wrote", id)
