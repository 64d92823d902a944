"""seed_new.py: (re)write a planted change from a spec:  id, file, old, new, property, needs, breaks, demo python"""
import sys, json, os, subprocess, tempfile, shutil
def seed(id, file, pairs, prop, needs, breaks, demo):
    d = f"/verif/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(dir="/tmp")
    subprocess.check_call(["git", "-C", "/repo", "worktree", "add", "-q", "--detach", t + "/w"])
    try:
        for f, a, b in [(file, a, b) if len(x) == 2 else x for x in pairs for (a, b) in [x[-2:]]]:
            p = f"{t}/w/{f}"
            s = open(p).read()
            assert s.count(a) == 1, (id, s.count(a), a)
            open(p, "w").write(s.replace(a, b))
        out = subprocess.check_output(["git", "-C", t + "/w", "diff"], text=True)
        open(d + "/patch.diff", "w").write(out)
    finally:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "remove", "--force", t + "/w"])
        shutil.rmtree(t)
    open(d + "/demo.py", "w").write(demo.lstrip("\n"))
    open(d + "/demo.sh", "w").write('''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
export PATH=/opt/venv/bin:$PATH PYTHONPATH=$PWD MPLBACKEND=agg OMP_NUM_THREADS=1 PYTHONDONTWRITEBYTECODE=1
exec timeout 280 /opt/venv/bin/python "$here/demo.py"
''')
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
