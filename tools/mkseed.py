"""mkseed(id, prop, [(file, old, new)], demo, needs, breaks)"""
import os, subprocess, json, shutil, tempfile
DEMO_SH = '''#!/bin/bash
# run with cwd = project root
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD"
T=$(mktemp -d); trap 'rm -rf -- "$T"' EXIT
MPLCONFIGDIR="$T" /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
'''
def mkseed(id, prop, edits, demo, needs, breaks):
    t = tempfile.mkdtemp(prefix="mk.", dir="/tmp")
    r = t + "/r"
    subprocess.check_call(["git", "clone", "-q", "/repo", r])
    for f, old, new in edits:
        s = open(r + "/" + f).read()
        assert s.count(old) == 1, (id, f, s.count(old), old)
        open(r + "/" + f, "w").write(s.replace(old, new))
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(subprocess.check_output(["git", "-C", r, "diff"], text=True))
    open(d + "/demo.sh", "w").write(DEMO_SH)
    open(d + "/demo.py", "w").write(demo.lstrip())
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    shutil.rmtree(t)
