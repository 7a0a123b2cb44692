"""mkseed.py ID PROPERTY FILE <<< JSON {"subs":[[file,old,new],...],"needs":..,"breaks":..,"demo": python source}
Writes seeded/ID from a scratch copy of /repo."""
import json, os, subprocess, sys, shutil, tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def seed(id, prop, subs, needs, breaks, demo):
    d = os.path.join(V, "seeded", id)
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix="mkseed")
    try:
        subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
        subprocess.check_call("git -C /repo archive HEAD | tar x -C %s" % t, shell=True)
        subprocess.check_call("cd %s && git init -q . && git add -A && git -c user.name=a -c user.email=a@b commit -qm x" % t, shell=True)
        for f, old, new in subs:
            p = os.path.join(t, "VolterraBasis", f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", t, "diff"], text=True)
        assert diff, id
        base = set(subprocess.check_output(["git", "-C", "/repo", "show", "b6b09dd:VolterraBasis/" + subs[0][0]], text=True).splitlines())
        touched = [l[1:] for l in diff.splitlines() if l.startswith("-") and not l.startswith("---")]
        if not any(l in base for l in touched):
            print("WARNING %s: no removed line is of the original repository" % id)
        open(os.path.join(d, "patch.diff"), "w").write(diff)
    finally:
        shutil.rmtree(t, ignore_errors=True)
    with open(os.path.join(d, "demo.py"), "w") as f:
        f.write("import os, sys, warnings\nwarnings.simplefilter('ignore')\nsys.path.insert(0, os.getcwd())\nimport numpy as np\nimport xarray as xr\nimport VolterraBasis as vb\nimport VolterraBasis.basis as bf\n\n\n" + demo.strip("\n") + "\n")
    with open(os.path.join(d, "demo.sh"), "w") as f:
        f.write("#!/bin/bash\n# run in the repository, after its build\nd=$(cd \"$(dirname \"$0\")\" && pwd)\nexport PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1\nexec /opt/venv/bin/python -B \"$d/demo.py\"\n")
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)
