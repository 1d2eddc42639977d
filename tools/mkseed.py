"""mkseed.py SPEC.py: SPEC defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python text; exits nonzero on failure)."""
import json, os, runpy, subprocess, sys, tempfile, shutil
s = runpy.run_path(sys.argv[1])
d = f"/verif/seeded/{s['ID']}"
os.makedirs(d, exist_ok=True)
w = tempfile.mkdtemp(prefix="mkseed")
subprocess.check_call(["git", "-C", "/repo", "worktree", "prune"])
subprocess.check_call(["git", "clone", "-q", "--shared", "/repo", w + "/r"])
for f, old, new in s["EDITS"]:
    p = f"{w}/r/{f}"
    t = open(p).read()
    assert t.count(old) == 1, (f, t.count(old))
    open(p, "w").write(t.replace(old, new))
diff = subprocess.check_output(["git", "-C", w + "/r", "diff"]).decode()
open(d + "/patch.diff", "w").write(diff)
open(d + "/demo.py", "w").write(s["DEMO"].lstrip("\n"))
open(d + "/demo.sh", "w").write('#!/bin/bash\n# cwd: /repo, built.  Exit 0 when the property holds.\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 CUDA_VISIBLE_DEVICES=\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
json.dump({"property": s["PROP"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
shutil.rmtree(w)
print(s["ID"], len(diff.splitlines()))
