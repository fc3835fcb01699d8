"""mkseed.py ID PROPERTY FILE NEEDS BREAKS < edit   (stdin: python source of the edit: lines 'OLD' === 'NEW') ; writes patch.diff and meta.json"""
import sys, os, json, subprocess, shutil, tempfile
sid, prop, path, needs, breaks = sys.argv[1:6]
d = "/verif/seeded/" + sid
os.makedirs(d, exist_ok=True)
parts = sys.stdin.read().split("\n@@@@\n")
t = tempfile.mkdtemp()
edits = []
paths = path.split(",")
new = {}
for k, part in enumerate(parts):
    p = paths[min(k, len(paths) - 1)]
    old, repl = part.split("\n====\n")
    old, repl = old.strip("\n"), repl.strip("\n")
    s = new.get(p) or open("/repo/" + p).read()
    assert s.count(old) == 1, (p, s.count(old), old)
    new[p] = s.replace(old, repl)
diff = ""
for p, s in new.items():
    os.makedirs(os.path.join(t, "b", os.path.dirname(p)), exist_ok=True)
    open(os.path.join(t, "b", p), "w").write(s)
    os.makedirs(os.path.join(t, "a", os.path.dirname(p)), exist_ok=True)
    shutil.copy("/repo/" + p, os.path.join(t, "a", p))
diff = subprocess.run(["diff", "-ru", "a", "b"], cwd=t, capture_output=True, text=True).stdout
diff = "".join(l for l in diff.splitlines(True) if not l.startswith("diff -ru"))
diff = "\n".join((l.split("\t")[0] if l.startswith(("--- ", "+++ ")) else l) for l in diff.split("\n"))
open(d + "/patch.diff", "w").write(diff)
json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
shutil.copy("/verif/tools/ec.py", d + "/ec.py")
if not os.path.exists(d + "/demo.sh"):
    open(d + "/demo.sh", "w").write('#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n')
shutil.rmtree(t)
