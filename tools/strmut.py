#!/usr/bin/env python3
"""strmut.py CHECK FILE < lines 'old ==> new' (first occurrence; \\n allowed): run a check on a scratch copy of /repo with each replacement made (development aid)"""
import sys, os, subprocess, tempfile, shutil
chk, f = sys.argv[1:3]
for l in sys.stdin:
    l = l.rstrip("\n")
    if " ==> " not in l:
        if l.startswith("@"):
            f = l[1:]
        continue
    old, new = (x.replace("\\n", "\n") for x in l.split(" ==> ", 1))
    d = tempfile.mkdtemp(prefix="mut", dir="/tmp")
    for x in ("src", "lib"):
        subprocess.run(["cp", "-a", "/repo/" + x, d], check=True)
    s = open(d + "/" + f).read()
    if old not in s:
        print("NOT FOUND:", l[:100])
    else:
        open(d + "/" + f, "w").write(s.replace(old, new, 1))
        r = subprocess.run(["timeout", "800", "python3", "/verif/checks/%s.py" % chk], env=dict(os.environ, ECGEN_REPO=d, ECGEN_EVIDENCE=d + "/ev"), capture_output=True, text=True)
        o = (r.stdout + r.stderr).strip().splitlines()
        print("%d  %s\n     %s" % (r.returncode, l[:110], (o[0] if r.returncode else o[-1])[:210]), flush=True)
    shutil.rmtree(d)
