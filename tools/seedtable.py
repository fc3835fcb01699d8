"""regenerates the table of planted bugs in DESIGN.md"""
import json, glob, os, re
rows = []
for d in sorted(glob.glob("/verif/seeded/*/meta.json")):
    m = json.load(open(d))
    rows.append((m["property"], os.path.basename(os.path.dirname(d)), m["needs"]))
t = "".join("| %s | %s | %s |\n" % (b, a, c.replace("|", "/")) for a, b, c in sorted(rows))
s = open("/verif/DESIGN.md").read()
if "@SEEDS@" in s:
    s = s.replace("@SEEDS@", t)
else:
    s = re.sub(r"(\| planted bug \|.*\n\|---.*\n)(\|.*\n)*", lambda m: m.group(1) + t, s)
open("/verif/DESIGN.md", "w").write(s)
