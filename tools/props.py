"""Source of properties.jsonl and MANIFEST.json:  python3 tools/props.py  rewrites both."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, symbols, check=None, technique=None, note=None, na=None, level="proof"):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, symbols=symbols,
                  check=check, technique=technique, note=note, na=na, level=level))


exec(open(os.path.join(V, "tools", "props_data.py")).read())

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        anchors = {"files": p["files"], "mechanism": [dict(zip(("name", "where"), x.split("@"))) for x in p["symbols"]]}
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": anchors}) + "\n")
checks = [{"property": p["id"], "quick_cmd": "python3 checks/%s.py" % p["check"], "thorough_cmd": "python3 checks/%s.py --thorough" % p["check"],
           "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for p in P if p["check"]]
na = [{"property": p["id"], "reason": p["na"]} for p in P if not p["check"]]
json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
           "notes": "Static analysis of the LLVM IR of /repo/src (built by clang-18 from the working tree on every run); no hooks in /repo."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
