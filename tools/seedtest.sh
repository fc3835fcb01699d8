#!/bin/bash
# seedtest.sh ID...: verify planted bugs in /repo (applied, built, tested, reverted) and list the checks that report them (development aid)
for id in "$@"; do
  d=/verif/seeded/$id
  cd /repo || exit 1
  [ -z "$(git status --porcelain)" ] || { echo "repo dirty"; exit 1; }
  bash /opt/vp/build.sh >/dev/null 2>&1
  timeout 300 bash $d/demo.sh >/tmp/seed.demo0 2>&1; r0=$?
  git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
  b=ok; bash /opt/vp/build.sh >/tmp/seed.build 2>&1 || b=BUILD-FAILED
  bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1
  t=$(python3 - <<'P'
import json
r=json.load(open('/tmp/seed.json')); b=json.load(open('/opt/vp/BASELINE.json'))
def names(x,k):
    v=x.get(k,x); 
    return set(v) if not isinstance(v,dict) else set(v)
st=b.get("stable") or b.get("passed") or b.get("tests")
st=set(st); print(len(st-set(r["passed"])), "tests broken", sorted(st-set(r["passed"]))[:3])
P
)
  timeout 300 bash $d/demo.sh >/tmp/seed.demo1 2>&1; r1=$?
  pid=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  c=$(python3 -c "import json;print([x['quick_cmd'] for x in json.load(open('/verif/MANIFEST.json'))['checks'] if x['property']=='$pid'][0])")
  out=$(cd /verif; ECGEN_EVIDENCE=/tmp/seed.ev $c 2>&1 | tail -2 | cut -c1-220)
  git checkout -q -- .
  echo "$id: build=$b $t demo: clean=$r0 patched=$r1"
  echo "   $pid: $out"
done
bash /opt/vp/build.sh >/dev/null 2>&1
