#!/bin/bash
# sedmut.sh FILE SEDEXPR CHECK...: run checks on a scratch copy of /repo in which FILE was edited with SEDEXPR (development aid)
f=$1 e=$2; shift 2
d=$(mktemp -d /tmp/mutXXXXXX)
cp -a /repo/src /repo/lib "$d"/
sed -i -E "$e" "$d/$f"
diff -u "/repo/$f" "$d/$f" | grep '^[+-][^+-]' | cut -c1-160
for c in "$@"; do
  echo "== $c: $(ECGEN_REPO=$d ECGEN_EVIDENCE=$d/ev python3 /verif/checks/$c.py 2>&1 | cut -c1-${W:-200} | tail -${LINES_OUT:-3})"
done
rm -rf "$d"
