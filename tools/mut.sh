#!/bin/bash
# mut.sh PATCH CHECK...: run checks against a scratch copy of /repo with PATCH applied (development aid, not registered)
set -e
p=$(readlink -f "$1"); shift
d=$(mktemp -d /tmp/mutXXXXXX)
cp -a /repo/src /repo/lib "$d"/
cp -a /repo/README.md "$d"/ 2>/dev/null || true
( cd "$d" && patch -s -p1 < "$p" )
for c in "$@"; do
  echo "== $c: $(ECGEN_REPO=$d ECGEN_EVIDENCE=$d/ev python3 /verif/checks/$c.py 2>&1 | cut -c1-230 | tail -${LINES_OUT:-4})"
done
rm -rf "$d"
