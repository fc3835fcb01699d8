#!/bin/bash
# run all claimed checks on the current tree (development aid)
cd /verif || exit 1
python3 - <<'P' | xargs -P 4 -I{} sh -c 'ECGEN_EVIDENCE=${ECGEN_EVIDENCE:-/tmp/all.ev} {} > /tmp/all.$$ 2>&1; r=$?; tail -1 /tmp/all.$$ | cut -c1-180 | sed "s/^/$r /"; rm -f /tmp/all.$$'
import json
for x in json.load(open('/verif/MANIFEST.json'))['checks']: print(x['quick_cmd'])
P
