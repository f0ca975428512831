#!/bin/bash
# developer helper: several workers of one property
p=$1; n=${N:-6}
for i in $(seq 0 $((n-1))); do NUMBA_DISABLE_JIT=${NOJIT:-1} NUMBA_CACHE_DIR=${NC:-/tmp/w/nc} /opt/venv/bin/python /verif/harness/run.py $p --seed ${SEED:-1} --worker $i --workers $n --seconds ${S:-40} --out /tmp/w/o_$p.$i.json & done; wait
python3 - <<P
import json,glob
e=0
for f in sorted(glob.glob('/tmp/w/o_$p.*.json')):
    r=json.load(open(f)); e+=r['evaluations']
    for x in r['failures']: print(json.dumps(x)[:1200])
print('$p',e)
P
rm -f /tmp/w/o_$p.*.json
