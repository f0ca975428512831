#!/bin/bash
# developer helper: run one worker and summarise
for p in "$@"; do NUMBA_DISABLE_JIT=${NOJIT:-1} NUMBA_CACHE_DIR=${NC:-/tmp/w/nc} /opt/venv/bin/python /verif/harness/run.py $p --seed ${SEED:-1} --seconds ${S:-15} --out /tmp/w/o_$p.json; python3 -c "
import json;r=json.load(open('/tmp/w/o_$p.json'));print('$p',r['evaluations'],r['nontrivial'],r['skipped'],r['wall_s']);[print(json.dumps(f)[:1500]) for f in r['failures']]"; done
