#!/bin/sh
# development helper: run one check, show the tail and the scenario table
cd /verif && python3 check.py "$@" 2>&1 | grep -v -e '^warning' | tail -${TAIL:-30}
python3 - "$1" <<'PY'
import json,sys
e=json.load(open(f'/verif/evidence/{sys.argv[1]}.json'))
for s in e['coverage']['scenarios']: print('  ',s['scenario'],s['profile'],s['executions'],s['cases'],s['complete'])
PY
