#!/bin/bash
# t.sh C10 ...: build, run, show classes
out=$(bash /verif/harness/b.sh); echo "$out"; [[ "$out" == *error* ]] && exit 1
for p in "$@"; do
  bash /verif/run.sh check $p; echo "exit $?"
  python3 -c "
import json;d=json.load(open('/verif/evidence/$p.json'))
print(d['wall_s'])
for s in d['coverage'].get('scenarios',[]): print(s['scenario'],s['wall_s'],s['classes'])"
done
