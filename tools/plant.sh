#!/bin/bash
# plant.sh ID...: apply seeded bug, build, run the repository's tests, the demo and the property's check; undo.
for id in "$@"; do
  d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo diff --quiet || { echo dirty; exit 1; }
  (cd /repo && bash $d/demo.sh >/tmp/plant.demo0 2>&1); d0=$?
  git -C /repo apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  if bash /opt/vp/build.sh >/tmp/plant.build 2>&1; then b=ok; else b=FAIL; fi
  bash /opt/vp/test.sh /tmp/plant.json >/dev/null 2>&1
  t=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/plant.json'))
def names(x):
    for k in ('passed','pass','stable'):
        if k in x: return set(x[k])
    return set(x)
m=names(b)-names(o)
print('ok' if not m else 'FAIL '+str(sorted(m)[:4]))
P
)
  (cd /repo && bash $d/demo.sh >/tmp/plant.demo1 2>&1); d1=$?
  cd /verif; VERIF_TIER=quick VERIF_SEED=1 python3 check.py ${CHECK:-$p} >/tmp/plant.check 2>&1; c=$?
  git -C /repo checkout -q -- .
  echo "$id prop=$p build=$b tests=$t demo=$d0/$d1 check=$c $(grep -c VIOLATION /tmp/plant.check)"
done
