#!/bin/bash
# Developer helper: seedtest.sh [-n] ID...   validate planted changes (demo clean/patched, stable tests unless -n, check)
NOT=0; [ "$1" = -n ] && { NOT=1; shift; }
for id in "$@"; do
  D=/verif/seeded/$id; P=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
  cd /repo; [ -z "$(git status --porcelain -uno)" ] || { echo dirty; exit 2; }
  bash $D/demo.sh >/tmp/demo.out 2>&1; a=$?
  git apply $D/patch.diff || { echo "$id: patch fails"; continue; }
  bash /opt/vp/build.sh >/dev/null 2>&1; b=$?
  bash $D/demo.sh >/tmp/demo2.out 2>&1; c=$?
  t=skipped
  if [ $NOT = 0 ]; then bash /opt/vp/test.sh /tmp/seed.json >/dev/null 2>&1
   t=$(python3 - <<'P'
import json
r=json.load(open('/tmp/seed.json')); s=json.load(open('/opt/vp/BASELINE.json'))['stable']
ok=set(r.get('passed',[]))
m=[x for x in s if x not in ok]
print('ok' if not m else 'BROKEN:%s'%m)
P
); fi
  /verif/check $P quick >/tmp/seedcheck.out 2>&1; d=$?
  v=$(grep -c "^VIOLATION property=$P" /tmp/seedcheck.out)
  git checkout -q -- .
  bash /opt/vp/build.sh >/dev/null 2>&1
  echo "$id prop=$P clean-demo=$a build=$b patched-demo=$c tests=$t check-exit=$d violations=$v $([ $a = 0 ] && [ $b = 0 ] && [ $c != 0 ] && [ $d = 1 ] && echo CAUGHT || echo NOT-CAUGHT-OR-INVALID)"
done
