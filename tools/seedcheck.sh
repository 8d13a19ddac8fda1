#!/bin/bash
# seedcheck.sh [-n] ID...: confirm each planted bug in a scratch copy, then (without -n) run its check on /repo with it applied
nocheck=; [ "$1" = -n ] && { nocheck=1; shift; }
cd /verif
[ $# = 0 ] && set -- $(ls seeded)
for id in "$@"; do
  s=/verif/seeded/$id; prop=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
  a=$( (cd /repo && bash $s/demo.sh >/tmp/sc.out 2>&1; echo $?) )
  git -C /repo apply $s/patch.diff || { echo "$id: NOAPPLY"; continue; }
  bash /opt/vp/build.sh >/tmp/sc.build 2>&1 || echo "$id: BUILD FAILS"
  bash /opt/vp/test.sh /tmp/sc.json >/dev/null 2>&1
  miss=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/sc.json'))
def names(x,k):
    v=x.get(k) or x.get('stable') or x.get('passed') or x
    return set(v if isinstance(v,list) else [n for n,s in v.items() if s in ('pass','passed',True)])
print(sorted(names(b,'tests')-names(o,'passed')))
P
)
  b=$( (cd /repo && bash $s/demo.sh >/tmp/sc.out2 2>&1; echo $?) )
  r=-; l=
  if [ -z "$nocheck" ]; then t0=$(date +%s); python3-vt check.py $prop >/tmp/sc.chk 2>&1; r=$?; l="$(grep VIOLATION /tmp/sc.chk | head -1) $(( $(date +%s)-t0 ))s"; fi
  git -C /repo checkout -q -- .
  echo "$id $prop demo:$a/$b lost:$miss check:$r $l"
done
bash /opt/vp/build.sh >/dev/null 2>&1
