#!/bin/bash
# tools/plant.sh ID [CHECK...]: confirm a planted bug of /verif/seeded/ID in a scratch copy, then run checks on it.
# Never touches /repo. Not used by any check.
v=$(cd "$(dirname "$0")/.." && pwd); R=${R:-/repo}
id=$1; shift
d=$v/seeded/$id
[ -f $d/patch.diff ] || { echo no patch; exit 2; }
w=/tmp/plant-$id
trap '[ -n "$id" ] && rm -rf "/tmp/plant-$id" "/tmp/plant-$id.json"' EXIT
cp -a $R $w
git -C $w checkout -q -- . 
( cd $R && timeout 300 bash $d/demo.sh >/tmp/plant-$id.o 2>&1 ); r0=$?
git -C $w apply $d/patch.diff || { echo "PATCH DOES NOT APPLY"; exit 2; }
( cd $w && timeout 300 bash $d/demo.sh >/tmp/plant-$id.o1 2>&1 ); r1=$?
rm -f /tmp/plant-$id.o
echo "demo: clean=$r0 patched=$r1 $(tail -1 /tmp/plant-$id.o1)"; rm -f /tmp/plant-$id.o1
if [ -z "$NOTEST" ]; then
unshare -Urm sh -c "mount --bind $w /repo; bash /opt/vp/build.sh >/tmp/plant-$id.b 2>&1 || echo BUILD FAILED; bash /opt/vp/test.sh /tmp/plant-$id.json >/dev/null 2>&1"
rm -f /tmp/plant-$id.b
python3 - $id <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/plant-%s.json'%sys.argv[1]))
bp=b['stable']
ps=set(r['passed']); miss=[x for x in bp if x not in ps]
print("tests: passed %d, missing from baseline %d %s"%(len(ps),len(miss),miss[:3]))
P
fi
p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
[ $# = 0 ] && set -- $p
for c in "$@"; do
  s=$(date +%s); o=$(cd $v && SIM_REPO=$w VERIF_SEED=${VERIF_SEED:-1} python3 check.py $c 2>&1); rc=$?
  echo "check $c rc=$rc $(( $(date +%s)-s ))s: $(echo "$o" | grep -a -m1 -E 'VIOLATION|error|flaky' | cut -c1-200)"
  echo "$o" | grep -a -E '^(class|  |msg)' | head -3
done
