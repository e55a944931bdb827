#!/bin/bash
# plant.sh <seed id> [check...] : applies the planted bug to /repo, builds, runs its demo, the stable tests and the given checks, undoes it, runs the demo again
# SKIPTEST=1 leaves the tests out
S=/verif/seeded/$1; id=$1; shift
cd /repo || exit 2
[ -z "$(git status --porcelain)" ] || { echo "repo not clean"; exit 2; }
L=/tmp/w/plant; mkdir -p $L
git apply "$S/patch.diff" || { echo "$id: patch does not apply"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
if bash /opt/vp/build.sh >$L/$id.build 2>&1; then echo "$id: builds"; else echo "$id: BUILD FAILS"; tail -5 $L/$id.build; exit 1; fi
timeout 300 bash $S/demo.sh >$L/$id.demo1 2>&1; rc=$?
echo "$id: demo with the bug rc=$rc $( [ $rc -ne 0 ] && echo ok || echo BAD)"; tail -3 $L/$id.demo1
for c in "$@"; do
  VSTAT_EVIDENCE=$L/ev timeout 900 python3 /verif/vstat/check.py $c >$L/$id.$c 2>&1; echo "$id: $c rc=$? $(grep -o '^[^ ]*: \[[a-z/-]*\]' $L/$id.$c | head -3 | tr '\n' ' ') $(grep -E '^ERROR|Error' $L/$id.$c | head -1)"
done
if [ -z "$SKIPTEST" ]; then
  bash /opt/vp/test.sh $L/$id.json >$L/$id.test 2>&1
  python3 - "$L/$id.json" "$id" <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'))['stable']
try: r=json.load(open(sys.argv[1]))
except Exception as e: print(sys.argv[2],'no results',e); sys.exit()
ps=set(r.get('passed') or [t['name'] for t in r.get('tests',[]) if t.get('status')=='passed'])
print("%s: stable tests failing: %s"%(sys.argv[2],[t for t in b if t not in ps]))
P
fi
git checkout -q -- .
bash /opt/vp/build.sh >/dev/null 2>&1
timeout 300 bash $S/demo.sh >$L/$id.demo0 2>&1; rc=$?
echo "$id: demo without the bug rc=$rc $( [ $rc -eq 0 ] && echo ok || { echo BAD; tail -3 $L/$id.demo0; })"
