#!/bin/bash
# seed_test.sh ID [notests]: confirm a planted change in a scratch copy (demo passes without, fails with it; tests pass)
id=$1; d=/verif/seeded/$id; w=/tmp/seed_$id
rm -rf "/tmp/seed_$id"; cp -a /repo $w; cd $w
(cd /repo && timeout 300 bash $d/demo.sh >/tmp/seed_$id.d0 2>&1); r0=$?
git apply $d/patch.diff || { echo "$id: patch does not apply"; rm -rf "/tmp/seed_$id"; exit 1; }
sed "s#/repo#$w#g" /opt/vp/build.sh > /tmp/seed_$id.b.sh; bash /tmp/seed_$id.b.sh >/tmp/seed_$id.b 2>&1; rb=$?
(cd $w && timeout 300 bash $d/demo.sh >/tmp/seed_$id.d1 2>&1); r1=$?
if [ -z "$2" ]; then sed "s#/repo#$w#g" /opt/vp/test.sh > /tmp/seed_$id.t.sh; bash /tmp/seed_$id.t.sh /tmp/seed_$id.json >/tmp/seed_$id.t 2>&1
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed_$id.json'))
def names(x,k='passed'):
    return set(x.get(k) or x.get('stable') or x.get('tests') or [])
p=set(r['passed']) if 'passed' in r else set()
print("$id missing:", sorted(names(b)-p)[:5], len(p))
P
fi
echo "$id: clean demo $r0 (want 0), build $rb, patched demo $r1 (want nonzero)"
if [ -n "$3" ]; then cd /verif; VF_REPO=$w timeout 880 ./check $3 quick 2>&1 | tail -4; fi
rm -rf "/tmp/seed_$id"
