#!/bin/bash
# trybug.sh ID: demo on the clean tree, then patch /repo, build, test, demo, check, and undo.
# Options: -n no tests
id=$1; d=/verif/seeded/$id
python3 /verif/tools/mkseed.py $d || exit 1
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo; git diff --quiet || { echo "dirty"; exit 1; }
bash $d/demo.sh > /tmp/demo.$id.clean 2>&1; echo "$id clean demo: $?"
git apply $d/patch.diff || { echo "patch fails"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ "$2" != "-n" ]; then
bash /opt/vp/build.sh > /tmp/b.$id 2>&1; echo "$id build: $?"
bash /opt/vp/test.sh /tmp/t.$id.json > /tmp/tl.$id 2>&1
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/t.$id.json'))
def names(x):
    for k in ('passed','stable','tests'):
        if k in x: return set(x[k])
    return set(x)
print('$id stable tests failing:', sorted(names(b)-set(t.get('passed',[])))[:5])
P
fi
bash $d/demo.sh > /tmp/demo.$id.bug 2>&1; echo "$id bug demo: $?"; tail -2 /tmp/demo.$id.bug
cd /verif; timeout 900 python3 check.py $prop > /tmp/c.$id 2>&1; echo "$id check: $?"; grep -E "VIOLATION|undecided|obligations" /tmp/c.$id | cut -c1-200
