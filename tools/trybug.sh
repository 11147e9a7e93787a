#!/bin/bash
# trybug.sh ID... : for each planted bug, demo on both trees, stable tests, and the property's check
for id in "$@"; do
d=/verif/seeded/$id; p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
cd /repo; git diff --quiet || { echo "repo dirty"; exit 1; }
bash $d/demo.sh >/tmp/demo0.txt 2>&1; d0=$?
git apply $d/patch.diff || { echo "$id: patch fails"; continue; }
bash $d/demo.sh >/tmp/demo1.txt 2>&1; d1=$?
if [ -z "$NOTEST" ]; then bash /opt/vp/test.sh /tmp/tb.json >/tmp/tb.txt 2>&1
t=$(python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/tb.json'))
def flat(x):
    if isinstance(x,dict) and 'tests' in x: x=x['tests']
    if isinstance(x,dict): return {k:(v if isinstance(v,str) else v.get('status') or v.get('outcome')) for k,v in x.items()}
    return {t if isinstance(t,str) else t.get('id') or t.get('name'):(t.get('status') or t.get('outcome') if isinstance(t,dict) else 'pass') for t in x}
def passed(x):
    for k in ('stable','passed','pass','stable_pass'):
        if isinstance(x,dict) and k in x: return set(x[k])
    return {k for k,v in flat(x).items() if v and v.startswith('pass')}
miss=passed(b)-passed(r)
print(len(miss), sorted(miss)[:3])
P
); fi
cd /verif; start=$SECONDS
bash -c "$(python3 -c "
import json
for c in json.load(open('/verif/MANIFEST.json'))['checks']:
    if c['property']=='$p': print(c['quick_cmd'])")" >/tmp/tbcheck.txt 2>&1; c=$?
git -C /repo checkout -- .
echo "$id property=$p demo unchanged=$d0 patched=$d1 tests-lost=$t check=$c ($((SECONDS-start))s) $(grep -m1 VIOLATION /tmp/tbcheck.txt)"
done
