#!/bin/bash
# seed.sh ID...: confirm planted bugs on private copies of /repo: applies, builds, stable tests pass, demo 0/nonzero, and whether the property's check catches it
for id in "$@"; do (
s=/verif/seeded/$id; d=/tmp/seed.$id; rm -rf "/tmp/seed.$id"; cp -a /repo "$d"; cp -a $s /tmp/seed.$id.demo; rm -f /tmp/seed.$id.demo/*.diff /tmp/seed.$id.demo/meta.json
p=$(python3 -c "import json;print(json.load(open('$s/meta.json'))['property'])")
unshare -Urm bash -c "mount --bind $d /repo; cd /repo; git checkout -q -- . 
bash /tmp/seed.$id.demo/demo.sh > /tmp/seed.$id.log 2>&1; a=\$?
git apply $s/patch.diff || { echo '$id: DOES NOT APPLY'; exit; }
bash /opt/vp/build.sh > /tmp/seed.$id.build 2>&1; b=\$?
bash /opt/vp/test.sh /tmp/seed.$id.json > /dev/null 2>&1
bash /tmp/seed.$id.demo/demo.sh >> /tmp/seed.$id.log 2>&1; z=\$?
t=\$(python3 -c \"
import json; b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/seed.$id.json')); s=b.get('stable') or b.get('passed') or b.get('tests'); print('missing',sorted(set(s)-set(r['passed']))[:5])\")
cd /verif; c=skipped; [ -z \"\$NOCHECK\" ] && { c=\$(timeout 900 python3 check.py $p --tier quick --seed 1 2>&1 | grep -E 'VIOLATION|ERROR|cases,' | tr '\n' ' '); }
echo \"$id: demo clean=\$a patched=\$z build=\$b tests: \$t check: \$c\""
rm -rf "/tmp/seed.$id" "/tmp/seed.$id.demo" ) & [ $(jobs -r | wc -l) -ge ${J:-3} ] && wait -n; done; wait
