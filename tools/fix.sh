#!/bin/bash
# usage: fix.sh "message"
cd /repo
bash /opt/vp/test.sh /tmp/o.json >/tmp/tst.log 2>&1
ok=$(python3 -c "
import json
o=json.load(open('/tmp/o.json'));b=json.load(open('/opt/vp/BASELINE.json'))
print(1 if set(b['stable'])<=set(o['passed']) else 0)")
if [ "$ok" = 1 ]; then git add -u yangson; git commit -qm "fix: $1"; git log --oneline | head -1; else tail -40 /tmp/tst.log; python3 -c "
import json
o=json.load(open('/tmp/o.json'));b=json.load(open('/opt/vp/BASELINE.json'))
print(set(b['stable'])-set(o['passed']))"; fi
git status --short
