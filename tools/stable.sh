#!/bin/bash
# rebuild /repo and run its stable tests
bash /opt/vp/build.sh >/dev/null 2>&1; bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
base=b.get('stable') or b.get('passed') or b.get('tests') or b
print('missing', [t for t in base if t not in o['passed']] if isinstance(base,list) else (list(b), len(o['passed'])))
P
git -C /repo status --short | head -3
