#!/bin/bash
# refresh tools/cost.json and DESIGN.md
cd "$(dirname "$0")/.."
python3 check.py --all --tier quick 2>&1 | grep decided, | python3 -c "
import sys,re,json
d={}
for l in sys.stdin:
    m=re.match(r'\s*(\w+): (\d+) obligations decided, (\d+) undecided, (\d+) violated .*in ([\d.]+)s',l)
    d[m[1]]=[int(m[2]),int(m[3]),round(float(m[5]))]
    if m[4]!='0': print('VIOLATED',l)
json.dump(d,open('tools/cost.json','w'),indent=0,sort_keys=True)
print(d)"
python3 tools/gen.py; python3 tools/design.py
