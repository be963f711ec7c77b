#!/usr/bin/env python3
"""Fill DESIGN.md from DESIGN.in.md: per property the rule module's description, rules, assumptions; seeds and the checks that catch them; N/A list."""
import ast, re, os, json, glob
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = json.load(open(H + '/MANIFEST.json'))
props = {json.loads(l)['id']: json.loads(l) for l in open(H + '/properties.jsonl')}
seeds = {}
for d in sorted(glob.glob(H + '/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    seeds.setdefault(m['property'], []).append((os.path.basename(d), m))
COST = json.load(open(H + '/tools/cost.json')) if os.path.exists(H + '/tools/cost.json') else {}
out = []
for c in M['checks']:
    i = c['property']
    s = open(H + '/rules/%s.py' % i.lower()).read()
    t = ast.parse(s)
    out.append('### %s %s\n' % (i, props[i]['title']))
    out.append('Technique: %s.  %s' % (c['technique'], c['level_note']))
    out.append('')
    out.append((ast.get_docstring(t) or '').strip())
    out.append('')
    for m in re.findall(r"ctx\.rule\('([^']+)',\s*(?:'((?:[^'\\]|\\.)+)'|\"([^\"]+)\")(?:,\s*(\d+))?", s):
        out.append('* `%s`: %s%s' % (m[0], (m[1] or m[2]).replace("\\'", "'"), ' (at least %s obligations)' % m[3] if m[3] else ''))
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == 'ASSUMES':
            out.append('* assumes: ' + '; '.join(ast.literal_eval(n.value)))
    if i in COST:
        out.append('* last run: %s obligations decided, %s undecided, %s s' % tuple(COST[i]))
    out.append('* why tests cannot: ' + props[i]['why_tests_cant'])
    out.append('')
na = ['* %s %s: %s' % (x['property'], props[x['property']]['title'], x['reason']) for x in M['not_applicable']]
sd = ['| planted bug | needs | breaks | caught by |', '|---|---|---|---|']
for i in sorted(seeds):
    for n, m in seeds[i]:
        sd.append('| %s | %s | %s | %s |' % (n, m['needs'], m['what_it_breaks'], i))
src = open(H + '/DESIGN.in.md').read()
open(H + '/DESIGN.md', 'w').write(src.replace('@@PROPS@@', '\n'.join(out)).replace('@@NA@@', '\n'.join(na)).replace('@@SEEDS@@', '\n'.join(sd)))
