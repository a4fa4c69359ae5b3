#!/usr/bin/env python3
"""regenerates properties.jsonl and MANIFEST.json from tools/props.py"""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE, LEVEL_NOTES  # noqa
V = os.path.dirname(HERE)
have = {f.split('_')[0].upper() for f in os.listdir(V + '/checks')
        if f.endswith('.py')}
with open(V + '/properties.jsonl', 'w') as f:
    for p in PROPS:
        f.write(json.dumps(p) + '\n')
checks, na = [], []
for p in PROPS:
    i = p['id']
    if i in NOT_APPLICABLE:
        na.append(dict(property=i, reason=NOT_APPLICABLE[i]))
    elif i in have:
        checks.append(dict(
            property=i,
            quick_cmd='./run.sh %s quick' % i,
            thorough_cmd='./run.sh %s thorough' % i,
            technique='solver-based bounded symbolic execution of the real '
                      'Python code (z3)',
            level='model_checking', level_note=LEVEL_NOTES[i]))
    else:
        na.append(dict(property=i, reason='check not built yet'))
json.dump(dict(version=1, setup_cmd='./setup.sh',
               checks=checks, not_applicable=na),
          open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(PROPS), 'properties', len(checks), 'checks', len(na), 'n/a')


# ---- DESIGN.md
import ast  # noqa
import glob  # noqa
out = [open(HERE + '/design_head.md').read()]
for p in PROPS:
    i = p['id']
    out.append('### %s %s\n' % (i, p['title']))
    out.append('%s\n' % p['statement'])
    if i in NOT_APPLICABLE:
        out.append('*Not applicable:* %s\n' % NOT_APPLICABLE[i])
        continue
    mod = glob.glob(V + '/checks/%s_*.py' % i.lower())
    if not mod:
        continue
    d = {}
    for n in ast.parse(open(mod[0]).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) \
                and n.targets[0].id in ('BOUNDS', 'ASSUMPTIONS'):
            d[n.targets[0].id] = ast.literal_eval(n.value)
    out.append('* Check: `checks/%s`. %s' % (
        os.path.basename(mod[0]), ' '.join(LEVEL_NOTES[i].split())))
    out.append('* Bounds: %s.' % d['BOUNDS'])
    if d.get('ASSUMPTIONS'):
        out.append('* Assumptions: %s.' % '; '.join(d['ASSUMPTIONS']))
    out.append('* For every: %s. Tests: %s.' % (
        p['quantifier']['text'], p['why_tests_cant']))
    out.append('* Anchors: %s.\n' % ', '.join(
        '`%s`' % m['where'] for m in p['anchors']['mechanism']))
if NOT_APPLICABLE:
    pass
out.append('## 4. Known findings\n')
kf = [x.strip() for x in open(V + '/known_findings.jsonl') if x.strip()]
known = [json.loads(x) for x in kf if x.startswith('{')]
if known:
    for k in known:
        out.append('* %s `%s`: %s' % (k.get('property', ''),
                                      k.get('harness', ''), k['what']))
else:
    out.append('None: every genuine defect that was found has been repaired.')
out.append('\n## 5. Repaired defects\n')
out.append('Each was found as a violation of the property, confirmed on the '
           'real code and repaired by its own `fix:` commit in /repo.\n')
for x in kf:
    if x.startswith('fixed:'):
        w = x.split(None, 3)
        out.append('* %s (`%s`): %s' % (w[1].split('=')[1], w[2], w[3]))
out.append('')
out.append(open(HERE + '/design_tail.md').read())
out.append('| id | property | what it breaks | needs | caught |')
out.append('|---|---|---|---|---|')
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    d = json.load(open(m))
    out.append('| %s | %s | %s | %s | %s |' % (
        m.split('/')[-2], d['property'], d['what_it_breaks'], d['needs'],
        d.get('caught', 'yes')))
open(V + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
