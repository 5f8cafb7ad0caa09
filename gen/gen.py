#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from props.py (run by hand, in /verif)."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, here)
from props import PROPS, NA
root = os.path.dirname(here)
with open(os.path.join(root, 'properties.jsonl'), 'w') as f:
    for p in PROPS + NA:
        d = {k: p[k] for k in ('id', 'title', 'statement')}
        assert len(d['title']) <= 80, d['title']
        assert d['statement'].count('. ') <= 2, (p['id'], d['statement'])
        d['quantifier'] = {'over': p['over'], 'text': p['q']}
        d['why_tests_cant'] = p['why']
        d['anchors'] = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
        if 'state' in p:
            d['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
        f.write(json.dumps(d) + '\n')
man = {'version': 1, 'setup_cmd': 'bash tool/build.sh', 'checks': [], 'not_applicable': [{'property': p['id'], 'reason': p['reason']} for p in NA],
       'notes': 'One analyser (tool/) decides every property from /repo\'s current source; see DESIGN.md.'}
for p in PROPS:
    man['checks'].append({'property': p['id'], 'quick_cmd': './bin/babverif check %s quick' % p['id'], 'thorough_cmd': './bin/babverif check %s thorough' % p['id'],
        'technique': p['tech'], 'level': 'other', 'level_note': p['note']})
json.dump(man, open(os.path.join(root, 'MANIFEST.json'), 'w'), indent=1)
print(len(PROPS), 'claimed', len(NA), 'not applicable')

# DESIGN.md
import glob
out = [open(os.path.join(here, 'design_head.md')).read(), '## Properties and how each is decided\n']
for p in PROPS:
    out.append('### %s %s\n\n%s\n\n*Rule.* %s\n\n*Why this reaches what tests cannot.* %s\n\n*Strength.* %s\n' % (p['id'], p['title'], p['statement'], p['how'], p['why'], p['note']))
if NA:
    out.append('## Not applicable\n')
    for p in NA:
        out.append('- **%s %s**: %s' % (p['id'], p['title'], p['reason']))
    out.append('')
out.append('## Planted changes and what catches them\n\n| change | property | needs | breaks | caught by |\n|---|---|---|---|---|')
caught = {}
cf = os.path.join(here, 'caught.json')
if os.path.exists(cf):
    caught = json.load(open(cf))
for d in sorted(glob.glob(os.path.join(root, 'seeded', '*', 'meta.json'))):
    m = json.load(open(d)); i = d.split('/')[-2]
    out.append('| %s | %s | %s | %s | %s |' % (i, m['property'], m['needs'], m['what_it_breaks'], ', '.join(caught.get(i, []))))
out.append('')
out.append(open(os.path.join(here, 'design_tail.md')).read())
open(os.path.join(root, 'DESIGN.md'), 'w').write('\n'.join(out))
