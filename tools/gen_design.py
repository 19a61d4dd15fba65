#!/usr/bin/env python3
"""Regenerate DESIGN.md from tools/design_notes.py, tools/props.py, known_findings.json, seeded/*/meta.json and tools/seed_results.json"""
import os, sys, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/tools')
from design_notes import HEAD, NOTES, TAIL
from props import PROPS
import props
out = [HEAD, '\n## Properties\n']
for p in PROPS:
    out.append('### %s %s\n' % (p['id'], p['title']))
    out.append(NOTES.get(p['id'], '').strip() + '\n')
    out.append('*Bounds:* %s. *Beyond tests:* %s\n' % (p['quant'].rstrip('.'), p['why']))
NA = getattr(props, 'NOT_APPLICABLE', [])
if NA:
    out.append('\n## Not applicable\n')
    for n in NA:
        out.append('* %s: %s' % (n['id'], n['reason']))
K = json.load(open(V + '/known_findings.json'))
out.append('\n## Genuine defects found\n')
out.append('Recorded, not repaired:\n' + ('\n'.join('* ' + f['property'] + ': ' + f['what'] for f in K['findings']) or '* none'))
out.append('\nRepaired in /repo (one `fix:` commit each):\n')
for f in K['fixed']:
    out.append('* ' + f.replace('fixed: property=', ''))
fn = V + '/tools/seed_results.json'
R = json.load(open(fn)) if os.path.exists(fn) else {}
out.append('\n## Planted changes and what catches them\n')
out.append('| change | property | needs | quick check |\n|---|---|---|---|')
for d in sorted(os.listdir(V + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
    out.append('| %s | %s | %s | %s |' % (d, m['property'], m['needs'], R.get(d, '?')))
out.append('\nEvery planted change was written from the property text and the code; several were first missed (p06-*, p07-sticky-assume, p08-*, '
           'p10-nan-prior, p11-break-before, p12-limit-flag, p13-chi-order, p15-add-aliased-var, p16-fft-cache-key) and led to the sections that now catch them. '
           'Mutation sweeps (`tools/mutate.py`) were used the same way.\n')
out.append(TAIL)
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
