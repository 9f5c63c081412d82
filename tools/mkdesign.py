#!/usr/bin/env python3
"""writes DESIGN.md from docs/, props/ and seeded/"""
import ast
import glob
import json
import os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rd = lambda *p: open(os.path.join(root, *p)).read()
out = [rd('docs', 'design_head.md').rstrip(), '', '## Properties', '']
meth = dict(l.split(' ', 1) for l in rd('docs', 'methods.txt').splitlines() if l.strip())
for l in rd('properties.jsonl').splitlines():
    p = json.loads(l)
    d = {}
    for n in ast.parse(rd('props', p['id'].lower() + '.py')).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') in ('BOUNDS', 'ASSUMPTIONS'):
            try:
                d[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError:
                pass
    out += ['### %s %s' % (p['id'], p['title']), '', meth[p['id']], '']
    if d.get('BOUNDS'):
        out += [d['BOUNDS'] + ' Thorough adds the larger configurations listed in `props/%s.py`.' % p['id'].lower(), '']
    if d.get('ASSUMPTIONS'):
        out += ['Assumes: ' + '; '.join(d['ASSUMPTIONS']) + '.', '']
out += ['## Planted bugs', '', 'Each is in `seeded/`; the check named found it (exit 1, VIOLATION line) on the quick tier.', '']
caught = dict(l.split(' ', 1) for l in rd('docs', 'caught.txt').splitlines() if l.strip())
for f in sorted(glob.glob(os.path.join(root, 'seeded', '*', 'meta.json'))):
    n = os.path.basename(os.path.dirname(f))
    m = json.load(open(f))
    out += ['* `%s` (%s): %s Needs: %s Caught by: %s' % (n, m['property'], m['what_it_breaks'].rstrip('.') + '.', m['needs'].rstrip('.') + '.', caught.get(n, 'not caught'))]
if os.path.exists(os.path.join(root, 'docs', 'campaign.md')):
    out += ['', rd('docs', 'campaign.md').rstrip()]
open(os.path.join(root, 'DESIGN.md'), 'w').write('\n'.join(out) + '\n')
