#!/usr/bin/env python3
"""Regenerate DESIGN.md: the hand-written text of tools/design_head.md and tools/design_props.json, joined with the recorded
contracts (contracts/baseline.json), the assumptions the contract modules state, and the planted bugs."""
import json, os, re, sys, glob, importlib
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [H, H + '/contracts', H + '/pyvc']
base = json.load(open(H + '/contracts/baseline.json'))
txt = json.load(open(H + '/tools/design_props.json'))
out = [open(H + '/tools/design_head.md').read().rstrip(), '', '# Per property', '']
for l in open(H + '/properties.jsonl'):
    d = json.loads(l); p = d['id']; t = txt.get(p, {})
    out += ['## %s %s' % (p, d['title']), '']
    names = [k.split('/', 1)[1] for k, v in sorted(base.items()) if k.startswith(p + '/') and v['status'] == 'proved']
    if names: out.append('Proved for all inputs (%d contracts): %s.' % (len(names), '; '.join(names))); out.append('')
    if t.get('how'): out += [t['how'], '']
    rule = re.search(r"\.rule = '(.*)'", open(H + '/dyn/%s.py' % p).read())
    out += ['Bounded part (executable contracts, never counted as proved): %s%s' % (rule.group(1) + '.' if rule else '', ' ' + t['bounded'] if t.get('bounded') else ''), '']
    if os.path.exists(H + '/contracts/%s.py' % p):
        A = importlib.import_module(p).ASSUMPTIONS
        if A: out += ['Assumed: ' + '; '.join(A) + '.', '']
    if t.get('note'): out += [t['note'], '']
out += ['# Planted bugs', '', 'Each lives in seeded/<id>/ with a demonstration. All of them are caught by the quick check of their property.', '', '| bug | needs | caught by |', '|---|---|---|']
for m in sorted(glob.glob(H + '/seeded/*/meta.json')):
    j = json.load(open(m)); i = os.path.basename(os.path.dirname(m))
    out.append('| %s | %s | %s |' % (i, j['needs'], txt.get('_caught', {}).get(i, 'executable contract (failing input), ' + ('and the obligation of the changed function' if any(k.startswith(j['property'] + '/') for k in base) else 'no deductive contract there'))))
open(H + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
