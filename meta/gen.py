#!/usr/bin/python3
"""Generates properties.jsonl and MANIFEST.json from meta/props.py (documentation only; no check reads this)."""
import json, os, sys
H = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(H); sys.path.insert(0, H); sys.path.insert(0, V)
sys.dont_write_bytecode = True
from props import PROPS, NA
from rules import REGISTRY
out = []; checks = []; na = []
for p in PROPS + NA:
    out.append({'id': p['id'], 'title': p['title'], 'statement': p['st'], 'quantifier': {'over': p['over'].split(), 'text': p['q']},
                'why_tests_cant': p['why'], 'anchors': {'files': p['files'].split(), 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}})
    assert len(p['title']) <= 80, p['id']
    assert p['st'].count('. ') <= 3, p['id']
for p in PROPS:
    assert p['id'] in REGISTRY, p['id']
    checks.append({'property': p['id'], 'quick_cmd': 'python3 /verif/check.py %s quick' % p['id'], 'thorough_cmd': 'python3 /verif/check.py %s thorough' % p['id'],
                   'technique': p['tech'], 'level': 'other', 'level_note': p['note']})
for p in NA: na.append({'property': p['id'], 'reason': p['reason']})
assert set(REGISTRY) == {p['id'] for p in PROPS}, set(REGISTRY) ^ {p['id'] for p in PROPS}
open(V + '/properties.jsonl', 'w').write(''.join(json.dumps(x) + '\n' for x in out))
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na}, open(V + '/MANIFEST.json', 'w'), indent=1)
try:
    import jsonschema
except ImportError: jsonschema = None
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in out: jsonschema and jsonschema.validate(x, s)
jsonschema and jsonschema.validate(json.load(open(V + '/MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
print(len(out), 'properties', len(checks), 'checks')

# ---------------------------------------------------------------- DESIGN.md
import importlib, glob, textwrap
costs = json.load(open(H + '/costs.json')) if os.path.exists(H + '/costs.json') else {}
res = json.load(open(H + '/seed_results.json')) if os.path.exists(H + '/seed_results.json') else {}
seeds = []
for f in sorted(glob.glob(H + '/seeds/*.py')):
    ns = {}; exec(open(f).read(), ns); seeds += ns['SEEDS']
fixes = [l.strip() for l in open(V + '/known_findings.txt') if l.startswith(('fixed:', 'finding:'))]
d = open(H + '/design_head.md').read()
for p in PROPS:
    m, f = REGISTRY[p['id']]; doc = ' '.join((getattr(importlib.import_module('rules.' + m), f).__doc__ or '').split())
    doc = doc[6:] if doc.startswith('Rule: ') else doc
    d += '\n### %s %s\n\n' % (p['id'], p['title'])
    d += '* **Decided by** %s (`rules/%s.py: %s`): %s\n' % (p['tech'], m, f, doc)
    d += '* **Over** %s. %s\n' % (p['q'], p['note'].replace(p.get('base', ''), ''))
    d += '* **Why not tests**: %s\n' % p['why']
    c = costs.get(p['id'])
    if c: d += '* **Cost**: quick %s s, thorough %s s; %s obligations.\n' % (c.get('quick', '?'), c.get('thorough', '?'), c.get('obligations', '?'))
    for l in fixes:
        if 'property=%s ' % p['id'] in l:
            t = l.split(' ', 2); d += '* **%s** %s\n' % ('Defect repaired' if l.startswith('fixed') else 'Known finding', t[2])
    for s in seeds:
        if s['prop'] == p['id']: d += '* **Planted** `%s` (%s): %s\n' % (s['id'], s['breaks'], res.get(s['id'], 'not measured'))
if NA:
    d += '\n## Not applicable\n\n'
    for p in NA: d += '* %s %s: %s\n' % (p['id'], p['title'], p['reason'])
d += '\n' + open(H + '/design_tail.md').read()
open(V + '/DESIGN.md', 'w').write(d)
