#!/usr/bin/env python3
"""Single source for properties.jsonl and MANIFEST.json: python3 tools/props.py rewrites both."""
import os
import json

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=observe))


G = 'python/getdist/'
exec(open(os.path.join(HERE, 'tools', 'proplist.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        a = dict(files=p['files'], mechanism=[dict(name=n, where=w) for n, w in p['mech']])
        if p['observe']:
            a['observe_at'] = p['observe']
        f.write(json.dumps(dict(id=p['id'], title=p['title'], statement=p['statement'],
                                quantifier=dict(over=p['over'], text=p['text']), why_tests_cant=p['why'],
                                anchors=a)) + '\n')
checks, na = [], []
for p in P:
    if os.path.exists(os.path.join(HERE, 'checks', p['id'].lower() + '.py')):
        checks.append(dict(property=p['id'], quick_cmd='./check %s quick' % p['id'],
                           thorough_cmd='./check %s thorough' % p['id'],
                           evidence_file='evidence/%s.json' % p['id'], technique=p['technique'], level='exploration',
                           level_note=p['note']))
    else:
        na.append(dict(property=p['id'], reason='check still under construction'))
m = dict(version=1,
         setup_cmd='./setup.sh',
         checks=checks, not_applicable=na,
         notes='No hooks: everything is observed through the public Python API, files and command lines. '
               'Checks import the code from /repo/python in fresh processes; nothing is compiled.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
for p in P:
    assert len(p['title']) <= 80, p['title']
    assert p['statement'].count('. ') <= 2, p['id']
print(len(P), 'properties', len(checks), 'checks')

# DESIGN.md: per-property sections, from the same source plus the RULE/ASSUMPTIONS of each check
import ast
import re


def consts(path):
    out = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], 'id', '') in ('RULE', 'ASSUMPTIONS'):
            out[node.targets[0].id] = ast.literal_eval(node.value)
    return out


lines = []
for p in P:
    path = os.path.join(HERE, 'checks', p['id'].lower() + '.py')
    lines.append('### %s %s\n' % (p['id'], p['title']))
    lines.append('* Property: %s' % p['statement'].strip())
    lines.append('* Technique: %s.' % p['technique'].rstrip('.'))
    if os.path.exists(path):
        c = consts(path)
        text = open(path).read()
        lines.append('* Generated: %s.' % c['RULE'].rstrip('.'))
        lines.append('* Cases: %s.' % ', '.join(
            '`%s`' % n for n in re.findall(r'^@case\((?:.|\n)*?\ndef (\w+)\(', text, re.M)))
        lines.append('* Assumptions: %s.' % '; '.join(c['ASSUMPTIONS']))
    lines.append('* Bounds and strength: %s' % p['note'])
    lines.append('* Beyond the tests: %s\n' % p['why'])
d = open(os.path.join(HERE, 'DESIGN.md')).read()
d = re.sub(r'(<!-- BEGIN GENERATED[^\n]*\n)(?:.|\n)*?(<!-- END GENERATED -->)', lambda m: m.group(1) + '\n'.join(lines) + m.group(2), d)
rows = ['| bug | property | needs | caught by |', '|---|---|---|---|']
S = os.path.join(HERE, 'seeded')
for b in sorted(os.listdir(S)) if os.path.isdir(S) else []:
    m = json.load(open(os.path.join(S, b, 'meta.json')))
    rows.append('| %s | %s | %s | %s |' % (b, m['property'], m['needs'], m.get('caught_by', '?')))
d = re.sub(r'(<!-- BEGIN BUGS -->\n)(?:.|\n)*?(<!-- END BUGS -->)', lambda m: m.group(1) + '\n'.join(rows) + '\n' + m.group(2), d)
open(os.path.join(HERE, 'DESIGN.md'), 'w').write(d)
