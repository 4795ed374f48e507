#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from one table (run after editing it)."""
import json, os, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
P = []
def prop(id, title, statement, over, text, why, files, mech, tech, note, observe=None):
    assert len(title) <= 80, title
    P.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                   anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe or [], hook_needed=None)),
              tech, note))

EN = 'bounded exhaustive enumeration (explicit-state style, on the real code)'
exec(open(os.path.join(HERE, 'properties.py')).read())

NA = []
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p, _, _ in P:
        f.write(json.dumps(p) + '\n')
man = {'version': 1, 'setup_cmd': 'mkdir -p .work evidence out',
       'checks': [dict(property=p['id'], quick_cmd='python3 run_check.py %s' % p['id'],
                       thorough_cmd='VERIF_TIER=thorough python3 run_check.py %s' % p['id'],
                       evidence_file='evidence/%s.json' % p['id'], technique=t, level='model_checking', level_note=n) for p, t, n in P],
       'not_applicable': NA,
       'notes': 'No hooks are compiled into /repo: every explorer includes the headers of /repo/src (and compiles libhifir/src) from the working tree.'}
json.dump(man, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
from checks import CHECKS
d = open(os.path.join(HERE, 'design_head.md')).read() + '## Properties\n\n'
for p, t, n in P:
    c = CHECKS[p['id']]
    d += '### %s %s\n\n%s\n\n' % (p['id'], p['title'], p['statement'])
    d += '* Enumerated (%s): %s\n* Case and oracle: %s\n* Decided by: %s\n* Explorers: %s\n* Bounds and limits: %s\n* Why tests cannot: %s\n* Anchors: %s\n\n' % (
        ', '.join(p['quantifier']['over']), p['quantifier']['text'], c['rule'], t,
        ', '.join('`%s`' % (j.get('src') or 'harness/' + j['flags'][0]).replace('harness/', '') + (' (%s)' % ' '.join(j['flags']) if j.get('src') and j.get('flags') else '') for j in c['jobs']),
        n, p['why_tests_cant'], ', '.join('`%s`' % m['where'] for m in p['anchors']['mechanism']))
if NA:
    d += '## Not applicable\n\n' + ''.join('* %s: %s\n' % (x['property'], x['reason']) for x in NA) + '\n'
d += '## Planted bugs\n\nEach is in `seeded/<id>/`; "caught by" is the claim\'s own quick check.\n\n| id | property | breaks | needs |\n|---|---|---|---|\n'
sd = os.path.join(HERE, 'seeded')
for x in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, x, 'meta.json')))
    cl = lambda v: str(v).replace('|', '/').replace('\n', ' ')
    d += '| %s | %s | %s | %s |\n' % (x, m['property'], cl(m['what_it_breaks']), cl(m['needs']))
if os.path.isdir(sd):
    open(os.path.join(HERE, 'DESIGN.md'), 'w').write(d + '\n' + open(os.path.join(HERE, 'design_tail.md')).read())
ids = [p['id'] for p, _, _ in P]
assert sorted(ids) == sorted(CHECKS), set(ids) ^ set(CHECKS)
try:
    import jsonschema
    s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
    for p, _, _ in P: jsonschema.validate(p, s)
    jsonschema.validate(man, json.load(open('/root/.vp/MANIFEST.schema.json')))
    print('schemas ok', len(P))
except ImportError:
    print('no jsonschema', len(P))
