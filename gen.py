"""Writes properties.jsonl and MANIFEST.json from props/statements.py."""
import json
import os

from props.statements import PROPERTIES

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for p in PROPERTIES:
        mech = [{'name': n, 'where': w} for n, w in p['mechanism']]
        f.write(json.dumps({
            'id': p['id'], 'title': p['title'], 'statement': p['statement'],
            'quantifier': {'over': p['over'], 'text': p['quant']},
            'why_tests_cant': p['why'],
            'anchors': {'files': p['files'], 'mechanism': mech, 'observe_at': p.get('observe', []),
                        'hook_needed': None},
        }) + '\n')
checks, na = [], []
for p in PROPERTIES:
    if p.get('na'):
        na.append({'property': p['id'], 'reason': p['na']})
        continue
    checks.append({
        'property': p['id'],
        'quick_cmd': 'VERIF_TIER=quick python3-vt check.py %s' % p['id'],
        'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py %s' % p['id'],
        'technique': p['technique'],
        'level': 'model_checking',
        'level_note': p['note'],
    })
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump({'version': 1, 'setup_cmd': 'python3-vt -c "import z3, sys; sys.exit(0)"',
               'checks': checks, 'not_applicable': na,
               'notes': 'no hooks are needed in /repo; see DESIGN.md'}, f, indent=1)
    f.write('\n')

# ---- DESIGN.md ----
import importlib

from docs.how import HOW

out = [open(os.path.join(here, 'docs', 'head.md')).read(), '## Properties\n\n']
for p in PROPERTIES:
    out.append('### %s %s\n\n' % (p['id'], p['title']))
    if p.get('na'):
        out.append('Not applicable: %s\n\n' % p['na'])
        continue
    spec = importlib.import_module('props.' + p['id'].lower()).SPEC
    how = HOW[p['id']]
    for k, t in (('How', how[0]), ('Oracle', how[1]), ('Bounds', spec['bounds']), ('Outside', spec['outside']),
                 ('Assumptions', '; '.join(spec['assumptions'])), ('Why tests cannot', how[2])):
        if t:
            out.append('* %s: %s.\n' % (k, t.rstrip('.')))
    out.append('\n')
seeds = []
for s in sorted(os.listdir(os.path.join(here, 'seeded'))):
    with open(os.path.join(here, 'seeded', s, 'meta.json')) as f:
        m = json.load(f)
    seeds.append('* `%s` (%s): %s. Needs %s.\n' % (s, m['property'], m['what_it_breaks'].rstrip('.'), m['needs'].rstrip('.')))
out.append(open(os.path.join(here, 'docs', 'tail.md')).read().replace('@SEEDS@\n', ''.join(seeds) + '\n'))
with open(os.path.join(here, 'DESIGN.md'), 'w') as f:
    f.write(''.join(out))
