#!/usr/bin/env python3
"""Write DESIGN.md: the general part below, the docstrings of the rules, notes per property and the planted changes."""
import ast, glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
GENERAL = open(os.path.join(ROOT, 'tools', 'design_general.md')).read()
NOTES = {}
for part in open(os.path.join(ROOT, 'tools', 'design_notes.md')).read().split('\n## ')[1:]:
    k, text = part.split('\n', 1)
    NOTES[k.strip()] = text.strip()
props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
man = json.load(open(os.path.join(ROOT, 'MANIFEST.json')))
claimed = {c['property']: c for c in man['checks']}
na = {c['property']: c['reason'] for c in man['not_applicable']}
seeds = {}
for m in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
    d = json.load(open(m))
    seeds.setdefault(d['property'], []).append((os.path.basename(os.path.dirname(m)), d))
out = [GENERAL.rstrip(), '', '# Properties and how they are decided', '']
for p in props:
    i = p['id']
    out += ['## %s %s' % (i, p['title']), '', '*Property.* ' + p['statement'], '']
    if i in na:
        out += ['*Not applicable to static analysis:* ' + na[i] + '.', '']
        if i in NOTES:
            out += [NOTES[i], '']
        continue
    t = ast.parse(open(os.path.join(ROOT, 'rules', i.lower() + '.py')).read())
    out += ['*Deciding method* (%s; `rules/%s.py`).' % (claimed[i]['technique'] if i in claimed else 'not claimed', i.lower()), '',
            ast.get_docstring(t), '']
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], 'id', '') == 'ASSUMPTIONS':
            try:
                ast.literal_eval(n.value)
            except ValueError:
                continue
            out += ['*Assumed:* ' + '; '.join(ast.literal_eval(n.value)) + '.', '']
    if i in NOTES:
        out += [NOTES[i], '']
    if i in seeds:
        out += ['*Planted changes:*', '']
        for name, d in seeds[i]:
            out.append('- `%s` %s (needs: %s): %s' % (name, d['what_it_breaks'], d['needs'],
                                                    'missed' if d.get('missed') else 'caught by ' + i))
        out.append('')
open(os.path.join(ROOT, 'DESIGN.md'), 'w').write('\n'.join(out).rstrip() + '\n')
