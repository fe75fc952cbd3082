#!/usr/bin/env python3
"""Writes ../DESIGN.md: design_head.md, the per-property section (from properties.jsonl and the check modules), the planted bugs and their
results (tools/caught.json), design_tail.md."""
import ast, json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = R + '/tools/'


def consts(path):
    out = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('RULE', 'EXPLAIN', 'BOUNDS', 'ASSUME', 'MIN_PROVED'):
            try: out[n.targets[0].id] = ast.literal_eval(n.value)
            except ValueError: pass
    return out


props = [json.loads(l) for l in open(R + '/properties.jsonl')]
na = json.load(open(T + 'not_applicable.json'))
caught = json.load(open(T + 'caught.json')) if os.path.exists(T + 'caught.json') else {}
o = [open(T + 'design_head.md').read().rstrip(), '', '## Property by property', '']
for p in props:
    i = p['id']
    o.append(f"### {i} {p['title']}\n")
    f = f'{R}/sa/checks/{i.lower()}.py'
    if not os.path.exists(f):
        o.append(f"Not applicable: {na.get(i, '')}.\n")
        continue
    c = consts(f)
    o.append(f"*Specified*: {c['RULE']}.\n")
    o.append(f"*Analysed*: {c['EXPLAIN']}\n")
    o.append(f"*Bounds*: {c['BOUNDS']}." + (f" *Assumes*: {'; '.join(c['ASSUME'])}." if c.get('ASSUME') else '') + '\n')
    o.append(f"*Why tests cannot settle it*: {p['why_tests_cant']}\n")
    b = [k for k in sorted(caught) if caught[k]['property'] == i]
    if b: o.append('*Planted*: ' + ', '.join(f"`{k}`" + ('' if caught[k]['caught'] else ' (missed)') for k in b) + '.\n')
fx = [l for l in open(R + '/known_findings.txt') if l.startswith('fixed:')]
tail = open(T + 'design_tail.md').read()
rows = [(l.split()[2], l.split()[1].split('=')[1], ' '.join(l.split()[3:])) for l in fx]
o.append(tail.replace('@FIXES@\n', ''.join(f'| {c} | {p} | {t} |\n' for c, p, t in rows if c not in tail)).rstrip())
o += ['', '## Planted bugs and what catches them', '', '| planted bug | property | caught | failing obligation | reported in |', '|---|---|---|---|---|']
for k in sorted(caught, key=lambda k: (caught[k]['property'], k)):
    v = caught[k]
    o.append(f"| {k} | {v['property']} | {'yes, ' + str(v['s']) + ' s' if v['caught'] else 'NO'} | {v['by'].replace('|', '/')} | `{v['where']}` |")
open(R + '/DESIGN.md', 'w').write('\n'.join(o) + '\n')
print(len(props), 'properties', len(caught), 'planted bugs', sum(v['caught'] for v in caught.values()), 'caught')
