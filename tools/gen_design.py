#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design/*.md, the check modules and seeded/."""
import ast
import json
import os
import textwrap

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def consts(path):
    out = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) \
                and n.targets[0].id in ('TECHNIQUE', 'LEVEL_NOTE',
                                        'ASSUMPTIONS'):
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


def wrap(text, indent=''):
    return textwrap.fill(text, 79, initial_indent=indent,
                         subsequent_indent='  ' if indent else '',
                         break_long_words=False, break_on_hyphens=False)


def part(name):
    return open(os.path.join(HERE, 'tools', 'design', name)).read()


costs = json.load(open(os.path.join(HERE, 'tools', 'design', 'costs.json')))
limits = json.load(open(os.path.join(HERE, 'tools', 'design', 'limits.json')))
bugs = {}
base = os.path.join(HERE, 'seeded')
for bug in sorted(os.listdir(base)):
    meta = json.load(open(os.path.join(base, bug, 'meta.json')))
    bugs.setdefault(meta['property'], []).append((bug, meta))

out = [part('head.md'), '## Properties\n']
for line in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(line)
    c = consts(os.path.join(HERE, 'mc', 'checks', p['id'].lower() + '.py'))
    out.append('### %s: %s\n' % (p['id'], p['title']))
    out.append(wrap(p['statement']) + '\n')
    out.append(wrap('**Quantified over**: ' + p['quantifier']['text'] + '.',
                    '* '))
    out.append(wrap('**Decided by**: ' + c['TECHNIQUE'] + '.', '* '))
    out.append(wrap('**Specified and enumerated**: ' + c['LEVEL_NOTE'], '* '))
    if c.get('ASSUMPTIONS'):
        out.append(wrap('**Assumed**: ' + '; '.join(c['ASSUMPTIONS']) + '.',
                        '* '))
    if p['id'] in limits:
        out.append(wrap('**Left open**: ' + limits[p['id']], '* '))
    out.append(wrap('**Beyond the tests**: ' + p['why_tests_cant'], '* '))
    out.append(wrap('**Anchored in**: ' + ', '.join(
        sorted(set(m['where'] for m in p['anchors']['mechanism']))) + '.',
        '* '))
    cost = costs.get(p['id'], {})
    if cost:
        out.append(wrap('**Cost**: ' + '; '.join(
            '%s %s' % (t, cost[t]) for t in ('quick', 'thorough')
            if t in cost) + '.', '* '))
    if p['id'] in bugs:
        out.append(wrap('**Planted bugs** (all caught by this check): '
                        + ', '.join(b for b, _ in bugs[p['id']]) + '.', '* '))
    out.append('')
out.append(part('tail.md'))
out.append('| planted bug | property | needs |\n|---|---|---|')
for pid in sorted(bugs):
    for bug, meta in bugs[pid]:
        out.append('| %s | %s | %s |' % (
            bug, pid, meta['needs'].replace('|', '/').replace('\n', ' ')))
with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
    f.write('\n'.join(out) + '\n')
