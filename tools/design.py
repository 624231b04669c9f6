#!/usr/bin/env python3
"""Writes DESIGN.md from tools/design/*.md, the META of the properties, known_findings.txt and seeded/."""
import ast
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(HERE)


def names(path):
    out = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], 'id', '') in ('META', 'RULE', 'ASSUMPTIONS', 'TESTS'):
            n = node.targets[0].id
            if n == 'TESTS':
                out[n] = [(t.args[0].value, t.args[2].value) for t in node.value.elts]
            else:
                out[n] = eval(compile(ast.Expression(node.value), path, 'eval'))
    return out


results = json.load(open('tools/design/seeds.json')) if os.path.exists('tools/design/seeds.json') else {}
o = [open('tools/design/head.md').read(), '\n## The properties\n']
for path in sorted(glob.glob('props/p[0-9][0-9].py')):
    pid = os.path.basename(path)[:-3].upper()
    x = names(path)
    m = x['META']
    o.append('### %s — %s\n' % (pid, m['title']))
    o.append('%s\n' % m['statement'])
    o.append('* **Generated**: %s.' % m['quantifier'])
    o.append('* **Oracle**: %s.' % m['oracle'])
    o.append('* **Observed**: %s.' % ', '.join(m['observe']))
    o.append('* **Tests** (cases of a quick run): %s.' % ', '.join('%s (%d)' % t for t in x['TESTS']))
    o.append('* **Non-trivial**: %s' % x['RULE'])
    if x.get('ASSUMPTIONS'):
        o.append('* **Bounds and assumptions**: %s.' % '; '.join(x['ASSUMPTIONS']))
    o.append('* **Beyond the tests**: %s' % m['why'])
    o.append('* **Level**: exploration. %s' % m['level_note'])
    cost = json.load(open('tools/design/cost.json')).get(pid) if os.path.exists('tools/design/cost.json') else None
    if cost:
        o.append('* **Cost**: about %d s for a quick run on 8 cores.' % cost)
    o.append('')
o.append(open('tools/design/tail.md').read())
fixed = {}
for l in open('known_findings.txt'):
    if l.startswith('KNOWN-FINDING'):
        o.append('* ' + l.strip())
    elif l.startswith('fixed:'):
        p = l.split('property=')[1].split()[0]
        fixed.setdefault(p, []).append(l.strip().split(' ', 2)[2])
o.append('\nRepaired, by the property whose check found it:\n')
for p in sorted(fixed):
    o.append('* %s: %s' % (p, '; '.join(fixed[p])))
o.append('\n## Planted bugs\n\nEach one in `seeded/<id>/`, confirmed in a scratch copy by `tools/mkseed.py` (demo passes without it and fails with it, stable tests pass with it, only lines '
         'of the original repository changed). `tools/runseeds.py` runs the quick check of its property against it.\n')
o.append('| bug | property | needs | quick check |\n|---|---|---|---|')
for i in sorted(os.listdir('seeded')) if os.path.isdir('seeded') else []:
    meta = json.load(open('seeded/%s/meta.json' % i))
    o.append('| %s | %s | %s | %s |' % (i, meta['property'], meta['needs'], results.get(i, '')))
if os.path.exists('tools/design/seeds.md'):
    o.append('\n' + open('tools/design/seeds.md').read())
open('DESIGN.md', 'w').write('\n'.join(o) + '\n')
