#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from the META of the property modules (tools/gen.py)."""
import ast
import glob
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(HERE)
TECH = ('property-based testing: generated cases (choice-sequence generation, integrated shrinking) decided by %s')


def meta(path):
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and getattr(node.targets[0], 'id', '') == 'META':
            return eval(compile(ast.Expression(node.value), path, 'eval'))
    raise SystemExit('no META in ' + path)


props, checks = [], []
for path in sorted(glob.glob('props/p[0-9][0-9].py')):
    pid = os.path.basename(path)[:-3].upper()
    m = meta(path)
    assert len(m['title']) <= 80, (pid, m['title'])
    props.append({
        'id': pid, 'title': m['title'], 'statement': m['statement'],
        'quantifier': {'over': m['over'], 'text': m['quantifier']},
        'why_tests_cant': m['why'],
        'anchors': {'files': m['files'],
                    'mechanism': [{'name': n, 'where': w} for n, w in m['mechanism']],
                    'observe_at': m['observe'], 'hook_needed': None}})
    checks.append({
        'property': pid, 'quick_cmd': 'bin/check %s quick' % pid, 'thorough_cmd': 'bin/check %s thorough' % pid,
        'evidence_file': 'evidence/%s.json' % pid, 'technique': TECH % m['oracle'], 'level': 'exploration',
        'level_note': m['level_note']})
na = json.load(open('tools/not_applicable.json')) if os.path.exists('tools/not_applicable.json') else []
with open('properties.jsonl', 'w') as f:
    for p in props + [x['entry'] for x in na]:
        f.write(json.dumps(p, ensure_ascii=False) + '\n')
with open('MANIFEST.json', 'w') as f:
    json.dump({'version': 1,
               'setup_cmd': 'bin/setup',
               'checks': checks,
               'not_applicable': [{'property': x['entry']['id'], 'reason': x['reason']} for x in na],
               'notes': 'Pure Python: nothing is built, every check imports the working tree of /repo (PYTHONPATH). '
                        'No hooks in /repo. bin/check --replay FILE replays a shrunk failure.'}, f, indent=1)
    f.write('\n')
try:
    import jsonschema
    for p in props:
        jsonschema.validate(p, json.load(open('/root/.vp/PROPERTIES.schema.json')))
    jsonschema.validate(json.load(open('MANIFEST.json')), json.load(open('/root/.vp/MANIFEST.schema.json')))
    print('valid', len(props))
except ImportError:
    print('written', len(props))
