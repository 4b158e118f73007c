"""Regenerates properties.jsonl and MANIFEST.json from props.py and the check modules present."""
import json, os, sys, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, ROOT)
from props import PROPS
import ast

COST = json.load(open(os.path.join(HERE, 'cost.json'))) if os.path.exists(os.path.join(HERE, 'cost.json')) else {}

with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
    for q in PROPS:
        f.write(json.dumps(q) + '\n')

checks, na = [], []
for q in PROPS:
    path = os.path.join(ROOT, 'mc', 'checks', q['id'].lower() + '.py')
    if not os.path.exists(path):
        na.append({'property': q['id'], 'reason': 'no check built yet'})
        continue
    consts = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and len(node.targets) == 1 and getattr(node.targets[0], 'id', '') in ('TECHNIQUE', 'LEVEL_NOTE'):
            consts[node.targets[0].id] = ast.literal_eval(node.value)
    checks.append({'property': q['id'],
                   'quick_cmd': './check %s quick' % q['id'],
                   'thorough_cmd': './check %s thorough' % q['id'],
                   'technique': consts['TECHNIQUE'],
                   'level': 'model_checking',
                   'level_note': consts['LEVEL_NOTE']})
man = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
       'notes': 'No hooks are needed in /repo: the checks own randomness, the debugger and the file system from outside (see DESIGN.md). known_findings.json lists recorded and fixed defects.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(man, f, indent=1)
    f.write('\n')
print(len(checks), 'checks;', [n['property'] for n in na], 'not claimed')

# DESIGN.md = head + one section per property + tail + detection matrix
sec = ['## Properties\n']
for q in PROPS:
    path = os.path.join(ROOT, 'mc', 'checks', q['id'].lower() + '.py')
    d = {}
    for node in ast.parse(open(path).read()).body:
        if isinstance(node, ast.Assign) and len(node.targets) == 1 and getattr(node.targets[0], 'id', '') in ('TECHNIQUE', 'LEVEL_NOTE', 'RULE', 'BOUNDS', 'ASSUMPTIONS'):
            d[node.targets[0].id] = ast.literal_eval(node.value)
    b = d['BOUNDS'] if isinstance(d['BOUNDS'], dict) else {'quick': d['BOUNDS'], 'thorough': 'the same'}
    sec.append('### %s %s\n' % (q['id'], q['title']))
    sec.append(q['statement'] + '\n')
    sec.append('* method: %s' % d['TECHNIQUE'])
    sec.append('* enumerated: %s' % d['RULE'])
    sec.append('* bounds (quick): %s' % b['quick'])
    sec.append('* bounds (thorough): %s' % b['thorough'])
    sec.append('* oracle / strength: %s' % d['LEVEL_NOTE'])
    sec.append('* assumptions: %s' % '; '.join(d['ASSUMPTIONS']))
    sec.append('* cost: %s' % COST.get(q['id'], 'quick under a minute'))
    sec.append('* why tests cannot settle it: %s\n' % q['why_tests_cant'])
rd = lambda n: open(os.path.join(HERE, n)).read() if os.path.exists(os.path.join(HERE, n)) else ''
with open(os.path.join(ROOT, 'DESIGN.md'), 'w') as f:
    f.write(rd('design_head.md') + '\n'.join(sec) + rd('design_tail.md') + rd('design_matrix.md'))
