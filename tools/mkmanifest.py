"""Writes /verif/MANIFEST.json from the contracts that exist."""
import os, sys, json
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from pyded import runner
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    lv = runner.level_of(i)
    if i in runner.NOT_APPLICABLE or not runner.quals_for(i):
        na.append({'property': i, 'reason': runner.NOT_APPLICABLE.get(i, 'contracts not written yet')})
        continue
    checks.append({'property': i, 'quick_cmd': './vp.py check %s --tier quick' % i, 'thorough_cmd': './vp.py check %s --tier thorough' % i,
                   'technique': runner.TECHNIQUE.get(i, runner.TECHNIQUE['*']), 'level': lv, 'level_note': runner.NOTES.get(i, runner.NOTES['*'])})
m = {'version': 1, 'setup_cmd': './vp.py list > /dev/null', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', [x['property'] for x in na])
