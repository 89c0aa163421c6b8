"""Write MANIFEST.json from properties.jsonl and the checks present."""
import json
import os

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
}
NOTE = (
    'Holds for every value within the bounds that the evidence states, by '
    'the verdict of z3 on each path of the real code; trusts CPython, z3, '
    'the engine lib/symx.py and the reference semantics in the check. ')
notes = dict()
props = [json.loads(x) for x in open(os.path.join(here, 'properties.jsonl'))]
checks, na = list(), list()
for p in props:
    i = p['id']
    f = os.path.join(here, 'checks', f'{i.lower()}.py')
    if i in NA or not os.path.exists(f):
        na.append(dict(property=i, reason=NA.get(i, 'check not built yet')))
        continue
    t = open(f).read()
    assert 'def harnesses' in t
    checks.append(dict(
        property=i,
        quick_cmd=f'./run.sh {i}',
        thorough_cmd=f'VERIF_TIER=thorough ./run.sh {i}',
        technique=(
            'symbolic execution of the real Python code with z3: forking on '
            'symbolic inputs, solver-decided assertions, native replay'),
        level='other',
        level_note=NOTE + notes.get(i, '')))
m = dict(
    version=1, setup_cmd='./setup.sh',
    hooks=dict(
        guard='none', enable='no hooks: the checks import /repo/tulip as is',
        source_commits=[]),
    checks=checks, not_applicable=na)
with open(os.path.join(here, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks;', len(na), 'not applicable')
