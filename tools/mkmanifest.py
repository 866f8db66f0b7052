import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
mods = json.load(open(H + '/contracts/modules.json'))
claimed = {p for ps in mods.values() for p in ps}
notes = json.load(open(H + '/tools/notes.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if i in claimed:
        checks.append(dict(property=i, quick_cmd=f'./check.py {i} --tier quick', thorough_cmd=f'./check.py {i} --tier thorough',
                           technique='contract-based deductive verification of the real Python functions (own VC generator, z3/cvc5)',
                           level='proof', level_note=notes.get(i, notes['default'])))
    else:
        na.append(dict(property=i, reason=notes.get('na:' + i, 'contracts for this property are not finished yet')))
m = dict(version=1, setup_cmd='./setup.sh', checks=checks)
if na: m['not_applicable'] = na
m['notes'] = 'See DESIGN.md. No hooks in /repo.'
json.dump(m, open(H + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not')
