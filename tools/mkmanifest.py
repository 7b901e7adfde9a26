"""MANIFEST.json from the list of claimed checks"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
CLAIMED = {}
exec(open(V + '/tools/claims.py').read())
m = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3"', 'checks': [], 'not_applicable': []}
for p in props:
    i = p['id']
    if i in CLAIMED:
        lvl, note = CLAIMED[i]
        m['checks'].append({'property': i, 'quick_cmd': 'python3-vt check.py --property %s --tier quick' % i, 'thorough_cmd': 'python3-vt check.py --property %s --tier thorough' % i,
                            'technique': 'contract-based deductive verification of the real code (clang AST, symbolic weakest preconditions, loop invariants, z3/cvc5)', 'level': lvl, 'level_note': note})
    else:
        m['not_applicable'].append({'property': i, 'reason': NA.get(i, 'not yet under contract')})
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(m['checks']), 'claimed')
