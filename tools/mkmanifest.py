#!/usr/bin/env python3
# writes MANIFEST.json from the list of claimed checks
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
TECH = {
 'C01': ('contract on keccakF1600 (Go and assembly); symbolic execution to verification conditions, discharged by algebraic normal forms with per-round cut points', 'unbounded: all states, both builds'),
}
exec(open(V + '/tools/claims.py').read())
NA = {
 'C21': 'relational property of two whole key-agreement runs resting on isogeny theory (commutativity of the class group action / of isogeny compositions); no function contract within reach of the verifier expresses it. Its ingredients are decided as C09-C17.',
 'C22': 'non-functional (timing/trace) property: contracts over values cannot express it and the verifier has no relational trace semantics.',
}
checks, na = [], []
for p in props:
    i = p['id']
    if i in TECH:
        t, n = TECH[i]
        checks.append({'property': i, 'quick_cmd': 'bin/check ' + i, 'thorough_cmd': 'VERIF_TIER=thorough bin/check ' + i, 'technique': t, 'level': 'proof', 'level_note': n})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'not claimed yet: contracts for this part are not finished')})
json.dump({'version': 1, 'setup_cmd': 'bin/setup', 'checks': checks, 'not_applicable': na}, open(V + '/MANIFEST.json', 'w'), indent=1)
