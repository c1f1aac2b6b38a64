#!/usr/bin/env python3
"""Writes MANIFEST.json from the contracts: a property is claimed as proved when obligations carry its name
and PROVED lists it; everything else is a bounded stand-in and labelled so."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'vx'))
import plan
checks = []
for l in open(os.path.join(HERE, 'properties.jsonl')):
    p = json.loads(l)['id']
    pr = plan.PROVED.get(p)
    if pr:
        c = dict(technique='contract-based deductive verification (Verus contracts on functions extracted from the sources); the real code is run for a failing input', level='proof',
                 level_note=pr + ' Trusted: the extraction (vx/trans.py on the clang AST), the standard-library contracts in verus/prelude.rs, Verus and Z3; a function the extraction cannot bind on a changed tree falls back to the bounded harness and the evidence says so.')
    else:
        c = dict(technique='bounded stand-in: seeded and small exhaustive runs of the real code against an independent oracle (contracts not discharged for this property)', level='exploration',
                 level_note=plan.BOUNDED.get(p, 'Bounded: seeded cases within the time budget; nothing is proved.'))
    checks.append(dict(property=p, quick_cmd='python3 check.py %s' % p, thorough_cmd='VERIF_TIER=thorough python3 check.py %s' % p, evidence_file='evidence/%s.json' % p, **c))
m = dict(version=1, setup_cmd='sh setup.sh', checks=checks, not_applicable=[])
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1); print(len(checks), 'checks', sum(1 for c in checks if c['level'] == 'proof'), 'proved')
