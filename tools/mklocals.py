#!/usr/bin/env python3
"""contracts/locals.json: the names of local variables and the number of loops the contracts were written against.
Run after changing a contract; the checks use it to follow renamed locals."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'vx'))
import gen, plan, literals
p = os.path.join(HERE, 'contracts', 'locals.json')
old = open(p).read() if os.path.exists(p) else '{}'; open(p, 'w').write('{}')
out = {}; shapes = {}
for name, g in plan.GROUPS.items():
    cs = gen.group_contracts(g); G = gen.Gen(g['units'], cs); G.heap = g.get('heap') or []; G.canon = {}; G.shapes = {}
    for c in cs:
        if c.extern: continue
        try: _, info = G.translate(c)
        except gen.Unsupported as e: print(c.rust, e); continue
        if info['extern']: continue
        nxt = {a: list(dict.fromkeys(x for x in info['log'][info['log'].index(a) + 1:] if x != a))[:6] for a in info['at'] if a in info['log'] and not a.startswith('loop ')}
        if nxt: out[c.rust + '#next'] = nxt
        out[c.rust] = info['locals']; out[c.rust + '#loops'] = info['loops']; out[c.rust + '#kinds'] = info['kinds']; shapes[c.rust] = info['shape']
json.dump(shapes, open(os.path.join(HERE, 'contracts', 'shapes.json'), 'w'), indent=0, sort_keys=True)
json.dump(out, open(p, 'w'), indent=0, sort_keys=True)
json.dump(literals.mine(gen.REPO), open(literals.STORE, 'w'))
print(len(shapes), 'functions')
