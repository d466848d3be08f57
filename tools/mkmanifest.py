#!/usr/bin/env python3
import json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, R); sys.dont_write_bytecode = True
from contracts import registry
props = [json.loads(l) for l in open(R+'/properties.jsonl')]
TECH = 'contract-based deductive verification: contracts on the functions of /repo, obligations generated from the Clang AST of the current source by symbolic execution with inferred and proved loop invariants, discharged by z3 and field-identity reasoning; '
checks = []; na = []
for p in props:
    c = registry.PROPS.get(p['id'])
    if not c: na.append(dict(property=p['id'], reason=registry.NA[p['id']])); continue
    checks.append(dict(property=p['id'], quick_cmd='python3 run.py %s quick' % p['id'], thorough_cmd='python3 run.py %s thorough' % p['id'], technique=TECH+c.get('tech', 'bounded driver on the compiled code as replay and stand-in'),
        level=c.get('level', 'proof'), level_note=c.get('note', 'All obligations must be discharged from the current source; the bounded driver is a labelled stand-in.')))
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na, notes='python3 run.py <ID> <tier>; see DESIGN.md'), open(R+'/MANIFEST.json', 'w'), indent=1)
