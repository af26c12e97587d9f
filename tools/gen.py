#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from tools/props.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import props
seen = set()
out, checks, na = [], [], []
for p in props.PROPS:
    assert p['id'] not in seen, p['id']
    seen.add(p['id'])
    assert len(p['title']) <= 80, (p['id'], len(p['title']))
    assert p['statement'].count('. ') <= 2, p['id']
    mech = [{'name': n, 'where': w} for n, w in p['mechanism']]
    files = p['files']
    for f in files: assert os.path.exists(os.path.join('/repo', f)), (p['id'], f)
    out.append({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                'quantifier': {'over': p['over'], 'text': p['forall']}, 'why_tests_cant': p['why'],
                'anchors': {'files': files, 'mechanism': mech, 'observe_at': p.get('observe', []), 'hook_needed': None}})
    if 'na' in p: na.append({'property': p['id'], 'reason': p['na']})
    else:
        checks.append({'property': p['id'], 'quick_cmd': './check ' + p['id'], 'thorough_cmd': './check %s --tier thorough' % p['id'],
                       'technique': p.get('technique', 'contract-based deductive verification of the real code (LLVM IR, path-wise VC generation, z3)'),
                       'level': p['level'], 'level_note': p['note']})
open(os.path.join(V, 'properties.jsonl'), 'w').write(''.join(json.dumps(o) + '\n' for o in out))
json.dump({'version': 1, 'setup_cmd': './check --setup', 'checks': checks, 'not_applicable': na,
           'notes': 'One engine decides every property: harness/*.cpp state the contracts, engine/ generates and discharges the obligations from the bitcode of /repo\'s current sources. See DESIGN.md.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(out), 'properties', len(checks), 'checks')
