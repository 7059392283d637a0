"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(V, 'properties.jsonl'), 'w') as o:
    for p in props.P + [n['p'] for n in props.NOT_APPLICABLE]:
        o.write(json.dumps({k: p[k] for k in ('id', 'title', 'statement', 'quantifier', 'why_tests_cant', 'anchors')}) + '\n')
m = {'version': 1, 'setup_cmd': 'python3 lib/setup.py',
     'checks': [{'property': p['id'], 'quick_cmd': 'python3 check.py %s quick' % p['id'], 'thorough_cmd': 'python3 check.py %s thorough' % p['id'],
                 'technique': 'value-flow analysis (abstract interpretation with value numbering) against reviewed behaviour' + ('; rules: ' + ', '.join(p['rules']) if p['rules'] else ''),
                 'level': 'other',
                 'level_note': 'Every path of the functions in scope, for all inputs, at the level of the abstract value flow; library and AST calls are uninterpreted. Functions whose rewritten form cannot be matched exactly are noted as undecided, not reported.'}
                for p in props.P],
     'not_applicable': [{'property': n['p']['id'], 'reason': n['reason']} for n in props.NOT_APPLICABLE]}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
