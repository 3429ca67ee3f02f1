#!/usr/bin/env python3
"""Write MANIFEST.json for the checks that exist under pbt/checks."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    'C05': 'model-based history generation (signature counter) against a reference model',
    'C06': 'metamorphic tampering fuzzing of accepted ceremonies',
    'C07': 'fault injection into the registrar with a recording stand-in',
    'C08': 'stateful model-based ceremony histories against a reference model',
    'C09': 'structure-aware fuzzing of ceremony bytes and registrar behaviour',
    'C10': 'byte-level and structure-aware parser fuzzing with an error-class oracle',
    'C30': 'schedule and history generation (deterministic thread interleaving) against the result '
           'of each operation alone and the reference model',
    'C28': 'stateful model-based builder histories against a reference model',
}
checks = []
props = [json.loads(l) for l in open(os.path.join(HERE, 'properties.jsonl'))]
for p in props:
    i = p['id']
    if not os.path.exists(os.path.join(HERE, 'pbt/checks/%s.py' % i.lower())):
        continue
    checks.append({
        'property': i, 'quick_cmd': './run.sh %s' % i,
        'thorough_cmd': './run.sh %s --tier thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': TECH.get(i, 'property-based testing (structured generators) against an '
                                 'independent reference model'),
        'level': 'exploration',
        'level_note': 'Generated-input search with an explicit oracle and shrinking; trusts '
                      'the oracle in pbt/ and, for the curve and Edwards primitives, the '
                      'installed cryptography package. No claim beyond the generated cases.'})
claimed = {c['property'] for c in checks}
m = {'version': 1, 'setup_cmd': './run.sh --setup', 'checks': checks,
     'not_applicable': [{'property': p['id'], 'reason': 'check not built yet'}
                        for p in props if p['id'] not in claimed]}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
