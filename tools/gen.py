#!/usr/bin/env python3
"""Write properties.jsonl and MANIFEST.json from tools/properties.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
from properties import P, NOT_APPLICABLE     # noqa: E402

TECH = ('static analysis: interprocedural value-graph (global value numbering) comparison of the code against a reference definition, '
        'loops summarised, control flow merged into selections; no execution, no solver')
TECH_RULES = 'static analysis: syntax-tree, scope, call-graph and mutation (alias) rules over every function of the package; no execution, no solver'
TECH_DATA = 'static analysis: schema and consistency rules over every row and value of the data files bundled with the source; no execution, no solver'


def main():
    from vg import rules
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P + [q['p'] for q in NOT_APPLICABLE]:
            a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mechanism']]}
            if p.get('state'):
                a['state'] = [{'name': n, 'meaning': w} for n, w in p['state']]
            if p.get('observe_at'):
                a['observe_at'] = p['observe_at']
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'], 'anchors': a}, ensure_ascii=False) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3 -c "import sys; sys.exit(sys.version_info < (3, 9))"', 'checks': [], 'not_applicable': []}
    for p in P:
        cmd = 'python3 check.py ' + p['id']
        m['checks'].append({
            'property': p['id'], 'quick_cmd': cmd, 'thorough_cmd': 'VERIF_TIER=thorough ' + cmd, 'evidence_file': 'evidence/%s.json' % p['id'],
            'technique': TECH_DATA if p['id'] == 'X04' else TECH_RULES if rules.for_property(p['id']) else TECH, 'level': 'other',
            'level_note': p.get('note') or 'all paths and all symbolic inputs of the analysed functions in real arithmetic; constructs outside the analysed fragment are reported as undecided, not as violations'})
    for q in NOT_APPLICABLE:
        m['not_applicable'].append({'property': q['p']['id'], 'reason': q['reason']})
    with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
        json.dump(m, f, indent=1, ensure_ascii=False)
        f.write('\n')


main()
