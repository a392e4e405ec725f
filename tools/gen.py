#!/usr/bin/env python3
"""Regenerate properties.jsonl and MANIFEST.json from tools/props.py"""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'tools'))
import props  # noqa: E402

TECH = 'deductive verification: contracts on the C++ functions of /repo, obligations discharged by z3/cvc5; contract instances replayed on the compiled library for counterexamples'
NOTE = ' Trusted: clang AST, the VC generator and its std:: axioms (crgv), z3/cvc5, Vulkan entry points as recording externals. A contract the verifier cannot decide on a changed tree falls to a bounded pass and to seeded contract instances run on the real library, and is reported as undecided in the evidence, never as proved.'


def main():
    with open(HERE + '/properties.jsonl', 'w') as f:
        for p in props.PROPS:
            d = {'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                 'quantifier': {'over': p['over'], 'text': p['forall']}, 'why_tests_cant': p['why'],
                 'anchors': {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']], 'observe_at': p.get('observe', []), 'hook_needed': None}}
            f.write(json.dumps(d) + '\n')
    m = {'version': 1, 'setup_cmd': 'python3-vt -m compileall -q crgv check.py tools',
         'hooks': {'guard': 'none', 'enable': 'no hooks were added to /repo: the contracts live in /verif/crgv/specs and are attached to the functions by signature', 'source_commits': []},
         'checks': [], 'not_applicable': [], 'notes': 'See DESIGN.md.'}
    for p in props.PROPS:
        if 'na' in p:
            m['not_applicable'].append({'property': p['id'], 'reason': p['na']})
        else:
            cmd = 'python3-vt check.py --property %s --tier ' % p['id']
            m['checks'].append({'property': p['id'], 'quick_cmd': cmd + 'quick', 'thorough_cmd': cmd + 'thorough', 'technique': p.get('tech', TECH),
                                'level': p.get('level', 'proof'), 'level_note': p['note'] + NOTE})
    json.dump(m, open(HERE + '/MANIFEST.json', 'w'), indent=1)


main()
