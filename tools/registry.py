#!/usr/bin/env python3-vt
"""Single source of properties.jsonl and MANIFEST.json (run: python3-vt tools/registry.py)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
VF = ('static value-flow analysis of the compiled front-end IR (closed forms of every store and return as polynomials over symbolic inputs, '
      'piecewise over index regions), compared with the specified expression by normal-form equality')
P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None, level='other', thorough=True):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, na=na, level=level, thorough=thorough))


exec(open(os.path.join(ROOT, 'tools', 'props.py')).read())


def main():
    seen = set()
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            assert p['id'] not in seen and len(p['title']) <= 80, (p['id'], len(p['title']))
            seen.add(p['id'])
            json.dump({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                       'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                       'anchors': {'files': p['files'], 'mechanism': [{'name': a, 'where': b} for a, b in p['mech']]}}, f)
            f.write('\n')
    checks, na = [], []
    for p in P:
        if p['na']:
            na.append({'property': p['id'], 'reason': p['na']})
            continue
        cmd = 'python3-vt checks/run.py ' + p['id']
        checks.append({'property': p['id'], 'quick_cmd': cmd, 'thorough_cmd': cmd, 'technique': p['technique'], 'level': p['level'], 'level_note': p['note']})
    man = {'version': 1, 'setup_cmd': 'python3-vt tools/setup.py', 'checks': checks, 'not_applicable': na,
           'notes': 'Every check recompiles the anchored sources of /repo to IR on each run and reads nothing else of it; no hooks in /repo. '
                    'Obligations the analysis cannot decide are listed in the evidence file as not covered and never reported as violations. '
                    'Known findings: known-findings.jsonl.'}
    json.dump(man, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
    open(os.path.join(ROOT, 'MANIFEST.json'), 'a').write('\n')


if __name__ == '__main__':
    main()
