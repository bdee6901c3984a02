#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os, sys
here = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(here, '..', 'harness'))
import table
titles = {}
for l in open(os.path.join(here, '..', 'properties.jsonl')):
    d = json.loads(l)
    titles[d['id']] = d['title']
checks = []
for p in sorted(table.PROPS):
    t = table.PROPS[p]
    checks.append({
        'property': p, 'quick_cmd': 'python3 check.py %s quick' % p, 'thorough_cmd': 'python3 check.py %s thorough' % p,
        'evidence_file': 'evidence/%s.json' % p,
        'technique': 'explicit TLA+ specification (spec/) checked with TLC; behaviours enumerated by TLC%s and random call sequences are replayed '
                     'on the real library and every recorded trace is validated by TLC against the specification'
                     % (' (%s)' % ', '.join('MC_' + m for m in t['models']) if t.get('models') else ''),
        'level': 'model_checking',
        'level_note': titles[p] + '. Exhaustive on the bounded models, sampled on larger programs; trusts the recorder harness/exec.py '
                      '(what the public interface and the exported XML show) and the tolerances of spec/Doc.tla. See DESIGN.md.'})
json.dump({'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': [],
           'notes': 'No hooks: the public interface and the exported document show all of the state the properties speak of. '
                    'Repairs of genuine defects in /repo are listed in known_findings.txt.'},
          open(os.path.join(here, '..', 'MANIFEST.json'), 'w'), indent=1)
