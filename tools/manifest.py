#!/usr/bin/env python3-vt
"""rewrites MANIFEST.json from vcgen/props.py and properties.jsonl"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/vcgen')
from props import PROPS, LEVEL_NOTE, NA
ids = [json.loads(l)['id'] for l in open(V + '/properties.jsonl')]
checks = []
for i in ids:
    if i in PROPS:
        checks.append(dict(property=i, quick_cmd='python3-vt /verif/check.py %s quick' % i, thorough_cmd='python3-vt /verif/check.py %s thorough' % i,
                           evidence_file='/verif/evidence/%s.json' % i,
                           technique='contract-based deductive verification: contracts over the real functions, verification conditions generated from the MIR of /repo on every run and discharged by Z3',
                           level='proof', level_note=LEVEL_NOTE.get(i, LEVEL_NOTE['*'])))
na = [dict(property=i, reason=NA.get(i, NA['*'])) for i in ids if i not in PROPS]
m = dict(version=1, setup_cmd='python3-vt /verif/check.py setup',
         hooks=dict(guard='cfg(kicad_verif)', enable='RUSTFLAGS="--cfg kicad_verif"', source_commits=['981e6f4']),
         checks=checks, not_applicable=na,
         notes='See DESIGN.md. Genuine defects found are in known-findings.txt.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
