#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the claims below; every property not claimed is listed under not_applicable."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = ("Verus discharges the contracts of the functions listed in the evidence (%s), extracted from /repo's source on every run, for all inputs. "
        "Rest of the property: bounded native run of the real crate, labelled bounded. %sAssumes: contracts of the storage, buffer and number traits as stated in verus/units/prelude.vri, "
        "trusted raw-pointer helpers, sequential execution, usize arithmetic of 64 bit; machine-checked only for functions under contract.")
HOOKS = ['0ce9601d55e9a658f37408300628211a6a35e4bd']
C = json.load(open(os.path.join(V, 'tools/claims.json')))
props = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
checks = []
import glob, re
def units(p):
    return [f for f in glob.glob(os.path.join(V, 'verus/units/*.vrs')) if p in re.search(r'(?m)^//@ unit-props (.*)$', open(f).read()).group(1).split()]
for p in props:
    if p in C['claims'] and not units(p):
        c = C['claims'][p]
        checks.append({'property': p, 'quick_cmd': 'python3 check.py %s quick' % p, 'thorough_cmd': 'python3 check.py %s thorough' % p,
                       'evidence_file': 'evidence/%s.json' % p,
                       'technique': 'bounded native check of the postconditions on the real crate (no contract discharged yet)',
                       'level': 'exploration', 'level_note': 'Bounded run only. ' + c.get('note', '')})
    elif p in C['claims']:
        c = C['claims'][p]
        checks.append({'property': p, 'quick_cmd': 'python3 check.py %s quick' % p, 'thorough_cmd': 'python3 check.py %s thorough' % p,
                       'evidence_file': 'evidence/%s.json' % p,
                       'technique': 'contract-based deductive verification (Verus) of the extracted functions; bounded native stand-in for the remainder',
                       'level': 'proof', 'level_note': NOTE % (c['proved'], (c['note'] + ' ') if c.get('note') else '')})
na = [{'property': p, 'reason': C['na'].get(p, 'no check registered yet')} for p in props if p not in C['claims']]
m = {'version': 1, 'setup_cmd': 'bash setup.sh',
     'hooks': {'guard': 'bdsp_verif', 'enable': 'RUSTFLAGS=--cfg bdsp_verif (makes the private module inline_vector reachable)', 'source_commits': HOOKS},
     'checks': checks, 'not_applicable': na,
     'notes': 'Findings: known_findings.txt. Design and verdict rules: DESIGN.md.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
