#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and bounded.py"""
import json, sys, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from bounded import BOUNDED
NA = {'C25': 'Relates two runs on two texts. The grammar is under proof as functions m_R(text, position) (vx/src/peg.rs), but this needs a simulation between those functions on both texts, with the lexical context at every position (a blank inside a string, a type expression or a key of several words is not layout, the blank after a keyword is required): it is no contract of one function, and no invariant found here is closed under the failing alternatives of an ordered choice. Documents with random layout and comments are compared with their known tree by the replay of the other checks only.'}
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
checks = []
for p in props:
    i = p['id']
    if i in NA: continue
    b = BOUNDED.get(i, [])
    checks.append({
        'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i,
        'evidence_file': 'evidence/%s.json' % i,
        'technique': 'contract-based deductive verification (Verus) of functions extracted from /repo on every run; failing inputs replayed on the real crate',
        'level': 'exploration' if b else 'proof',
        'level_note': ('Partly proved: the functions under contract are discharged for all inputs; bounded (random documents against an independent oracle), not proved: ' + ', '.join(b) + '. ' if b else
            'Every obligation tagged with this property is discharged by Verus on the functions of /repo, for all inputs. ') +
            'Trusts: the pest engine and its grammar as accepting language, the std model in contracts/prelude.rs, the extraction by vx, Verus/Z3.',
    })
m = {'version': 1, 'setup_cmd': 'sh setup.sh',
     'hooks': {'guard': 'dbml_verif', 'enable': 'RUSTFLAGS="--cfg dbml_verif" when building the replay crate', 'source_commits': ['8ed3b20']},
     'checks': checks, 'not_applicable': [{'property': k, 'reason': v} for k, v in NA.items()],
     'notes': 'See DESIGN.md. Genuine defects found and repaired are listed in known-findings.txt.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
