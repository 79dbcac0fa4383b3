#!/usr/bin/env python3
# Writes MANIFEST.json from the table below.
import json, os
here = os.path.dirname(os.path.abspath(__file__))
verif = os.path.dirname(here)
props = [json.loads(l) for l in open(os.path.join(verif, 'properties.jsonl'))]
T = {
 'C01': ('runtime oracle: strict comparison of decoded values with a reference normal form, over generated types and values', ''),
 'C02': ('runtime oracle: every encoding compared with an independent reference encoder and with repeated encodings', ''),
 'C03': ('runtime oracle: strict comparison of values decoded from JSON with a reference normal form', ''),
 'C04': ('runtime oracle: every JSON output parsed and compared with an independent reference encoder and with repeated encodings', ''),
}
import sys
extra = os.path.join(here, 'techniques.json')
if os.path.exists(extra):
    T.update({k: (v, '') for k, v in json.load(open(extra)).items()})
note = 'held on the executions of the run (counts in the evidence file); nothing is claimed for inputs that were not generated'
checks, na = [], []
for p in props:
    i = p['id']
    if i in T:
        checks.append({'property': i, 'quick_cmd': './check.sh %s quick' % i, 'thorough_cmd': './check.sh %s thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': T[i][0], 'level': 'exploration', 'level_note': note})
    else:
        na.append({'property': i, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na}
open(os.path.join(verif, 'MANIFEST.json'), 'w').write(json.dumps(m, indent=1) + '\n')
