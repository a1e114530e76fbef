"""writes MANIFEST.json from the contracts present"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NA = json.load(open(V + '/tools/not_applicable.json'))
NOTE = json.load(open(V + '/tools/level_notes.json'))
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists('%s/contracts/%s.py' % (V, i.lower())) and i in NOTE:
        checks.append({'property': i, 'quick_cmd': 'python3-vt check.py %s' % i, 'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py %s' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': 'contract-based deductive verification (symbolic execution of the real Python source, loop summaries, z3/cvc5)',
                       'level': 'proof', 'level_note': NOTE[i]})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'not claimed: no contract within reach decides it yet')})
json.dump({'version': 1, 'setup_cmd': 'python3-vt -c "import sys; sys.path.insert(0, \'.\'); import vc.harness"', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo: the verifier reads the source of /repo/kymatio on every run. fix: commits are listed in known_findings.txt.'},
          open(V + '/MANIFEST.json', 'w'), indent=1)
print([c['property'] for c in checks])
