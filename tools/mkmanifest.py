import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + '/thirv')
import cover, verify
props = [json.loads(l) for l in open(H + '/properties.jsonl')]
checks = []
for p in props:
    i = p['id']
    full, note = cover.COVER[i]
    jobs = verify.jobs_for(i)[0]
    if full: t, l, n = 'contract-based deductive verification of the THIR of /repo (z3)', 'proof', 'Proved: ' + note + '. A bounded run of the reference in harness/ against the real library supplies failing inputs.'
    elif jobs: t, l, n = 'contract-based deductive verification (z3), in part; bounded stand-in for the rest', 'other', 'Proved in part: ' + note + '. The rest is a bounded stand-in (reference on generated inputs), not a proof.'
    else: t, l, n = 'bounded stand-in (reference on generated inputs)', 'other', 'Bounded stand-in, not a proof: ' + note
    checks.append({'property': i, 'quick_cmd': 'python3-vt check.py ' + i, 'thorough_cmd': 'VERIF_TIER=thorough python3-vt check.py ' + i,
                   'evidence_file': 'evidence/%s.json' % i, 'technique': t, 'level': l, 'level_note': n})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': []}, open(H + '/MANIFEST.json', 'w'), indent=1)
