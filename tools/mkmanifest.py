import json, os
V = '/verif'
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
NOTE = {}
exec(open(V + '/tools/notes.py').read())
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists('%s/vc/props/%s.py' % (V, i.lower())) and i not in NA:
        checks.append({'property': i, 'quick_cmd': 'python3-vt vc/check.py %s' % i, 'thorough_cmd': 'python3-vt vc/check.py %s --tier thorough' % i,
                       'evidence_file': 'evidence/%s.json' % i, 'technique': TECH + (', with the closing lemmas over these contracts checked by Lean 4' if i in ('C20', 'C21', 'C22', 'C23') else ''), 'level': 'proof', 'level_note': NOTE.get(i, '') + ' ' + COMMON})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'the contracts for this property are not built yet')})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo. Fixes of genuine defects are listed in KNOWN_FINDINGS.'}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks')
