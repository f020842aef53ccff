"""Writes MANIFEST.json from the checks that exist."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
notes = {}
exec(open(here + '/tools/notes.py').read(), notes)
T, N, L, NA = notes['TECHNIQUE'], notes['NOTE'], notes['LEVEL'], notes['NOT_APPLICABLE']
checks, na = [], []
for p in props:
    i = p['id']
    if os.path.exists(f'{here}/checks/{i.lower()}.py'):
        cmd = f'/usr/bin/python3 check.py {i}'
        checks.append(dict(property=i, quick_cmd=cmd, thorough_cmd=cmd, evidence_file=f'evidence/{i}.json',
                           technique=T.get(i, 'TLA+ specification, replayed into the real programs'),
                           level=L.get(i, 'model_checking'), level_note=N.get(i, notes['DEFAULT_NOTE'])))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'No check has been built for this property.')))
m = dict(version=1, setup_cmd='/usr/bin/python3 check.py setup',
         hooks=dict(guard='none', enable='The checks build the unmodified sources; programs are observed from outside (files, exit codes, '
                    'messages, an interposition library), so no guarded code was added to /repo.', source_commits=[]),
         checks=checks, not_applicable=na,
         notes='Checks build /repo\'s working tree into /verif/.cache/build-<hash of the sources> and run from there. See DESIGN.md.')
json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks,', len(na), 'not claimed')
