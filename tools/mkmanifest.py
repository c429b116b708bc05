"""Writes MANIFEST.json from properties.jsonl and the check tables."""
import json
import sys
sys.path.insert(0, '/verif')
NA = [
    ('N01', None),
]
TECH = ('abstract interpretation of the current source into gated value-flow '
        'terms per entry point, compared as normalised terms with the '
        'reviewed reference')
props = [json.loads(x) for x in open('/verif/properties.jsonl')]
from checks import scopes  # noqa
na = json.load(open('/verif/tools/not_applicable.json'))
nai = {x['property'] for x in na}
checks = []
for q in props:
    i = q['id']
    if i in nai:
        continue
    t = scopes.TECH.get(i, TECH)
    checks.append({'property': i, 'quick_cmd': 'python3 check.py %s --tier quick' % i,
                   'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
                   'technique': t, 'level': 'other',
                   'level_note': scopes.NOTE.get(i, scopes.NOTE0)})
m = {'version': 1, 'setup_cmd': 'python3 -m compileall -q absint checks check.py',
     'checks': checks, 'not_applicable': na}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
print(len(checks), len(na))
