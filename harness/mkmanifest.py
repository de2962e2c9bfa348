"""Writes MANIFEST.json from plan.py and properties.jsonl (run by hand after changing the plan)."""
import json
import os
from plan import PLAN, NOTES, NOT_APPLICABLE
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(x)['id'] for x in open(os.path.join(V, 'properties.jsonl'))]
BASE = ('TLC checks every observation recorded from the code against the TLA+ specification, over behaviours the '
        'specification generated. Trusts TLC, the one-line IEEE operators of spec/java/Reals64.java and the driver\'s '
        'projection; agreement up to 1e-7 relative (irradiance 1e-6). ')
checks = []
for p in props:
    if p in PLAN:
        checks.append(dict(property=p, quick_cmd='bin/check %s quick' % p, thorough_cmd='bin/check %s thorough' % p,
                           technique='TLA+ specification: TLC-generated behaviours replayed into the code, '
                                     'recorded traces validated by TLC', level='model_checking',
                           level_note=BASE + NOTES.get(p, '')))
m = dict(version=1, setup_cmd='sh bin/setup', checks=checks,
         not_applicable=[dict(property=p, reason=NOT_APPLICABLE.get(p, 'check under construction'))
                         for p in props if p not in PLAN])
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
