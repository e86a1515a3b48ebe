"""Writes /verif/MANIFEST.json from the registered checks and the property list."""
import json
import os
import sys

HOME = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HOME)
from vp import check          # noqa: E402
from tools.notes import TECH, NOTE, NOT_APPLICABLE     # noqa: E402

ids = [json.loads(l)['id'] for l in open(os.path.join(HOME, 'properties.jsonl'))]
checks, na = [], []
for i in ids:
    if i in NOT_APPLICABLE:
        na.append(dict(property=i, reason=NOT_APPLICABLE[i]))
    elif i in check.REGISTRY:
        checks.append(dict(property=i, quick_cmd='./check.sh ' + i,
                           thorough_cmd='VERIF_TIER=thorough ./check.sh ' + i,
                           evidence_file='evidence/%s.json' % i,
                           technique=TECH[i], level='other', level_note=NOTE[i]))
    else:
        na.append(dict(property=i, reason='no check built yet'))
m = dict(version=1, setup_cmd='./check.sh --selftest', checks=checks, not_applicable=na,
         notes='Static analysis only: every check parses the sources under /repo on each run '
               '(Python ast, the Cython parser on .pyx, an own front end for the C++ files) and decides '
               'its obligations without running them. Exit 0: every decided obligation holds (listed '
               'findings are printed as KNOWN-FINDING). Exit 1: a construct violates the property. '
               'Exit 2: fewer constructs were found than confirmed by hand, or an anchor vanished.')
json.dump(m, open(os.path.join(HOME, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
