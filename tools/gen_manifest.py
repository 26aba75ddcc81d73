"""Writes MANIFEST.json from the properties and the checks that exist."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from symex import checks
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
TECH = 'solver-based checking: symbolic execution of the LLVM IR of the real code, obligations decided by SMT (z3) and SAT'
out = dict(version=1, setup_cmd='python3-vt run.py --setup', checks=[], not_applicable=[])
for p in props:
    i = p['id']
    if i in checks.TABLE:
        out['checks'].append(dict(property=i, quick_cmd='python3-vt run.py %s quick' % i, thorough_cmd='python3-vt run.py %s thorough' % i,
                                  technique=checks.TECHNIQUE.get(i, TECH), level='model_checking',
                                  level_note=checks.NOTE.get(i, 'holds for every input value on every symbolic path within the stated bounds; sizes, strides, folds and bin indices are the concrete ones listed')))
    else:
        out['not_applicable'].append(dict(property=i, reason=checks.NA.get(i, 'check not built yet')))
out['notes'] = 'See DESIGN.md. No hooks in /repo: the checks encode the code as it is.'
json.dump(out, open('/verif/MANIFEST.json', 'w'), indent=1)
