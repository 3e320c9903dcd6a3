"""writes /verif/MANIFEST.json from contracts/meta.py and properties.jsonl"""
import sys, json; sys.path.insert(0, '/verif')
from contracts import meta
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
TECH = 'contract-based deductive verification: obligations generated from the clang LLVM IR of the real functions on every run, discharged by z3/cvc5'
checks, na = [], []
for p in props:
    pid = p['id']
    if pid in meta.PROPS:
        m = meta.PROPS[pid]
        checks.append(dict(property=pid, quick_cmd='python3-vt check.py %s' % pid, thorough_cmd='python3-vt check.py %s --thorough' % pid, technique=m.get('technique', TECH), level=m['level'], level_note=m['note']))
    else: na.append(dict(property=pid, reason=meta.NA.get(pid, 'contracts for these functions are not built yet')))
json.dump(dict(version=1, setup_cmd='bash setup.sh', checks=checks, not_applicable=na), open('/verif/MANIFEST.json', 'w'), indent=1)
