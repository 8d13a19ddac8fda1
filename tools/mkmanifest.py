import json, sys
sys.path.insert(0, '/verif')
from props import PROPS
ids = [json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
NA = {}
try: from tools.na import NA
except ImportError: pass
checks = []
for i in ids:
    if i not in PROPS: continue
    P = PROPS[i]
    checks.append(dict(property=i, quick_cmd='python3-vt check.py ' + i, thorough_cmd='env VERIF_TIER=thorough python3-vt check.py ' + i,
        technique=P.get('technique', 'contract-based deductive verification: VCs from the LLVM IR of the current sources, discharged by z3/cvc5'), level=P['level'], level_note=P['note']))
na = [dict(property=i, reason=NA.get(i, 'contracts not written yet')) for i in ids if i not in PROPS]
json.dump(dict(version=1, setup_cmd='python3-vt -c "import z3, lvc.eng" && clang-18 --version >/dev/null && opt-18 --version >/dev/null',
    hooks=dict(guard='none', enable='no hooks are needed: the checks read the unmodified sources'), checks=checks, not_applicable=na), open('/verif/MANIFEST.json', 'w'), indent=1)
