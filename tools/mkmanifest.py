#!/usr/bin/env python3
"""Writes MANIFEST.json: every property with a harness is claimed, the others are listed as not applicable."""
import json, re, glob, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
NA = {
}
have = set()
for f in glob.glob(root + '/harness/**/*.go', recursive=True):
    for m in re.finditer(r'//verif:harness id=(C\d+)', open(f).read()):
        have.add(m.group(1))
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        checks.append({
            'property': i,
            'quick_cmd': './check.sh ' + i,
            'thorough_cmd': 'env VERIF_TIER=thorough ./check.sh ' + i,
            'technique': 'solver-based checking of the real code: bounded symbolic execution of the Go SSA form, assertions decided by z3',
            'level': 'model_checking',
            'level_note': 'Every assertion on every explored path is decided by z3 for all inputs and choices within the bounds listed per harness in the evidence file (also in DESIGN.md); counterexamples are replayed on the compiled code before they are reported. Trusts go/ssa, the executor, z3, and the library models named in DESIGN.md; sampled passing paths are replayed natively to check the encoding.',
        })
    else:
        na.append({'property': i, 'reason': NA.get(i, 'not claimed yet: the harness is still being built')})
m = {'version': 1, 'setup_cmd': './setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'Checks run gosym (sources in gosym/) over harnesses in harness/, which reach /repo through a go overlay; no hooks are needed in /repo. See DESIGN.md.'}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed;', [x['property'] for x in na])
