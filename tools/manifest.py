#!/usr/bin/env python3-vt
# Source of MANIFEST.json (run by hand after adding checks).
import json, sys
sys.path.insert(0, '/verif'); import checks
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
T = 'symbolic execution of the LLVM IR compiled from /repo on each run, with inputs, schedules and crash points as solver variables; assertions decided by z3 (bit-vectors); counterexamples replayed on the natively compiled code'
m = dict(version=1, setup_cmd='make -s -C engine', hooks=dict(guard='FULLOCK_VERIF_BOUNDS', enable='bin/check.py compiles /repo/lib with -DFULLOCK_VERIF_BOUNDS', source_commits=['8e7db5f']), checks=[], not_applicable=[], notes='See DESIGN.md. Known findings and fixed defects: known-findings.json.')
for p in props:
    if checks.CHECKS.get(p['id']):
        m['checks'].append(dict(property=p['id'], quick_cmd='python3 bin/check.py %s quick' % p['id'], thorough_cmd='python3 bin/check.py %s thorough' % p['id'], technique=T, level='model_checking', level_note=checks.NOTE.get(p['id'], 'bounded: see DESIGN.md')))
    else: m['not_applicable'].append(dict(property=p['id'], reason='check not built yet'))
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
import jsonschema; jsonschema.validate(m, json.load(open('/root/.vp/MANIFEST.schema.json')))
