#!/opt/venv/bin/python
"""Writes MANIFEST.json from properties.jsonl and the registered cases."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from engine import cases, runner
runner.load_harnesses()
NA = {}
exec(open(os.path.join(here, 'tools', 'na.py')).read())
PY = '/opt/venv/bin/python'
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
checks, na = [], []
for p in props:
    i = p['id']
    if i in cases.CASES and i not in NA:
        b = cases.INFO[i]
        checks.append({'property': i, 'quick_cmd': '%s check.py %s' % (PY, i), 'thorough_cmd': '%s check.py %s --thorough' % (PY, i),
                       'evidence_file': 'evidence/%s.json' % i,
                       'technique': b.get('technique') or 'symbolic execution of the current source, obligations decided by z3 over all values within the bounds, counterexamples replayed on the real modules',
                       'level': 'model_checking',
                       'level_note': 'Within the bounds every path of the encoded functions is explored and every obligation is refuted or shown by z3 for all values of the symbols; nothing is claimed outside. Bounds: %s. Assumed: %s; real arithmetic stands for floating point; the interpreter shims for numpy and scipy are validated by running the same harness on the real modules.' % (b['bounds'], '; '.join(b['stubs']))})
    else:
        na.append({'property': i, 'reason': NA.get(i, 'not built yet')})
m = {'version': 1, 'setup_cmd': PY + ' check.py --setup', 'checks': checks, 'not_applicable': na}
json.dump(m, open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks', len(na), 'not applicable')
