#!/opt/venv/bin/python
"""Writes DESIGN.md from design_head.md, the registered cases, notes.py and known_findings.txt."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, here)
sys.dont_write_bytecode = True
from engine import cases, runner
runner.load_harnesses()
ns = {}
exec(open(os.path.join(here, 'tools', 'notes.py')).read(), ns)
out = []
for l in open(os.path.join(here, 'properties.jsonl')):
    p = json.loads(l)
    i = p['id']
    inf = cases.INFO[i]
    q = [c for c in cases.CASES[i] if c.tier == 'quick']
    t = [c for c in cases.CASES[i] if c.tier != 'quick']
    out.append('### %s %s\n' % (i, p['title']))
    out.append('*Code*: %s.  ' % p['anchors']['mechanism'][0]['where'])
    out.append('*Decided by*: %s  ' % ns['ORACLE'][i])
    out.append('*Bounds*: %s.  ' % inf['bounds'])
    out.append('*Assumed besides section 1*: %s.  ' % '; '.join(inf['stubs']))
    out.append('*Cost*: %d cases (quick), %d more (thorough), %s.  ' % (len(q), len(t), ns['COST'].get(i, 'seconds')))
    out.append('*Out of reach of tests*: %s\n' % p['why_tests_cant'])
fixed = []
for l in open(os.path.join(here, 'known_findings.txt')):
    if l.startswith('fixed: '):
        _, prop, sha, what = l.strip().split(' ', 3)
        fixed.append('* %s `%s`: %s.' % (prop.split('=')[1], sha, what.rstrip('.')))
seeds = ['| planted bug | property | what it breaks | needs | caught |', '|---|---|---|---|---|']
sd = os.path.join(here, 'seeded')
for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, d, 'meta.json')))
    seeds.append('| %s | %s | %s | %s | %s |' % (d, m['property'], m['what_it_breaks'], m['needs'], ns['CAUGHT'].get(d, 'yes')))
s = open(os.path.join(here, 'tools', 'design_head.md')).read()
s = s.replace('<!-- TABLE -->', '\n'.join(out)).replace('<!-- FIXED -->', '\n'.join(fixed)).replace('<!-- SEEDS -->', '\n'.join(seeds))
open(os.path.join(here, 'DESIGN.md'), 'w').write(s)
