#!/usr/bin/env python3
"""regenerates properties.jsonl and MANIFEST.json from tools/props.py and the checks present"""
import ast
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(os.path.join(HERE, 'tools', 'props.py')).read(), ns)
NA = ns.get('NA', {})
with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in ns['PROPS']:
        assert len(p['title']) <= 80, p['id']
        f.write(json.dumps(p) + '\n')
checks, na = [], []
for p in ns['PROPS']:
    i = p['id']
    fn = os.path.join(HERE, 'checks', i + '.py')
    if i in NA or not os.path.exists(fn):
        na.append(dict(property=i, reason=NA.get(i, 'planned; its check is not built yet')))
        continue
    c = {}
    for n in ast.parse(open(fn).read()).body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ('COVERAGE', 'NOTE'):
            c[n.targets[0].id] = ast.literal_eval(n.value)
    checks.append(dict(property=i, quick_cmd='python3 run.py ' + i, thorough_cmd='python3 run.py %s --tier thorough' % i,
                       technique='symbolic execution of the real Python source, obligations decided by an SMT solver (z3)', level='other',
                       level_note='Decided for all real input values within the bounds listed in the evidence file; real arithmetic instead of floating point; counterexamples are replayed on the real code before they are reported. ' + c['COVERAGE'] + (' ' + c['NOTE'] if 'NOTE' in c else '')))
m = dict(version=1, setup_cmd='python3 run.py --selftest', checks=checks, not_applicable=na,
         notes='Each check re-reads /repo/machup, executes it on symbolic reals (se/) and discharges the obligations of checks/<id>.py. No hooks are needed in /repo.')
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
print(len(checks), 'checks,', len(na), 'not claimed')
