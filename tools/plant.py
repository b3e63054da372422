#!/usr/bin/env python3
"""plant.py [ID...]: confirm planted bugs in scratch copies of /repo and see which checks catch them
   plant.py --new ID PROPERTY FILE < python code with OLD/NEW pairs is done with tools/newplant.py"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEED = os.path.join(HERE, 'seeded')
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg')


def one(i):
    d = os.path.join(SEED, i)
    meta = json.load(open(os.path.join(d, 'meta.json')))
    w = tempfile.mkdtemp(prefix='plant_')
    repo = os.path.join(w, 'repo')
    try:
        subprocess.run(['cp', '-a', '/repo', repo], check=True)
        subprocess.run(['git', '-C', repo, 'checkout', '-q', '--', '.'], check=True)

        def demo():
            return subprocess.run(['bash', os.path.join(d, 'demo.sh')], cwd=repo, env=ENV, capture_output=True, text=True, timeout=300)
        a = demo()
        p = subprocess.run(['git', '-C', repo, 'apply', os.path.join(d, 'patch.diff')], capture_output=True, text=True)
        if p.returncode:
            return i, meta['property'], 'PATCH DOES NOT APPLY ' + p.stderr[:200]
        b = demo()
        t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', 'test/geometry'], cwd=repo, env=dict(ENV, PYTHONPATH=repo), capture_output=True, text=True)
        lost = [s for s in BASE if s not in t.stdout]
        npass = t.stdout.strip().splitlines()[-1]
        env = dict(ENV, VERIF_REPO=repo, VERIF_JOBS='4', VERIF_SEED='1', VERIF_NOEVIDENCE='1')
        c = subprocess.run(['python3', os.path.join(HERE, 'run.py'), meta['property']], cwd=HERE, env=env, capture_output=True, text=True, timeout=1200)
        v = [l for l in c.stdout.splitlines() if l.startswith(('VIOLATION', '   harness'))]
        u = [l for l in c.stdout.splitlines() if l.startswith('UNDECIDED')]
        msg = 'demo clean %d planted %d; %s; check exit %d %s' % (a.returncode, b.returncode, npass, c.returncode, (v[1][:160] if len(v) > 1 else (u[0][:200] if u else '')))
        if a.returncode:
            msg += '\n    CLEAN DEMO FAILS: ' + (a.stdout + a.stderr)[-400:]
        if not b.returncode:
            msg += '\n    DEMO DOES NOT SEE IT'
        return i, meta['property'], ('caught ' if c.returncode == 1 else 'MISSED ') + msg
    finally:
        shutil.rmtree(w, ignore_errors=True)


BASE = []
ids = sys.argv[1:] or sorted(os.listdir(SEED))
bad = 0
with cf.ThreadPoolExecutor(2) as ex:
    for i, p, m in ex.map(one, ids):
        print(i, p, m, flush=True)
