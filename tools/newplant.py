#!/usr/bin/env python3
"""newplant.py SPEC.py: writes seeded/<id>/ from a file defining PLANTS = [dict(id, property, file, old, new, needs, breaks, demo)]
(old/new may be lists of (file, old, new) triples in 'edits')"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ns = {}
exec(open(sys.argv[1]).read(), ns)
for p in ns['PLANTS']:
    d = os.path.join(HERE, 'seeded', p['id'])
    w = tempfile.mkdtemp(prefix='np_')
    repo = os.path.join(w, 'repo')
    subprocess.run(['git', 'clone', '-q', '/repo', repo], check=True)
    ok = True
    for fn, old, new in p['edits']:
        fp = os.path.join(repo, 'machup', fn)
        s = open(fp).read()
        if s.count(old) != 1:
            print(p['id'], 'edit matches', s.count(old), 'times in', fn, repr(old[:60]))
            ok = False
            continue
        open(fp, 'w').write(s.replace(old, new))
    if ok:
        os.makedirs(d, exist_ok=True)
        diff = subprocess.run(['git', '-C', repo, 'diff'], capture_output=True, text=True).stdout
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.py'), 'w').write(ns.get('PRE', '') + p['demo'])
        open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nPYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump(dict(property=p['property'], needs=p['needs'], what_it_breaks=p['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        print('wrote', p['id'])
    shutil.rmtree(w)
