"""writes DESIGN.md: text below, and one section per property from tools/props.py and checks/*.py"""
import importlib
import json
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, 'tools'))
sys.dont_write_bytecode = True
if not os.environ.get('VSE_REEXEC'):
    os.environ['VSE_REEXEC'] = '1'
    os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python'] + sys.argv)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import props

HEAD = open(os.path.join(HERE, 'tools', 'design_head.md')).read()
TAIL = open(os.path.join(HERE, 'tools', 'design_tail.md')).read()
METHOD = {}
exec(open(os.path.join(HERE, 'tools', 'design_methods.py')).read())


def main():
    out = [HEAD.rstrip(), '', '## The properties, one by one', '']
    seeded = {}
    sd = os.path.join(HERE, 'seeded')
    for d in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
        m = json.load(open(os.path.join(sd, d, 'meta.json')))
        seeded.setdefault(m['property'], []).append((d, m))
    for p in props.PROPS:
        mod = importlib.import_module('checks.' + p['id'])
        hs = [h for h in mod.HARNESSES]
        out += ['### %s %s' % (p['id'], p['title']), '', '*States:* ' + p['statement'], '',
                '*Decided by:* ' + METHOD.get(p['id'], ''), '', '*Explored:* ' + mod.COVERAGE, '',
                '*Bounds:* %d harnesses%s.  %s' % (len([h for h in hs if not h.thorough_only]), ', %d more in the thorough tier' % len([h for h in hs if h.thorough_only]) if any(h.thorough_only for h in hs) else '',
                                               '; '.join(dict.fromkeys(h.bounds for h in hs if h.bounds)))]
        if seeded.get(p['id']):
            out += ['', '*Planted and caught:* ' + '; '.join('%s (%s)' % (d, m['what_it_breaks']) for d, m in seeded[p['id']])]
        out += ['']
    out += [TAIL.rstrip(), '']
    with open(os.path.join(HERE, 'DESIGN.md'), 'w') as f:
        f.write('\n'.join(out))


main()
