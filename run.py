#!/usr/bin/env python3
"""run.py CHECK [--tier quick|thorough] [--only HARNESS] [--debug]      decide one property
   run.py --replay FILE                                               re-run a recorded counterexample on the real code"""
import os
import sys
VENV = '/opt/venv/bin/python'
if os.path.exists(VENV) and os.path.realpath(sys.prefix) != os.path.realpath('/opt/venv') and not os.environ.get('VSE_REEXEC'):
    os.environ['VSE_REEXEC'] = '1'
    os.execv(VENV, [VENV] + sys.argv)
for k in ('OPENBLAS_NUM_THREADS', 'OMP_NUM_THREADS', 'MKL_NUM_THREADS'):
    os.environ[k] = '1'
os.environ['MPLBACKEND'] = 'Agg'
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import warnings
warnings.simplefilter('ignore')
import importlib
import json
import multiprocessing as mp
import time
sys.setrecursionlimit(20000)


def _child(conn, pid, name, seed, tier, debug):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
    from se import harness
    mod = importlib.import_module('checks.' + pid)
    h = next(x for x in mod.HARNESSES if x.name == name)
    h.opts['debug'] = debug
    try:
        r = harness.execute(h, seed, tier)
    except BaseException as e:
        import traceback
        traceback.print_exc(limit=-6)
        r = dict(name=name, error='%s: %s' % (type(e).__name__, e))
    conn.send_bytes(json.dumps(r, default=str).encode())
    conn.close()


def run_all(pid, hs, seed, tier, debug, jobs):
    ctx = mp.get_context('spawn')
    todo = list(hs)
    live = []
    res = {}
    while todo or live:
        while todo and len(live) < jobs:
            h = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(b, pid, h.name, seed, tier, debug), daemon=True)
            p.start()
            b.close()
            lim = h.budget * (3 if tier == 'thorough' else 1) + h.opts.get('replay_s', 60) + 90
            live.append((h, p, a, time.time() + lim))
        nl = []
        for h, p, a, lim in live:
            if a.poll(0.02):
                try:
                    res[h.name] = json.loads(a.recv_bytes().decode())
                except EOFError:
                    res[h.name] = dict(name=h.name, error='worker died (exit %s)' % p.exitcode)
                p.join(5)
            elif not p.is_alive():
                res[h.name] = dict(name=h.name, error='worker died (exit %s)' % p.exitcode)
            elif time.time() > lim:
                p.kill()
                res[h.name] = dict(name=h.name, error='time limit')
            else:
                nl.append((h, p, a, lim))
        live = nl
    return res


def main():
    args = sys.argv[1:]
    if args and args[0] == '--replay':
        return replay(args[1])
    if args and args[0] == '--selftest':
        import z3, numpy
        from se import harness
        x = z3.Real('x')
        z = z3.Solver()
        z.add(x * x < 0)
        assert z.check() == z3.unsat
        from se import selftest
        n, bad = selftest.run()
        for b in bad:
            print('SELFTEST:', b)
        print('%d stand-ins compared with the libraries, %d differ' % (n, len(bad)))
        print('ready: z3', z3.get_version_string(), 'numpy', numpy.__version__)
        return 1 if bad else 0
    pid = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args:
        tier = args[args.index('--tier') + 1]
    only = args[args.index('--only') + 1] if '--only' in args else None
    debug = '--debug' in args
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    mod = importlib.import_module('checks.' + pid)
    hs = [h for h in mod.HARNESSES if (tier == 'thorough' or not h.thorough_only) and (only is None or only in h.name)]
    res = run_all(pid, hs, seed, tier, debug, int(os.environ.get('VERIF_JOBS', '8')))
    known = load_known(pid)
    code = 0
    viols, finds, undecided = [], [], []
    agg = dict(obligations=0, proved=0, trivial=0, paths=0, live=0, dead=0, queries=0, unsat=0, sat=0, unknown=0, solver_s=0.0, raw=0, normalised=0, side=0, enc=0, sweeps=0, splits=0)
    funcs = set()
    merges = dict(confirmed=0, refuted=0, unknown=0, unasked=0)
    steps = dict(confirmed=0, rejected=0, unasked=0)
    for h in hs:
        r = res[h.name]
        if r.get('error'):
            undecided.append((h.name, r['error']))
            continue
        agg['obligations'] += r['obligations']; agg['proved'] += r['proved']; agg['trivial'] += r['trivial']
        agg['paths'] += r['paths']; agg['live'] += r['live_paths']; agg['dead'] += r['dead_paths']; agg['side'] += r['side_conditions']
        for k in ('queries', 'unsat', 'sat', 'unknown', 'solver_s', 'raw', 'normalised', 'sweeps', 'splits'):
            agg[k] += r['stats'].get(k, 0)
        funcs |= set(r['functions'])
        for k, v in r['merges'].items():
            merges[k] += v
        for k, v in r['steps'].items():
            steps[k] += v
        if r['encoding']:
            agg['enc'] += r['encoding']['values_compared']
            for l in r['encoding']['mismatches']:
                undecided.append((h.name, 'symbolic and real results differ at a sampled point: ' + l))
        if r['live_paths'] == 0:
            undecided.append((h.name, 'no feasible path (vacuous)'))
        elif r['obligations'] == 0:
            undecided.append((h.name, 'no obligations'))
        v = r.get('violation')
        kf = []
        if v:
            kf = [k for k in known if all(any(__import__('re').search(p, '%s: %s' % (f[0], f[1])) for p in k['match']) for f in v['fails']) and k['harness'] == h.name]
            if kf:
                finds.append((h.name, kf[0]['what']))
            else:
                os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
                fn = os.path.join('replays', '%s_%s.json' % (pid, ''.join(c if c.isalnum() else '_' for c in h.name)))
                with open(os.path.join(HERE, fn), 'w') as f:
                    json.dump(dict(property=pid, harness=h.name, **v), f, indent=1)
                viols.append((h.name, fn, v))
        elif r['refuted'] or r['undecided']:
            for l, why in (r['refuted'] + r['undecided'])[:5]:
                undecided.append((h.name, '%s: %s (not reproduced on the real code in %s runs)' % (l, why, r.get('replays'))))
        if debug or '-v' in args:
            print('%-40s %6.1fs sym %5.1fs paths %d/%d obl %d proved %d trivial %d queries %d solver %.1fs nodes %d merges %s steps %s enc %s' % (
                h.name, r['wall_s'], r.get('sym_s', -1), r['live_paths'], r['paths'], r['obligations'], r['proved'], r['trivial'], r['stats'].get('queries', 0), r['stats'].get('solver_s', 0), r['nodes'], r['merges'], r['steps'], r['encoding']))
    wall = time.time() - t0
    if viols:
        code = 1
    elif undecided:
        # no answer when the larger part could not be decided; otherwise the property held on everything that was decided
        done = [h for h in hs if not res[h.name].get('error') and res[h.name]['obligations'] and res[h.name]['live_paths'] and
                not any(l == 'machinery' for l, _ in res[h.name]['undecided']) and
                res[h.name]['proved'] + res[h.name]['trivial'] >= 0.5 * res[h.name]['obligations']]
        code = 0 if 2 * len(done) >= len(hs) and 2 * (agg['proved'] + agg['trivial']) >= agg['obligations'] else 2
    if only is None and not os.environ.get('VERIF_NOEVIDENCE'):
        ev = dict(property=pid, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'other'), wall_s=round(wall, 2),
                  coverage=dict(
                      explanation=mod.COVERAGE,
                      method='symbolic execution of the machup sources read from %s in this run; every obligation decided by z3 for all real values of the inputs in the stated ranges' % os.environ.get('VERIF_REPO', '/repo'),
                      functions_encoded=sorted(funcs),
                      harnesses={h.name: dict(bounds=h.bounds, inputs=res[h.name].get('ranges'), obligations=res[h.name].get('obligations'), proved=res[h.name].get('proved'),
                                              identical_terms=res[h.name].get('trivial'), paths=res[h.name].get('live_paths'), wall_s=round(res[h.name].get('wall_s', 0), 2)) for h in hs},
                      obligations=agg['obligations'], proved_by_solver=agg['proved'], discharged_as_identical_terms=agg['trivial'],
                      subterm_equalities_used=dict(decided_by_solver=merges['confirmed'], rejected_by_solver=merges['refuted'], by_normal_form_only=merges['unknown'] + merges['unasked']),
                      term_construction_steps=dict(decided_by_solver=steps['confirmed'], rejected_by_solver=steps['rejected'], not_asked=steps['unasked']),
                      paths_explored=agg['paths'], feasible_paths=agg['live'], infeasible_paths=agg['dead'],
                      solver=dict(name='z3', queries=agg['queries'], unsat=agg['unsat'], sat=agg['sat'], unknown=agg['unknown'], seconds=round(agg['solver_s'], 2),
                                  goals_proved_unprocessed=agg['raw'], goals_proved_after_clearing_denominators=agg['normalised'], case_splits=agg['splits'], subterm_equalities_proposed=agg['sweeps']),
                      encoding_validation_values_compared=agg['enc'], definedness_conditions_assumed=agg['side'],
                      undecided=[list(u) for u in undecided]),
                  assumptions=getattr(mod, 'ASSUMPTIONS', []) + COMMON, violations=len(viols))
        os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
        with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    for n, what in finds:
        print('KNOWN-FINDING: property=%s %s' % (pid, what))
    for n, fn, v in viols:
        print('VIOLATION property=%s replay=%s' % (pid, fn))
        print('   harness %s; %s' % (n, '; '.join('%s %s' % tuple(f) for f in v['fails'][:3])))
        print('   inputs %s' % json.dumps(v['values']))
    for n, why in undecided[:20]:
        print('UNDECIDED property=%s harness=%s %s' % (pid, n, why))
    print('%s %s: %d obligations (%d by solver, %d identical), %d/%d paths, %d queries, solver %.1fs, wall %.1fs -> exit %d' % (
        pid, tier, agg['obligations'], agg['proved'], agg['trivial'], agg['live'], agg['paths'], agg['queries'], agg['solver_s'], wall, code))
    return code


COMMON = ['arithmetic is over the real numbers: floating-point rounding is outside the claim (float literals are read as the decimal they are written as)',
          'array sizes, section counts and configurations are those listed under harnesses; other sizes are outside the bounds',
          'divisions and square roots are taken on the inputs where they are defined, unless the property is about definedness',
          'numpy/scipy primitives are trusted to compute what their stand-ins in se/facade.py compute (compared on sampled points in every run)']


def load_known(pid):
    fn = os.path.join(HERE, 'known_findings.json')
    if not os.path.exists(fn):
        return []
    with open(fn) as f:
        return [k for k in json.load(f).get('findings', []) if k['property'] == pid]


def replay(fn):
    from se import harness
    with open(fn) as f:
        d = json.load(f)
    mod = importlib.import_module('checks.' + d['property'])
    h = next(x for x in mod.HARNESSES if x.name == d['harness'])
    fails, env = harness.run_concrete(h, d['values'])
    for l, m in fails or []:
        print('FAILS', l, m)
    print('reproduced' if fails else 'not reproduced')
    return 1 if fails else 0


if __name__ == '__main__':
    sys.exit(main())
