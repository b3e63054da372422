from .mulib import *

COVERAGE = 'stall_onset on the lifting line itself with an arbitrary grid (every geometric and airfoil value of the sections unconstrained): among the first angles searched, the one returned has a section above its maximum lift coefficient, none before it has, wing and span location are those of such a section, and the lift is that of a solve there; the same for models that stall late, around 10, 30 and 55 degrees.  stall_airspeed over any stall analysis whose lift is affine in airspeed (exact) or any sequence of lift values (returned only on a secant step below the error).'
STEP = 10


def find(env, wings, steps, control=False, main=None, file=False, bare=False, left_name=False):
    cut_grid(env)
    ap = make_airplane(env, [0, 0, 0])
    for k, (side, n) in enumerate(wings):
        d = wing_dims(env, 'w%d' % k, grid=n, position=[-2 * k, 0, -k / 2], semispan=4 - k, root_chord=1, tip_chord=0.75, sweep=0, dihedral=3, mount_angle=2, washout=2, yoffset=0)
        w = ap.add_wing(left_name if left_name else 'w%d' % k, side=side, **d)
        for end in ('root', 'tip'):
            w.airfoil('af%d%s' % (k, end), end, **dict(CONST_AF, CL_max=env.real('w%d_%s_CLmax' % (k, end), 0.3, 1.2)))
        if control:
            w.control_surface(percent_span=(0, 1), percent_chord=0.25, mix={'elevator': 1, 'aileron': env.rat(1, 2)})
    mu = env.m.MU.MachUp(inputAirplane=ap)
    st = dict(V_mag=env.real('V_mag', 0.5, 500), rho=env.real('rho', 0.0005, 20), alpha=env.real('alpha', -60, 60), beta=env.real('beta', -60, 60))
    ct = {c: env.real(c, -2, 2) for c in CH} if control else None
    args = {} if bare else dict(aero_state=st, control_state=ct)
    ref = dict(V_mag=10, rho=0.0023769) if bare else st

    def at(k):
        """sections in the k-th angle searched"""
        s = dict(ref, alpha=env.rat(k, STEP))
        w, _ = mu.distributions(aero_state=s, control_state=ct)
        return w['section_CL'], s
    lim = mu.myllmodel._grid.get_max_lifts()
    if env.symbolic:
        # bound: it stalls within the first angles
        env.assume(env.Or(*[cl > lim[i] for i, cl in enumerate(at(steps - 1)[0])]))
    r = mu.stall_onset(**dict(args, **({'filename': env.path('s.json')} if file else {})))
    env.check('entries', set(r) == {'alpha', 'lift', 'stalled_wing', 'span_location'})
    env.check('angle a number', not env.symbolic or not isinstance(r['alpha'], env.T.Node) or r['alpha'].kind == 'const')
    n = [k for k in range(steps if env.symbolic else 2000) if abs(k / STEP - float(r['alpha'])) < 1e-6]
    if not n:
        return env.fail('angle', 'not one of the angles searched: %s' % r['alpha'])
    n = n[0]
    names, t = mu.myllmodel._grid.get_wing_names(), mu.myllmodel._grid.get_cp_spacing()
    for k in range(n):
        cl, _ = at(k)
        for i in range(len(names)):
            # (concretely: not above it by more than rounding)
            env.check('section %d not stalled at angle %d' % (i, k), cl[i] <= lim[i] if env.symbolic else cl[i] <= lim[i] + 1e-9)
    cl, s = at(n)
    slack = 0 if env.symbolic else 1e-9
    hits = []
    for i in range(len(names)):
        same_wing = str(names[i]) == str(r['stalled_wing'])
        loc = t[i] if mu.myairplane.get_wingsegments()[segment(mu, i)].get_side() == 'right' else 1 - t[i]
        hits.append(env.And(same_wing, cl[i] > lim[i] - slack, env.abs(r['span_location'] - loc) <= slack))
    env.check('reported section is one that stalls', env.Or(*hits))
    env.eq('lift', r['lift'], mu.solve(aero_state=s, control_state=ct)['FL'])
    if file:
        j = env.get_json('s.json')
        env.check('file: entries', set(j) == set(r))
        for k in r:
            env.eq('file: ' + k, j[k], r[k]) if k != 'stalled_wing' else env.check('file: ' + k, j[k] == r[k])


def late(env, lo, hi):
    """lifting line whose sections stall beyond some angle, high up"""
    plant = Plant(env)
    mu = small(env)
    th = env.real('stall_angle', lo, hi)
    LL = env.m.llmodel.LLModel
    LL._find_stall_location
    LL._find_stall_location = lambda model: {'stalled_wing': 'w', 'span_location': env.rat(1, 4)} if plant.log[-1][0]['alpha'] > th else None
    st = dict(V_mag=env.real('V_mag', 0.5, 500), rho=env.real('rho', 0.0005, 20), beta=env.real('beta', -60, 60))
    r = mu.stall_onset(aero_state=st)
    last = [a['alpha'] for a, c in plant.log][-1]
    env.check('angle of the last solve', abs(float(last) - float(r['alpha'])) < 1e-6)
    env.check('an angle searched', abs(float(last) * STEP - round(float(last) * STEP)) < 1e-6)
    # (sum of steps: rounding)
    slack = env.rat(1, 10**6)
    env.lt('stalled at the angle', th, last + slack)
    env.lt('not stalled at the angle before', last - env.rat(1, STEP), th + slack)
    env.eq('lift', r['lift'], plant.result(dict(st, alpha=last), None)['FL'])


def segment(mu, i):
    for k, s in enumerate(mu.myairplane.get_wingsegments()):
        i -= s.get_num_sections()
        if i < 0:
            return k


class Onset:
    """stands for stall_onset: lift as a rule of the airspeed"""
    def __init__(self, env, rule):
        self.log = []

        def onset(mu, aero_state=None, control_state=None, prop_state=None, filename=None):
            self.log.append((frozen(aero_state), frozen(control_state), frozen(prop_state)))
            n = len(self.log)
            return {'lift': rule(aero_state['V_mag'], n), 'alpha': 10 + n, 'stalled_wing': 'wing%d' % n, 'span_location': env.rat(1, n + 1)}
        env.m.MU.MachUp.stall_onset = onset


class Enough(Exception):
    pass


def speed(env, control=True, file=False, bare=False):
    b, c = env.real('lift0', -2, 2), env.real('lift1', 0.1, 2)
    o = Onset(env, lambda V, n: b + c * V)
    mu = small(env)
    st, ct, ps = full_state(env), full_control(env) if control else None, {'J': env.real('J', 0.2, 1)}
    W = env.real('weight', 3, 50)
    a = dict(aero_state=st, control_state=ct, prop_state=ps) if not bare else dict(control_state=ct, prop_state=ps)
    if file:
        a['filename'] = env.path('s.json')
    r = mu.stall_airspeed(W, **a)
    n = len(o.log)
    env.check('entries', set(r) == {'alpha', 'lift', 'stalled_wing', 'span_location', 'airspeed'})
    env.eq('lift at the returned airspeed', b + c * r['airspeed'], W, scale=1)
    k = int(r['alpha']) - 10
    env.check('describes the last onset found', k == n and r['stalled_wing'] == 'wing%d' % k)
    env.eq('span location', r['span_location'], env.rat(1, k + 1))
    ref = dict(V_mag=10, rho=0.0023769, alpha=0) if bare else st
    for k, (x, y, z) in enumerate(o.log):
        for d in (x, ref):
            d.setdefault('alpha', 0)
        same(env, 'state %d' % k, {k: x[k] for k in sorted(x) if k != 'V_mag'}, {k: ref[k] for k in sorted(ref) if k != 'V_mag'})
        same(env, 'controls %d' % k, y, ct)
        same(env, 'propellers %d' % k, z, ps)
    if file:
        j = env.get_json('s.json')
        env.check('file: entries', set(j) == set(r))
        env.eq('file: airspeed', j['airspeed'], r['airspeed'])
        env.check('file: wing', j['stalled_wing'] == r['stalled_wing'])


def speeds(env, steps, err=None):
    memo = []

    def rule(V, n):
        for x, y in memo:
            if x is V or (not env.symbolic and x == V):
                return y
        if len(memo) >= steps:
            raise Enough()
        memo.append((V, env.real('lift%d' % len(memo), 1, 30)))
        return memo[-1][1]
    o = Onset(env, rule)
    mu = small(env)
    st = full_state(env)
    W = env.real('weight', 5, 20)
    kw = {} if err is None else dict(error=err)
    err = env.rat(1, 10 ** 9) if err is None else err
    try:
        r = mu.stall_airspeed(W, aero_state=st, **kw)
    except Enough:
        return
    (x0, y0), (x1, y1) = [(a['V_mag'], rule(a['V_mag'], 0) - W) for a, _, _ in o.log[-2:]]
    env.check('converged', env.abs(r['airspeed'] - x1) < err)
    env.eq('secant step', (r['airspeed'] - x1) * (y1 - y0), -y1 * (x1 - x0), scale=1)
    env.eq('lift reported', r['lift'], y1 + W)


def no_wings(env, what, file):
    ap = make_airplane(env, [0, 0, 0])
    ap.add_prop('p', **prop_dict())
    mu = env.m.MU.MachUp(inputAirplane=ap)
    f = lambda **k: getattr(mu, what)(*([env.real('weight', 3, 50)] if what == 'stall_airspeed' else []), aero_state=full_state(env), **k)
    if file:
        env.check('returned', f(filename=env.path('s.json')) == {'error': 'unstallable'})
        env.check('in the file', env.get_json('s.json') == {'error': 'unstallable'})
    else:
        env.check('exception', raises(f, RuntimeError))


HARNESSES = [H('one side, 1 angle', lambda e: find(e, [('right', 1)], 1), bounds='stall at the first angle, 1 section'),
             H('one side, 3 angles', lambda e: find(e, [('right', 1)], 3), bounds='stall within 3 angles, 1 section'),
             H('left side, 2 angles', lambda e: find(e, [('left', 1)], 2), bounds='stall within 2 angles, 1 section'),
             H('both sides', lambda e: find(e, [('both', 1)], 2), bounds='stall within 2 angles, 2 sections'),
             H('both sides, named right', lambda e: find(e, [('both', 1)], 1, left_name='right'), bounds='stall at the first angle, 2 sections'),
             H('left side named right', lambda e: find(e, [('left', 2)], 1, left_name='upright'), bounds='stall at the first angle, 2 sections'),
             H('right side named left', lambda e: find(e, [('right', 2)], 1, left_name='leftright'), bounds='stall at the first angle, 2 sections'),
             H('two wings', lambda e: find(e, [('right', 1), ('left', 1)], 1), bounds='stall at the first angle, 2 sections'),
             H('deflected', lambda e: find(e, [('right', 1)], 2, control=True), bounds='stall within 2 angles, 1 section'),
             H('to file', lambda e: find(e, [('right', 1)], 2, file=True), bounds='stall within 2 angles, 1 section'),
             H('no state', lambda e: find(e, [('right', 1)], 2, bare=True, file=True), bounds='stall within 2 angles, 1 section'),
             ] + [H('late, %g to %g degrees' % w, lambda e, w=w: late(e, *w), bounds='any lifting line that stalls at an angle between %g and %g' % w) for w in ((9.95, 10.25), (29.85, 30.25), (54.95, 55.15))] + [
             H('airspeed', speed, bounds='any affine lift'), H('airspeed, to file', lambda e: speed(e, file=True), bounds='any affine lift'),
             H('airspeed, no state', lambda e: speed(e, bare=True, file=True), bounds='any affine lift'),
             H('airspeed, no controls', lambda e: speed(e, control=False), bounds='any affine lift'),
             H('airspeed, any values', lambda e: speeds(e, 6), bounds='up to 6 airspeeds'), H('airspeed, any values, wide error', lambda e: speeds(e, 6, err=e.real('error', 0.01, 1)), bounds='up to 6 airspeeds'),
             ] + [H('no wings, %s%s' % (w, ', to file' if f else ''), lambda e, w=w, f=f: no_wings(e, w, f), bounds='') for w in ('stall_onset', 'stall_airspeed') for f in (0, 1)]
