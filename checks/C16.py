from .mulib import *

COVERAGE = 'Every analysis called with symbolic states (extra entries, nested per-propeller states, local velocities included), for an arbitrary aerodynamic model that also refuses the k-th solve: the dictionaries passed in, and the arrays inside, hold afterwards what they held before.  States with every entry and with the fewest entries.  The iterative analyses are run on an affine model so that they end.'


class Boom(Exception):
    pass


def states(env, local=False, few=False):
    st = full_state(env)
    if few:
        # only what a state needs, one control
        st = {k: st[k] for k in ('V_mag', 'rho')}
        return st, {few: env.real(few, -20, 20)}, {'J': env.real('J', 0.3, 0.9)}
    st['remark'] = 'kept'
    if local:
        st['local_state'] = env.array([[env.real('rho_l', 0.5, 1.3)] + [env.real('v' + c, -30, -5) for c in 'xyz'] for _ in range(2)])
    ct = full_control(env)
    ct['spoiler'] = env.real('spoiler', 0, 20)
    ps = {'p0': {'J': env.real('J', 0.3, 0.9)}, 'J': env.real('J2', 0.3, 0.9)}
    return st, ct, ps


def affine(env):
    """lift and moment affine in angle of attack and elevator: the searches end"""
    c = {k: env.real('plant_' + k, a, b) for k, a, b in (('L0', -1, 1), ('La', 1, 3), ('Le', 0.1, 0.5), ('m0', -1, 1), ('ma', -2, -1), ('me', -3, -2))}
    return lambda x: dict(FL=c['L0'] + c['La'] * x['alpha'] + c['Le'] * x['elevator'], MY=c['m0'] + c['ma'] * x['alpha'] + c['me'] * x['elevator'])


def calls(env, which):
    t = env.real('target', 2, 5)
    return dict(solve=lambda mu, a: mu.solve(**a), derivatives=lambda mu, a: mu.derivatives(**a), stability_derivatives=lambda mu, a: mu.stability_derivatives(**a),
                damping_derivatives=lambda mu, a: mu.damping_derivatives(**a), control_derivatives=lambda mu, a: mu.control_derivatives(**a), target_lift=lambda mu, a: mu.target_lift(t, **a),
                pitch_trim=lambda mu, a: mu.pitch_trim(t, m_target=env.real('m_target', -1, 1), **a), find_aero_center=lambda mu, a: mu.find_aero_center(**a),
                stall_onset=lambda mu, a: mu.stall_onset(**a), stall_airspeed=lambda mu, a: mu.stall_airspeed(t, **a), distributions=lambda mu, a: mu.distributions(**a))[which]


def run(env, which, props=False, fail_at=None, control=True, total=None, file=False, local=False, few=False):
    plant = Plant(env, props=props, total=affine(env) if which in ('target_lift', 'pitch_trim') else total)
    if fail_at is not None:
        f, n = env.m.llmodel.LLModel.solve, [0]

        def solve(model, stype, aero_state=None, control_state=None):
            n[0] += 1
            if n[0] >= fail_at:
                raise Boom()
            return f(model, stype, aero_state=aero_state, control_state=control_state)
        env.m.llmodel.LLModel.solve = solve
    mu = small(env, props=1 if props else 0)
    st, ct, ps = states(env, local, few)
    a = dict(aero_state=st)
    if control:
        a['control_state'] = ct
    if props:
        a['prop_state'] = ps
    if file:
        a['filename'] = env.path('out.json')
    was = {k: frozen(v) for k, v in a.items()}
    try:
        calls(env, which)(mu, a)
    except Boom:
        pass
    for k in a:
        same(env, '%s: %s' % (which, k), a[k], was[k])


def diverge(env, which, file=False):
    """a search that does not converge (or finds no elevator) and reports it"""
    bump = [0]

    def total(x):
        bump[0] += 1
        if which == 'no_elevator':
            return dict(FL=x['alpha'], MY=-x['alpha'])
        if which == 'target_lift':
            return dict(FL=5 + env.rat(2 ** bump[0]))
        # a response that keeps moving: no two solves agree on where the target is
        return dict(FL=x['alpha'] * 2 + env.rat(bump[0] * bump[0]), MY=-x['elevator'] * 3 - env.rat(bump[0] * bump[0], 2))
    Plant(env, total=total)
    mu = small(env)
    st, ct, _ = states(env)
    st['alpha'] = env.real('start', 1, 12)
    a = dict(aero_state=st, control_state=ct)
    if file:
        a['filename'] = env.path('out.json')
    was = {k: frozen(v) for k, v in a.items()}
    f = (lambda: mu.target_lift(env.rat(5), **a)) if which == 'target_lift' else (lambda: mu.pitch_trim(env.rat(5), **a))
    if file:
        f()
    else:
        env.check('%s: failure reported' % which, raises(f, RuntimeError))
    for k in a:
        same(env, '%s: %s' % (which, k), a[k], was[k])


def line(env, which, local=False, control=True):
    """with the lifting line itself"""
    cut_grid(env)
    mu = env.m.MU.MachUp(inputAirplane=plane(env, [('both', 1)], control=True, fixed=True))
    st, ct, _ = states(env, local)
    a = dict(aero_state=st, control_state=ct) if control else dict(aero_state=st)
    was = {k: frozen(v) for k, v in a.items()}
    calls(env, which)(mu, a)
    for k in a:
        same(env, '%s: %s' % (which, k), a[k], was[k])


def stall(env):
    """stall_onset to its end: symbolically any model that stalls at the third angle, concretely the lifting line itself"""
    if env.symbolic:
        env.abstract = True
        Plant(env)
        env.m.llmodel.LLModel._find_stall_location
        n = [0]

        def find(model):
            n[0] += 1
            return {'stalled_wing': 'right_w', 'span_location': env.rat(1, 2)} if n[0] >= 3 else None
        env.m.llmodel.LLModel._find_stall_location = find
    mu = env.m.MU.MachUp(inputAirplane=plane(env, [('both', 1)], control=True, fixed=True, af=False))
    st, ct, _ = states(env)
    if not env.symbolic:
        for k in RATES:
            st[k] = 0
        ct = {k: 0 for k in ct}
    a = dict(aero_state=st, control_state=ct)
    was = {k: frozen(v) for k, v in a.items()}
    mu.stall_onset(**a)
    for k in a:
        same(env, 'stall_onset: %s' % k, a[k], was[k])


def stall_speed(env):
    """stall_airspeed over any stall analysis with maximum lift affine in the airspeed"""
    b, c = env.real('lift0', 0, 1), env.real('lift1', 0.1, 2)
    env.m.MU.MachUp.stall_onset = lambda self, aero_state=None, control_state=None, prop_state=None, filename=None: {'lift': b + c * aero_state['V_mag'], 'alpha': 10, 'stalled_wing': 'w', 'span_location': 0.3}
    mu = small(env)
    st, ct, _ = states(env)
    a = dict(aero_state=st, control_state=ct)
    was = {k: frozen(v) for k, v in a.items()}
    mu.stall_airspeed(env.real('weight', 5, 50), **a)
    for k in a:
        same(env, 'stall_airspeed: %s' % k, a[k], was[k])


HARNESSES = [H('stall_onset', stall, bounds='any model, stall at the third angle'), H('stall_airspeed', stall_speed, bounds='affine maximum lift'),
             H('stall_onset, solve 1 refused', lambda e: run(e, 'stall_onset', fail_at=1), bounds='any model'),
             H('stall_airspeed, solve 1 refused', lambda e: run(e, 'stall_airspeed', fail_at=1), bounds='any model')]
for w in ('solve', 'stability_derivatives', 'damping_derivatives', 'control_derivatives', 'derivatives', 'target_lift', 'pitch_trim'):
    HARNESSES.append(H(w, lambda e, w=w: run(e, w), bounds='any model' if w not in ('target_lift', 'pitch_trim') else 'affine model'))
    if w not in ('target_lift', 'pitch_trim'):
        HARNESSES.append(H(w + ' with propeller', lambda e, w=w: run(e, w, props=True), bounds='any model'))
    if w.endswith('_derivatives'):
        for k in (1, 2, 3, 4, 5, 6, 7, 8):
            if k <= (4 if w[0] == 's' else 6 if w[0] == 'd' else 8):
                HARNESSES.append(H('%s, solve %d refused' % (w, k), lambda e, w=w, k=k: run(e, w, fail_at=k), bounds='any model'))
for w in ('target_lift', 'pitch_trim'):
    for k in (1, 2, 4):
        HARNESSES.append(H('%s, solve %d refused' % (w, k), lambda e, w=w, k=k: run(e, w, fail_at=k), bounds='affine model'))
HARNESSES += [H('target_lift without converging', lambda e: diverge(e, 'target_lift'), bounds='one moving response'),
              H('target_lift without converging, to file', lambda e: diverge(e, 'target_lift', True), bounds='one moving response'),
              H('pitch_trim without elevator', lambda e: diverge(e, 'no_elevator'), bounds='one model'),
              H('pitch_trim without elevator, to file', lambda e: diverge(e, 'no_elevator', True), bounds='one model'),
              H('pitch_trim without converging', lambda e: diverge(e, 'pitch_trim'), bounds='one moving response'),
              H('find_aero_center', lambda e: run(e, 'find_aero_center', fail_at=3), bounds='any model, third solve refused'),
              H('lifting line', lambda e: line(e, 'solve'), bounds='2 horseshoes'),
              H('lifting line, local velocities', lambda e: line(e, 'solve', local=True), bounds='2 horseshoes'),
              H('lifting line, distributions', lambda e: line(e, 'distributions', local=True), bounds='2 horseshoes')]
for w in ('solve', 'derivatives', 'target_lift', 'pitch_trim'):
    for k in ('flap', 'elevator'):
        HARNESSES.append(H('%s, %s alone' % (w, k), lambda e, w=w, k=k: run(e, w, few=k), bounds='any model' if w in ('solve', 'derivatives') else 'affine model'))
HARNESSES += [H('%s, few entries, solve 2 refused' % w, lambda e, w=w: run(e, w, few='flap', fail_at=2), bounds='any model')
              for w in ('derivatives', 'target_lift', 'pitch_trim', 'find_aero_center')]
