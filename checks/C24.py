from .proplib import *
from .C16 import affine
from .C21 import Onset

COVERAGE = 'Every analysis called with each combination of states left out, against the same call with speed 10, density 0.0023769, zero angles, zero deflections and J = 0.5 written out, for arbitrary aerodynamic models, with and without a file; solve, distributions and stall_onset also on the lifting line itself with an arbitrary grid, and propellers on the real propeller model.'
AERO = dict(V_mag=10, rho=0.0023769, alpha=0, beta=0)
ZEROS = {c: 0 for c in CH}
PROP = {'J': 0.5}


def alike(env, label, a, b):
    if isinstance(b, dict):
        if not isinstance(a, dict) or set(a) != set(b):
            return env.fail(label, 'entries %s instead of %s' % (sorted(a) if isinstance(a, dict) else a, sorted(b)))
        for k in b:
            alike(env, '%s %s' % (label, k), a[k], b[k])
    elif isinstance(b, (tuple, list)):
        for i, (x, y) in enumerate(zip(a, b)):
            alike(env, '%s %d' % (label, i), x, y)
    elif isinstance(b, str):
        env.check(label, a == b)
    elif hasattr(b, 'shape') and b.shape and isinstance(b.flat[0], str):
        env.check(label, [str(x) for x in a.flat] == [str(x) for x in b.flat])
    else:
        env.eq(label, a, b)


def bent(env):
    """lift and moment that take several steps to find"""
    f, c = affine(env), env.real('plant_c', 0.001, 0.003)
    return lambda x: dict(f(x), FL=f(x)['FL'] + c * x['alpha'] * x['alpha'])


def calls(env, which, **more):
    t = env.real('target', 2, 5)
    return dict(target_lift=lambda mu, a: mu.target_lift(t, **a, **more), pitch_trim=lambda mu, a: mu.pitch_trim(t, m_target=env.real('m_target', -1, 1), **a, **more),
                stall_airspeed=lambda mu, a: mu.stall_airspeed(t, **a, **more)).get(which, lambda mu, a: getattr(mu, which)(**a))


def pair(env, mu, which, omit, given, file=False, **more):
    """the call with states left out and the call with them written out"""
    written = dict(given)
    for k in omit:
        written[k] = {'aero_state': dict(AERO), 'control_state': dict(ZEROS), 'prop_state': dict(PROP)}[k]
    left = {k: v for k, v in given.items() if k not in omit}
    fa, fb = ({'filename': env.path(n)} if file else {} for n in ('a.json', 'b.json'))
    f = calls(env, which, **more)
    a = f(mu, dict(left, **fa))
    b = f(mu, dict(written, **fb))
    alike(env, which, a, b)
    if file:
        alike(env, which + ' file', env.get_json('a.json'), env.get_json('b.json'))


def model(env, which, omit, file=False, props=False, wide=False):
    if which == 'find_aero_center':
        env.thin(130)
        env.abstract = True
    if which == 'stall_airspeed':
        c = [env.real('lift%d' % k, 0.1, 2) for k in range(7)]

        class Any(Onset):
            pass
        Onset(env, None)
        log = []

        def onset(self, aero_state=None, control_state=None, prop_state=None, filename=None):
            x = key(aero_state, control_state)
            log.append((aero_state, control_state, prop_state))
            return {'lift': c[0] * x[0] + c[1] * x[1] + c[2] * x[3] + c[3] * x[7] + c[4] * x[8] + c[5] * x[10] + c[6] * (prop_state or PROP)['J'], 'alpha': 9 + x[0], 'stalled_wing': 'w', 'span_location': 0.5}
        env.m.MU.MachUp.stall_onset = onset
    Plant(env, props=props, total=(bent if wide else affine)(env) if which in ('target_lift', 'pitch_trim') else None)
    mu = small(env, props=1 if props else 0, refs={k: env.real('ref_' + k, 0.5, 8) for k in ('longitudinal', 'lateral')})
    given = dict(aero_state=full_state(env), control_state=full_control(env))
    if props or which == 'stall_airspeed':
        given['prop_state'] = {'J': env.real('J', 0.2, 1.2)}
    # a tolerance so wide that the first guess will do
    more = dict(error=env.rat(10 ** 12)) if wide else {}
    pair(env, mu, which, omit, given, file, **more)


def line(env, which, omit, file=False):
    """on the lifting line"""
    cut_grid(env)
    mu = env.m.MU.MachUp(inputAirplane=plane(env, [('both', 1)] if which != 'stall_onset' else [('right', 1)], control=True, fixed=True, cg=[0, 0, 0], af='const'))
    st = dict(V_mag=env.real('V_mag', 5, 50), rho=env.real('rho', 0.5, 1.3), alpha=env.real('alpha', -5, 8), pitch_rate=env.real('q', -0.5, 0.5))
    ct = {c: env.real(c, -10, 10) for c in CH}
    if which == 'stall_onset' and env.symbolic:
        s = dict(AERO if 'aero_state' in omit else st, alpha=0.1)
        w, _ = mu.distributions(aero_state=s, control_state=ZEROS if 'control_state' in omit else ct)
        env.assume(w['section_CL'][0] > mu.myllmodel._grid.get_max_lifts()[0])
    pair(env, mu, which, omit, dict(aero_state=st, control_state=ct), file)


def propellers(env, which, omit, wings):
    blade_env(env)
    ap = make_airplane(env, [0, 0, 0])
    if wings:
        ap.add_wing('w', side='right', **wing_dims(env, 'w', position=[-1, 0, 0], yoffset=0, semispan=1, sweep=0, dihedral=0, mount_angle=0, washout=0, root_chord=1, tip_chord=1, grid=2)).airfoil('af', **CONST_AF)
    ap.add_prop('p0', **dict(prop_dict(0), position=[0.5, 0.2, 0]))
    mu = env.m.MU.MachUp(inputAirplane=ap)
    pair(env, mu, which, omit, dict(aero_state=dict(V_mag=env.real('V_mag', 5, 20), rho=env.real('rho', 0.5, 1.3)), prop_state={'J': env.real('J', 0.3, 0.9)}))


A, C, P_ = 'aero_state', 'control_state', 'prop_state'
HARNESSES = []
ALL = ('solve', 'derivatives', 'stability_derivatives', 'damping_derivatives', 'control_derivatives', 'target_lift', 'pitch_trim', 'find_aero_center', 'stall_airspeed')
for w in ALL:
    for omit in ((A,), (C,), (A, C)):
        HARNESSES.append(H('%s without %s' % (w, ', '.join(omit)), lambda e, w=w, omit=omit: model(e, w, omit), bounds='any model' if w not in ('target_lift', 'pitch_trim', 'stall_airspeed') else 'affine model'))
    if not w.endswith('_derivatives') and w != 'solve':
        HARNESSES.append(H('%s without any state, to file' % w, lambda e, w=w: model(e, w, (A, C), file=True), bounds='any model' if w not in ('target_lift', 'pitch_trim', 'stall_airspeed') else 'affine model'))
    if w not in ('find_aero_center', 'target_lift', 'pitch_trim'):
        for omit in ((P_,), (A, P_)):
            HARNESSES.append(H('%s with propeller without %s' % (w, ', '.join(omit)), lambda e, w=w, omit=omit: model(e, w, omit, props=w != 'stall_airspeed'), bounds='any model'))
for omit in ((A,), (C,), (A, C)):
    for w in ('target_lift', 'pitch_trim', 'stall_airspeed'):
        HARNESSES.append(H('%s without %s, wide tolerance' % (w, ', '.join(omit)), lambda e, w=w, omit=omit: model(e, w, omit, file=omit == (A, C), wide=True), bounds='any model, first step'))
for omit in ((A,), (C,), (A, C)):
    for w in ('solve', 'distributions', 'stall_onset'):
        HARNESSES.append(H('lifting line: %s without %s' % (w, ', '.join(omit)), lambda e, w=w, omit=omit: line(e, w, omit, file=w != 'distributions' and len(omit) == 2), bounds='1-2 horseshoes, stall within 2 angles'))
for omit in ((P_,), (A, P_)):
    for w in ('solve', 'distributions'):
        HARNESSES.append(H('propeller: %s without %s' % (w, ', '.join(omit)), lambda e, w=w, omit=omit: propellers(e, w, omit, False), bounds='4 stations'))
HARNESSES.append(H('wing and propeller: solve without any state', lambda e: propellers(e, 'solve', (A, P_), True), bounds='4 stations, 2 horseshoes'))
