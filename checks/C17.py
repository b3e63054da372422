from .proplib import *

COVERAGE = 'MachUp.solve against the sums of what its wing and propeller models return (both arbitrary functions of the state), the local velocities handed to the wings, wings alone, propellers alone; and with the real models (blade-element solution arbitrary in symbolic runs): totals against the lifting line solved in the slipstream velocities plus the propeller loads.'


def sums(env, control=True):
    plant = Plant(env, props=True)
    # loads of the propellers large and small
    size, prop = env.real('size', 0.0001, 10), plant.prop
    plant.prop = lambda *a: {k: size * x for k, x in prop(*a).items()}
    mu = small(env, props=1)
    st, ct = full_state(env), full_control(env) if control else None
    ps = {'J': env.real('J', 0.3, 0.9)}
    got = mu.solve(aero_state=st, control_state=ct, prop_state=ps)
    want = plant.result(st, ct, ps)
    env.check('components', set(got) == set(KEYS))
    for k in KEYS:
        env.eq(k, got[k], want[k])
    (a, c), = plant.log
    (pa, pp), = plant.prop_log
    n = a['local_state'].shape[0]
    env.check('one velocity per section', n == 2)
    j = ps['J']
    env.eq('velocities seen by the wing', list(a['local_state'].flat), [x for i in range(n) for x in (st['rho'], -st['V_mag'] - j * (i + 1), 0, j)])
    for k in st:
        env.eq('wing state %s' % k, a[k], st[k])
        env.eq('propeller state %s' % k, pa[k], st[k])
    same(env, 'control state', c, ct)
    same(env, 'propeller operating state', pp, ps)


def alone(env, which):
    plant = Plant(env)
    if which == 'wings':
        mu = small(env)
        st, ct = full_state(env), full_control(env)
        got, want = mu.solve(aero_state=st, control_state=ct), plant.result(st, ct)
        (a, c), = plant.log
        same(env, 'wing state', a, st)
        same(env, 'control state', c, ct)
    else:
        blade_env(env)
        ap = make_airplane(env)
        ap.add_prop('p0', **prop_dict(0))
        mu = env.m.MU.MachUp(inputAirplane=ap)
        st = dict(V_mag=env.real('V', 0.5, 200), rho=env.real('rho', 0.001, 1.3))
        ps = {'J': env.real('J', 0.3, 0.9)}
        got = mu.solve(aero_state=st, prop_state=ps)
        r, v = env.m.propssolver.PropsSolver(ap, None).solve(st, ps)
        want = r['total']
        env.check('no velocities without wings', v is None)
        env.check('no lifting line', not plant.log)
    env.check('components', set(got) == set(KEYS))
    for k in KEYS:
        env.eq(k, got[k], want[k])


def real(env, nprops=1, rates=False):
    """nothing replaced but the blade-element iteration (in symbolic runs)"""
    blade_env(env)
    ap = make_airplane(env, [env.real('cgx', -1, 1), 0, env.real('cgz', -1, 1)])
    w = ap.add_wing('w', side='right', **wing_dims(env, 'w', position=[-1, 0, 0], yoffset=0, semispan=1, sweep=0, dihedral=0, mount_angle=0, washout=0, root_chord=1, tip_chord=1, grid=2))
    w.airfoil('af', **airfoil(env, 'w'))
    w.control_surface(percent_span=(0, 1), percent_chord=0.3, mix={'flap': 1})
    for k in range(nprops):
        ap.add_prop('p%d' % k, position=[0.5, 0.2 + 0.4 * k, 0], nodes=4, diameter=2, hub_diameter=0.1)
    mu = env.m.MU.MachUp(inputAirplane=ap)
    st = dict(V_mag=env.real('V', 0.5, 200), rho=env.real('rho', 0.001, 1.3))
    if rates:
        st['pitch_rate'] = env.real('q', -1, 1)
    ct = {'flap': env.real('flap', -10, 10)}
    ps = {'J': env.real('J', 0.3, 0.9)}
    got = mu.solve(aero_state=st, control_state=ct, prop_state=ps)
    line = env.m.llmodel.LLModel(ap)
    pts = env.m.llgrid.LLGrid(ap).get_control_point_pos()
    pr, vel = env.m.propssolver.PropsSolver(ap, pts).solve(st, ps)
    wr = line.solve('linear', aero_state=dict(st, local_state=vel), control_state=ct)
    for k in KEYS:
        env.eq(k, got[k], wr['total'][k] + pr['total'][k], scale=1e-2)
    # the slipstream is there: a point behind the propeller moves faster than the flight speed when the propeller thrusts
    env.check('velocities at every point', vel.shape[0] == 2)


HARNESSES = [H('sums', sums, bounds='any models'), H('sums without control state', lambda e: sums(e, False), bounds='any models'),
             H('wings alone', lambda e: alone(e, 'wings'), bounds='any model'), H('propellers alone', lambda e: alone(e, 'props'), bounds='4 stations'),
             H('real models', real, bounds='4 stations, 2 horseshoes'), H('real models with pitch rate', lambda e: real(e, rates=True), bounds='4 stations, 2 horseshoes'),
             H('real models, two propellers', lambda e: real(e, 2), bounds='2 x 4 stations, 2 horseshoes', thorough_only=True)]
