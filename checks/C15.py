from .proplib import *

COVERAGE = 'A solve after earlier solves (other angles, rates, local velocities, deflections, defaults, a solve refused for lack of data, analyses, propeller states) against the same solve of a fresh model, every component, for every grid of the stated size; results and distributions handed out before stay as they were.  Induced angles and section coefficients of the propeller are arbitrary functions in symbolic runs.'
PARTS = ('inviscid', 'viscous', 'total')


def same_grid(key, g):
    return g[key]


def kept(env, label, now, then):
    for k in then:
        if isinstance(then[k], dict):
            kept(env, '%s %s' % (label, k), now[k], then[k])
        elif hasattr(then[k], 'flat'):
            env.eq('%s: %s' % (label, k), list(now[k].flat), list(then[k].flat))
        else:
            env.eq('%s: %s' % (label, k), now[k], then[k])


def histories(env, n):
    """(aero, control) states that each leave something different behind"""
    full = dict(state(env, n, p='a_'), **{k: env.real('a_' + k, -2, 2) for k in RATES})
    local = state(env, n, local=True, p='b_')
    only_local = {'local_state': state(env, n, local=True, p='c_')['local_state']}
    ctl = {c: env.real('a_' + c, -25, 25) for c in CH}
    return dict(full=(full, ctl), local=(dict(local, yaw_rate=env.real('b_yaw_rate', -2, 2)), {'flap': env.real('b_flap', -25, 25)}), only_local=(only_local, None), default=(None, None))


def finals(env, n):
    st = state(env, n)
    return dict(plain=(st, None), bare=(dict(V_mag=st['V_mag'], rho=st['rho']), {}), rates=(dict(st, pitch_rate=env.real('q', -2, 2)), {'elevator': env.real('elevator', -25, 25)}),
                local=(state(env, n, local=True), {c: env.real(c, -25, 25) for c in CH}), only_local=({'local_state': state(env, n, local=True)['local_state']}, None), default=(None, None))


def line(env, wings, hist, final, refused=False):
    n = sum((2 if s == 'both' else 1) * k for s, k in wings)
    cut_grid(env, same_grid)
    ap = plane(env, wings, cg=[env.real('cg' + c, -1, 1) for c in 'xyz'], control=True, fixed=True)
    used, fresh = env.m.llmodel.LLModel(ap), env.m.llmodel.LLModel(ap)
    H_, F_ = histories(env, n), finals(env, n)
    old = []
    for h in hist:
        a, c = H_[h]
        r = used.solve('linear', aero_state=a, control_state=c)
        old.append((h, r, frozen(r)))
    if refused:
        env.check('incomplete state refused', raises(lambda: used.solve('linear', aero_state={'alpha': 3, 'rho': 1, 'roll_rate': 1}, control_state={'flap': 20}), RuntimeError))
    a, c = F_[final]
    got = used.solve('linear', aero_state=a, control_state=c)
    want = fresh.solve('linear', aero_state=a, control_state=c)
    for p in PARTS:
        for k in KEYS:
            env.eq('%s %s' % (p, k), got[p][k], want[p][k], scale=1e-3)
    for h, r, was in old:
        kept(env, 'result of %s' % h, r, was)


def machup(env, analyses):
    """at the level of MachUp: distributions and totals after analyses of another state"""
    cut_grid(env, same_grid)
    ap = [plane(env, [('both', 1)], control=True, fixed=True) for _ in (0, 1)]
    used, fresh = [env.m.MU.MachUp(inputAirplane=x) for x in ap]
    s1 = dict(state(env, 2, p='a_', wide=8), roll_rate=env.real('a_roll_rate', -1, 1))
    c1 = {'flap': env.real('a_flap', -10, 10)}
    s2 = state(env, 2)
    d, _ = used.distributions(aero_state=s1, control_state=c1)
    keep = {k: frozen(v) for k, v in d.items() if k != 'name'}
    for f in analyses:
        f(used, s1, c1)
    got, want = used.solve(aero_state=s2), fresh.solve(aero_state=s2)
    for k in KEYS:
        env.eq('total %s' % k, got[k], want[k], scale=1e-3)
    kept(env, 'distributions', d, keep)
    dg, dw = used.distributions(aero_state=s2, control_state=c1)[0], fresh.distributions(aero_state=s2, control_state=c1)[0]
    for k in dw:
        if k != 'name':
            env.eq('distribution %s' % k, list(dg[k].flat), list(dw[k].flat), scale=1e-3)


def props(env, hist, final, wing=False, tilt=('final',)):
    """tilt: which of the two states has the flow at an angle to the propeller axis"""
    blade_env(env)
    d = dict(nodes=3, diameter=1.5, hub_diameter=0.2, position=[1, 0, 0] if wing else [env.real('px', 0, 2), env.real('py', -1, 1), env.real('pz', -1, 1)], orientation=[0, 0],
             electric_motor=dict(has_motor=True, motor_kv=800, motor_resistance=0.1, motor_no_load_current=0.5, gear_reduction=1, battery_resistance=0.02, battery_voltage=11, speed_control_resistance=0.01))
    mus = []
    for _ in (0, 1):
        ap = make_airplane(env, [env.real('cg' + c, -1, 1) for c in 'xyz'])
        if wing:
            ap.add_wing('w', side='right', **wing_dims(env, 'w', position=[-1, 0, 0], yoffset=0, semispan=0.5, sweep=0, dihedral=0, mount_angle=0, washout=0, root_chord=1, tip_chord=1, grid=1)).airfoil('af', **CONST_AF)
        ap.add_prop('p', **d)
        ap.set_units('SI') if hasattr(ap, 'set_units') else None
        mus.append(env.m.MU.MachUp(inputAirplane=ap))
    used, fresh = mus
    states = dict(J=({'J': env.real('a_J', 0.3, 0.9)}), rot=({'rot_per_sec': env.real('a_n', 8, 30)}), power=({'brake_power': env.real('a_P', 5, 50)}), none=None, named={'p': {'rot_per_sec': env.real('b_n', 8, 30)}})
    s1 = dict(V_mag=env.real('a_V', 5, 20), rho=env.real('a_rho', 0.5, 1.3))
    s2 = dict(V_mag=env.real('V', 5, 20), rho=env.real('rho', 0.5, 1.3))
    if 'history' in tilt:
        s1.update(alpha=env.real('a_alpha', 2, 8), beta=env.real('a_beta', 2, 8))
    if 'final' in tilt:
        s2.update(alpha=env.real('alpha', 2, 8), beta=env.real('beta', 2, 8))
    old = []
    for h in hist:
        r = used.solve(aero_state=s1, prop_state=states[h])
        old.append((h, r, frozen(r)))
    _, d = used.distributions(aero_state=s1, prop_state=states[hist[-1]])
    keep = {k: frozen(v) for k, v in d.items() if k != 'name'}
    end = dict(J={'J': env.real('J', 0.3, 0.9)}, rot={'rot_per_sec': env.real('n', 8, 30)}, none=None, named={'p': {'J': env.real('J', 0.3, 0.9)}})[final]
    got, want = used.solve(aero_state=s2, prop_state=end), fresh.solve(aero_state=s2, prop_state=end)
    for k in KEYS:
        env.eq('total %s' % k, got[k], want[k], scale=1e-3, tol=1e-5)
    for h, r, was in old:
        kept(env, 'result of %s' % h, r, was)
    kept(env, 'propeller distributions', d, keep)


ONE, TWO = [('right', 1)], [('both', 1)]
def blade(env, J1, J2):
    """the induced angles themselves, the real iteration with few steps"""
    blade_env(env, ei='coarse')
    mus = []
    for _ in (0, 1):
        ap = make_airplane(env, [0, 0, 0])
        ap.add_prop('p', nodes=3, diameter=2, hub_diameter=0.5)
        mus.append(env.m.MU.MachUp(inputAirplane=ap))
    used, fresh = mus
    V, rho = env.real('V', 5, 20), env.real('rho', 0.5, 1.3)
    used.solve(aero_state=dict(V_mag=env.real('a_V', 5, 20), rho=1), prop_state={'J': env.rat(*J1)})
    st = dict(V_mag=V, rho=rho)
    got, want = [mu.solve(aero_state=st, prop_state={'J': env.rat(*J2)}) for mu in (used, fresh)]
    for k in KEYS:
        env.eq('total %s' % k, got[k], want[k], scale=1e-3, tol=1e-5)


HARNESSES = [H('after rates and controls', lambda e: line(e, ONE, ['full'], 'plain'), bounds='1 horseshoe, 1 earlier solve'),
             H('after rates and controls, bare state', lambda e: line(e, ONE, ['full'], 'bare'), bounds='1 horseshoe, 1 earlier solve'),
             H('after rates and controls, other rate', lambda e: line(e, ONE, ['full'], 'rates'), bounds='1 horseshoe, 1 earlier solve'),
             H('after rates and controls, local', lambda e: line(e, TWO, ['full'], 'local'), bounds='2 horseshoes, 1 earlier solve'),
             H('after local', lambda e: line(e, TWO, ['local'], 'plain'), bounds='2 horseshoes, 1 earlier solve'),
             H('after local, local', lambda e: line(e, TWO, ['local'], 'only_local'), bounds='2 horseshoes, 1 earlier solve'),
             H('defaults at the end', lambda e: line(e, TWO, ['full'], 'default'), bounds='2 horseshoes, 1 earlier solve'),
             H('after defaults', lambda e: line(e, TWO, ['default', 'only_local'], 'rates'), bounds='2 horseshoes, 2 earlier solves'),
             H('after a refused solve', lambda e: line(e, TWO, ['full'], 'plain', refused=True), bounds='2 horseshoes, 2 earlier solves'),
             H('long history', lambda e: line(e, ONE, ['full', 'local', 'only_local', 'full', 'default'], 'plain', refused=True), bounds='1 horseshoe, 6 earlier solves'),
             H('distributions', lambda e: machup(e, []), bounds='2 horseshoes'),
             H('stability derivatives in between', lambda e: machup(e, [lambda mu, s, c: mu.stability_derivatives(aero_state=s, control_state=c), lambda mu, s, c: mu.control_derivatives(aero_state=s, control_state=c)]), bounds='2 horseshoes'),
             H('damping derivatives in between', lambda e: machup(e, [lambda mu, s, c: mu.damping_derivatives(aero_state=s, control_state=c)]), bounds='2 horseshoes'),
             H('propeller J after rate', lambda e: props(e, ['rot'], 'J'), bounds='3 stations'),
             H('propeller rate after J', lambda e: props(e, ['J'], 'rot', tilt=('history',)), bounds='3 stations'),
             H('propeller default after power', lambda e: props(e, ['power'], 'none'), bounds='3 stations'),
             H('propeller J after power', lambda e: props(e, ['power', 'named'], 'named', tilt=()), bounds='3 stations'),
             H('propeller and wing', lambda e: props(e, ['rot'], 'J', wing=True, tilt=()), bounds='3 stations, 1 horseshoe'),
             H('propeller, real iteration', lambda e: blade(e, (8, 5), (1, 2)), bounds='3 stations, 3 steps of the iteration, J 1.6 then 0.5')]
