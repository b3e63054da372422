from .lib import *
from .proplib import blade_env
from .C29 import wind, axis

COVERAGE = 'The whole airplane moved by an arbitrary vector (rotation rates, controls and local velocities included): every result and section value unchanged.  Only the cg moved, no rotation: forces and sections unchanged, each moment changed by the arm crossed with the force (inviscid, viscous, propellers and total).  For every grid of the stated size; that moving the description moves the grid is shown on the real grid code.'
F, M = ('FL', 'FD', 'FS', 'FX', 'FY', 'FZ'), ('MX', 'MY', 'MZ')


def build(env, wings, cg, d):
    ap = make_airplane(env, cg)
    first = None
    for k, (side, n) in enumerate(wings):
        p = 'w%d' % k
        kw = wing_dims(env, p, grid=n, position=[-2 * k, 0.25 * k, -0.5 * k], yoffset=0.1, sweep=20, dihedral=7, mount_angle=2, washout=3)
        if first is None:
            kw['position'] = add(kw['position'], d)
        else:
            kw['connect_to'] = (first, 'tip')
        w = ap.add_wing(p, side=side, **kw)
        first = first or p
        w.airfoil('af' + p, **airfoil(env, p))
        w.control_surface(percent_span=(0, 1), percent_chord=env.real(p + '_cf', 0.1, 0.6), mix={c: env.real('%s_mix_%s' % (p, c), -1, 1) for c in CH})
    return ap


def pair(env, wings, whole, local=False, control=CH, rates=False):
    n = sum((2 if s == 'both' else 1) * k for s, k in wings)
    d = [env.real('shift_' + c, -5, 5) for c in 'xyz']
    cut_grid(env, shifted(env, d, geometry=whole))
    cg = [env.real('cg' + c, -2, 2) for c in 'xyz']
    a = build(env, wings, cg, [0, 0, 0])
    b = build(env, wings, add(cg, d), d if whole else [0, 0, 0])
    ma, mb = env.m.llmodel.LLModel(a), env.m.llmodel.LLModel(b)
    st = state(env, n, local)
    if rates:
        for k in ('roll_rate', 'pitch_rate', 'yaw_rate'):
            st[k] = env.real(k, -2, 2)
    ct = {c: env.real(c, -25, 25) for c in control}
    env.hint_root(st['V_mag'], 1)
    r1 = ma.solve('linear', aero_state=st, control_state=ct)
    d1 = dict(ma._distributions())
    r2 = mb.solve('linear', aero_state=st, control_state=ct)
    d2 = mb._distributions()
    for p in ('inviscid', 'viscous', 'total'):
        for k in F:
            env.eq('%s %s' % (p, k), r2[p][k], r1[p][k], scale=1)
        m = [r1[p][k] for k in M]
        if not whole:
            m = sub(m, cross(d, [r1[p][k] for k in ('FX', 'FY', 'FZ')]))
        env.eq('%s moments' % p, [r2[p][k] for k in M], m, scale=1)
    for i in range(n):
        for k in ('alpha', 'section_CL', 'section_Cm', 'section_CD_parasitic'):
            env.eq('%s %d' % (k, i), d2[k][i], d1[k][i], scale=1)
        env.eq('section force %d' % i, [d2['forces_xyz'][i][c] for c in range(3)], [d1['forces_xyz'][i][c] for c in range(3)], scale=1)


def grid(env, wings):
    d = [env.real('shift_' + c, -5, 5) for c in 'xyz']
    cg = [env.real('cg' + c, -2, 2) for c in 'xyz']
    g = [env.m.llgrid.LLGrid(x) for x in (build(env, wings, cg, [0, 0, 0]), build(env, wings, add(cg, d), d))]
    pos = lambda q: [q.get_control_point_pos(), q.get_corner_point_pos()[0], q.get_corner_point_pos()[1]]
    for what, x, y in zip(('control points', 'left corners', 'right corners'), pos(g[0]), pos(g[1])):
        for c in range(3):
            env.eq('%s %s' % (what, 'xyz'[c]), list(y[:, c]), [v + d[c] for v in x[:, c]], scale=1)
    env.eq('cg', list(g[1].get_cg_location()), [x + y for x, y in zip(g[0].get_cg_location(), d)], scale=1)
    for name in ('chord_length', 'section_areas', 'integral_chord2', 'unit_axial_vectors', 'unit_normal_vectors', 'unit_spanwise_vectors', 'flap_effectiveness', 'lift_slopes', 'zero_lift_alpha', 'cp_spacing'):
        x, y = [getattr(q, 'get_' + name)() for q in g]
        env.eq(name, list(y.flat), list(x.flat), scale=1)
    env.eq('reference area', g[1].get_reference_area(), g[0].get_reference_area(), scale=1)


def propellers(env, whole, count=1, point=False):
    """propellers only: the whole airplane or only the cg moved"""
    blade_env(env)
    env.hint_root(1)
    d = [env.real('shift_' + c, -5, 5) for c in 'xyz']
    cg = [env.real('cg' + c, -2, 2) for c in 'xyz']
    st = dict(V_mag=env.real('V', 0.5, 500), rho=env.real('rho', 0.001, 1.3), alpha=env.real('alpha', -75, 75), beta=env.real('beta', -75, 75))
    ps = {'J': env.real('J', 0.2, 1.2)}
    for k in range(count):
        wind(env, st, axis(env, [env.real('p%d_%s' % (k, a), -85, 85) for a in ('elevation', 'heading')]))
    res = []
    for shift, move in (([0, 0, 0], [0, 0, 0]), (d, d if whole else [0, 0, 0])):
        ap = make_airplane(env, add(cg, shift))
        for k in range(count):
            ap.add_prop('p%d' % k, position=add([env.real('p%d_%s' % (k, c), -2, 2) for c in 'xyz'], move), orientation=[env.real('p%d_%s' % (k, a), -85, 85) for a in ('elevation', 'heading')],
                        nodes=2, diameter=env.real('d%d' % k, 1, 3), hub_diameter=0.2, num_of_blades=2, rot_dir=('CCW', 'CW')[k])
        at = add([env.real('w_' + c, a, b) for c, a, b in (('x', -3, 1), ('y', -2, 2), ('z', -2, 2))], move)
        pts = env.array([at]) if point else None
        res.append(env.m.propssolver.PropsSolver(ap, pts).solve(st, ps))
    (a, va), (b, vb) = res
    a, b = a['total'], b['total']
    for k in F + ('Thrust', 'Torque'):
        env.eq('propeller total %s' % k, b[k], a[k], scale=1)
    m = [a[k] for k in M]
    if not whole:
        m = sub(m, cross(d, [a[k] for k in ('FX', 'FY', 'FZ')]))
    env.eq('propeller moments', [b[k] for k in M], m, scale=1)
    if point:
        env.eq('onset flow', list(vb.flat), list(va.flat), scale=1)


HARNESSES = [H('moved cg, propeller', lambda e: propellers(e, False), bounds='1 propeller, 2 stations'), H('moved cg, two propellers', lambda e: propellers(e, False, 2), bounds='2 propellers, 2 stations'),
             H('moved airplane, propeller and point', lambda e: propellers(e, True, 1, True), bounds='1 propeller, 2 stations, 1 point of the wing', budget=300),
             H('moved airplane, two propellers', lambda e: propellers(e, True, 2), bounds='2 propellers, 2 stations'),
             H('moved airplane, one wing', lambda e: pair(e, [('both', 1)], True, rates=True), bounds='2 horseshoes'),
             H('moved airplane, local velocities', lambda e: pair(e, [('both', 1)], True, rates=True, local=True), bounds='2 horseshoes'),
             H('moved airplane, two wings', lambda e: pair(e, [('both', 1), ('right', 1)], True, rates=True), bounds='3 horseshoes'),
             H('moved cg, one wing', lambda e: pair(e, [('both', 1)], False), bounds='2 horseshoes'),
             H('moved cg, local velocities', lambda e: pair(e, [('both', 1)], False, local=True), bounds='2 horseshoes'),
             H('moved cg, two wings, no controls', lambda e: pair(e, [('both', 1), ('right', 1)], False, control=()), bounds='3 horseshoes'),
             H('moved description', lambda e: grid(e, [('both', 2), ('right', 1)]), bounds='5 sections'),
             H('moved cg, four sections', lambda e: pair(e, [('both', 2)], False), bounds='4 horseshoes', thorough_only=True)]
