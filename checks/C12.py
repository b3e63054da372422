from .lib import *

COVERAGE = 'The same airplane at another scale, speed and density (all three factors symbolic, rotation rates scaled by speed over length): forces, moments and every section value scale as similarity demands.  For every grid of the stated size (the second model sees the first one\'s arbitrary grid, lengths multiplied); reference area and lengths through the real grid.'
F, M = ('FL', 'FD', 'FS', 'FX', 'FY', 'FZ'), ('MX', 'MY', 'MZ')


def pair(env, wings, local=False, control=CH, rates=True, cut=True, fixed=False):
    n = sum((2 if s == 'both' else 1) * k for s, k in wings)
    lam, nu, mu = env.real('length_factor', 0.001, 1000), env.real('speed_factor', 0.001, 1000), env.real('density_factor', 0.001, 1000)
    env.hint_factor(lam, nu, mu)
    if cut:
        cut_grid(env, scaled(lam))
    cg = [env.real('cg' + c, -2, 2) for c in 'xyz']
    a = build(env, wings, cg, 1, fixed)
    b = build(env, wings, cg, lam, fixed)
    ma, mb = env.m.llmodel.LLModel(a), env.m.llmodel.LLModel(b)
    st = state(env, n, local)
    if rates:
        for k in ('roll_rate', 'pitch_rate', 'yaw_rate'):
            st[k] = env.real(k, -2, 2)
    ct = {c: env.real(c, -25, 25) for c in control}
    s2 = dict(st, V_mag=st['V_mag'] * nu, rho=st['rho'] * mu)
    for k in ('roll_rate', 'pitch_rate', 'yaw_rate'):
        if k in s2:
            s2[k] = s2[k] * nu / lam
    if local:
        s2['local_state'] = st['local_state'] * env.array([mu, nu, nu, nu])
    env.hint_root(st['V_mag'], st['V_mag'] * nu, 1)
    env.hint_solve_scale(nu * lam, nu * nu * lam * lam)
    r1 = ma.solve('linear', aero_state=st, control_state=ct)
    d1 = dict(ma._distributions())
    r2 = mb.solve('linear', aero_state=s2, control_state=ct)
    d2 = mb._distributions()
    q = mu * nu * nu * lam * lam
    for p in ('inviscid', 'viscous', 'total'):
        for k in F:
            env.eq('%s %s' % (p, k), r2[p][k], r1[p][k] * q, scale=1)
        for k in M:
            env.eq('%s %s' % (p, k), r2[p][k], r1[p][k] * q * lam, scale=1)
    for i in range(n):
        for k in ('alpha', 'section_CL', 'section_Cm', 'section_CD_parasitic'):
            env.eq('%s %d' % (k, i), d2[k][i], d1[k][i], scale=1)
        env.eq('section force %d' % i, [d2['forces_xyz'][i][c] for c in range(3)], [d1['forces_xyz'][i][c] * q for c in range(3)], scale=1)


def build(env, wings, cg, lam, fixed=False):
    ap = make_airplane(env, [c * lam for c in cg])
    for k, (side, n) in enumerate(wings):
        p = 'w%d' % k
        d = wing_dims(env, p, grid=n, position=[-2 * k, 0, -0.5 * k], yoffset=0.1, **(dict(sweep=0, dihedral=3, mount_angle=0, washout=0) if fixed else dict(sweep=20, dihedral=7, mount_angle=2, washout=3)))
        d['position'] = [x * lam for x in d['position']]
        for x in ('yoffset', 'semispan', 'root_chord', 'tip_chord'):
            d[x] = d[x] * lam
        w = ap.add_wing(p, side=side, **d)
        w.airfoil('af' + p, **airfoil(env, p))
        w.control_surface(percent_span=(0, 1), percent_chord=env.real(p + '_cf', 0.1, 0.6), mix={c: env.real('%s_mix_%s' % (p, c), -1, 1) for c in CH})
    return ap


def grid(env, wings):
    """what the lifting line is given scales with the description (so the harnesses on arbitrary grids speak about airplanes)"""
    lam = env.real('length_factor', 0.001, 1000)
    env.hint_factor(lam)
    cg = [env.real('cg' + c, -2, 2) for c in 'xyz']
    g = [env.m.llgrid.LLGrid(build(env, wings, cg, k)) for k in (1, lam)]
    for name, p in (('control_point_pos', 1), ('chord_length', 1), ('cg_location', 1), ('section_areas', 2), ('integral_chord2', 3), ('unit_axial_vectors', 0), ('unit_normal_vectors', 0),
                    ('unit_spanwise_vectors', 0), ('flap_effectiveness', 0), ('lift_slopes', 0), ('zero_lift_alpha', 0), ('cp_spacing', 0)):
        x, y = [getattr(q, 'get_' + name)() for q in g]
        env.eq(name, list(y.flat), [v * lam ** p for v in x.flat], scale=1)
    for i in (0, 1):
        x, y = [q.get_corner_point_pos()[i] for q in g]
        env.eq('corner points %d' % i, list(y.flat), [v * lam for v in x.flat], scale=1)


HARNESSES = [H('half wing', lambda e: pair(e, [('right', 1)]), bounds='1 horseshoe'),
             H('one wing', lambda e: pair(e, [('both', 1)]), bounds='2 horseshoes'),
             H('local velocities', lambda e: pair(e, [('both', 1)], local=True), bounds='2 horseshoes'),
             H('without a control state', lambda e: pair(e, [('both', 1)], control=()), bounds='2 horseshoes'),
             H('wing and half wing', lambda e: pair(e, [('both', 1), ('right', 1)]), bounds='3 horseshoes'),
             H('geometry of two wings', lambda e: grid(e, [('both', 2), ('right', 1)]), bounds='5 sections'),
             H('four sections', lambda e: pair(e, [('both', 2)]), bounds='4 horseshoes', thorough_only=True)]
