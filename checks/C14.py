from .lib import *

COVERAGE = 'The same two or three wings added in every other order: same totals (inviscid, viscous, total), same reference area and lengths, and the same section values under the same names, in the other order.  Rotation rates, controls, local velocities included.  For every grid of the stated size; that the grid only changes order is shown on the real grid code.'
KEYS = ('FL', 'FD', 'FS', 'FX', 'FY', 'FZ', 'MX', 'MY', 'MZ')


def blocks(wings, order):
    """section numbers (of the airplane built in the given order) -> section numbers of the one built in the natural order"""
    start, i = {}, 0
    for k, (side, n) in enumerate(wings):
        m = (2 if side == 'both' else 1) * n
        start[k] = list(range(i, i + m))
        i += m
    return [j for k in order for j in start[k]]


def pair(env, wings, order, local=False, control=CH, rates=True):
    perm = blocks(wings, order)
    n = len(perm)
    cut_grid(env, permuted(perm), skip=('get_reference_area',))
    cg = [env.real('cg' + c, -2, 2) for c in 'xyz']
    a = plane(env, wings, cg=cg, control=True)
    b = plane(env, wings, cg=cg, control=True, order=order)
    ma, mb = env.m.llmodel.LLModel(a), env.m.llmodel.LLModel(b)
    st = state(env, n, local)
    if rates:
        for k in ('roll_rate', 'pitch_rate', 'yaw_rate'):
            st[k] = env.real(k, -2, 2)
    ct = {c: env.real(c, -25, 25) for c in control}
    env.hint_root(st['V_mag'], 1)
    env.hint_perm(perm)
    r1 = ma.solve('linear', aero_state=st, control_state=ct)
    d1 = dict(ma._distributions())
    s2 = dict(st)
    if local:
        s2['local_state'] = st['local_state'][perm]
    r2 = mb.solve('linear', aero_state=s2, control_state=ct)
    d2 = mb._distributions()
    for p in ('inviscid', 'viscous', 'total'):
        for k in KEYS:
            env.eq('%s %s' % (p, k), r2[p][k], r1[p][k], scale=1)
    for i in range(n):
        env.check('name of section %d' % i, str(d2['name'][i]) == str(d1['name'][perm[i]]))
        for k in ('alpha', 'section_CL', 'section_Cm', 'section_CD_parasitic', 'area', 'chord', 'twist', 'dihedral', 'sweep', 'section_alpha_L0'):
            env.eq('%s %d' % (k, i), d2[k][i], d1[k][perm[i]], scale=1)
        for k in ('forces_xyz', 'control_points'):
            env.eq('%s %d' % (k, i), [d2[k][i][c] for c in range(3)], [d1[k][perm[i]][c] for c in range(3)], scale=1)


def grid(env, wings, order):
    perm = blocks(wings, order)
    cg = [env.real('cg' + c, -2, 2) for c in 'xyz']
    g = [env.m.llgrid.LLGrid(plane(env, wings, cg=cg, control=True, order=o)) for o in (None, order)]
    for name in ('control_point_pos', 'corner_point_pos', 'chord_length', 'section_areas', 'integral_chord2', 'unit_axial_vectors', 'unit_normal_vectors', 'unit_spanwise_vectors', 'flap_effectiveness',
                 'lift_slopes', 'zero_lift_alpha', 'cp_spacing', 'left_lift_slopes', 'right_lift_slopes', 'left_zero_lift_alpha', 'right_zero_lift_alpha', 'control_mix', 'moment_slopes', 'left_drag_coeff', 'CL_max'):
        f = [getattr(q, 'get_' + name, None) for q in g]
        if f[0] is None:
            continue
        x, y = f[0](), f[1]()
        for k, (u, v) in enumerate(zip(x, y) if isinstance(x, tuple) else [(x, y)]):
            env.eq('%s %d' % (name, k), list(v.flat), list(u[perm].flat), scale=1)
    env.eq('cg', list(g[1].get_cg_location()), list(g[0].get_cg_location()), scale=1)


def reference(env, wings, order, mains=None, given=()):
    """reference area and lengths of the airplane"""
    mus = []
    for o in (range(len(wings)), order):
        ap = make_airplane(env)
        for k in o:
            side, n = wings[k]
            d = wing_dims(env, 'w%d' % k, grid=n, position=[-2 * k, 0, 0], yoffset=0.1, sweep=0, dihedral=0, mount_angle=0, washout=0)
            if mains:
                d['is_main'] = mains[k]
            ap.add_wing('w%d' % k, side=side, **d).airfoil('af%d' % k, **CONST_AF)
        mus.append(env.m.MU.MachUp(inputAirplane=ap))
    for k in ('Sw', 'lat_ref', 'long_ref'):
        env.eq(k, getattr(mus[1], k), getattr(mus[0], k), scale=1)


W2, W3 = [('both', 1), ('right', 1)], [('both', 1), ('right', 1), ('left', 1)]
HARNESSES = [H('two half wings', lambda e: pair(e, [('right', 1), ('left', 1)], [1, 0]), bounds='2 horseshoes'),
             H('wing and half wing', lambda e: pair(e, W2, [1, 0]), bounds='3 horseshoes'),
             H('wing and half wing, local velocities', lambda e: pair(e, W2, [1, 0], local=True), bounds='3 horseshoes'),
             H('three wings rotated', lambda e: pair(e, W3, [2, 0, 1]), bounds='4 horseshoes'),
             H('three half wings', lambda e: pair(e, [('left', 1), ('right', 1), ('left', 1)], [1, 2, 0], rates=False), bounds='3 horseshoes'),
             H('grid of three wings', lambda e: grid(e, [('both', 1), ('right', 2), ('left', 1)], [2, 0, 1]), bounds='5 sections'),
             H('grid of three wings reversed', lambda e: grid(e, [('both', 1), ('right', 2), ('left', 1)], [2, 1, 0]), bounds='5 sections'),
             H('reference', lambda e: reference(e, [('both', 1), ('both', 1)], [1, 0]), bounds='2 wings'),
             H('reference of main wings', lambda e: reference(e, [('both', 1), ('both', 1), ('both', 1)], [2, 0, 1], mains=[True, False, True]), bounds='3 wings'),
             H('reference with half wings', lambda e: reference(e, [('both', 1), ('left', 1), ('right', 1)], [1, 2, 0]), bounds='3 wings'),
             H('reference with left half wings', lambda e: reference(e, [('left', 1), ('left', 1)], [1, 0]), bounds='2 wings'),
             H('three wings reversed', lambda e: pair(e, W3, [2, 1, 0]), bounds='4 horseshoes', thorough_only=True)]
