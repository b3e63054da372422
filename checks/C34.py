from .stllib import *
from .proplib import prop

COVERAGE = 'STL export of propellers of any position, orientation, diameter, hub, chord and pitch, one to seven blades of 2-3 stations (five to seven with outlines without thickness), both rotation directions, one to three airfoils along the blade, of any name; several propellers, propellers beside a wing: every blade has one section per station at its radius, scaled by the local chord, quarter chord on the blade axis, its chord line pitched from the plane of rotation by the geometric (not the zero-lift) pitch, leading edge in the sense of rotation and upper surface ahead, outlines interpolated along the blade, blades at equal angles, all turned to the elevation and heading of the propeller and moved to its position; strips of triangles without gaps.'

AIR = dict(CL_alpha=6, Cm_L0=0, Cm_alpha=0, CD0_L=0)


def foil(env, k, p='p', alpha_L0=None):
    d = dict(AIR, CL_max=env.rat(7, 5), CD0=env.rat(1, 100), CD0_L2=env.rat(1, 100))
    d['alpha_L0'] = alpha_L0 if alpha_L0 is not None else env.real('%s_alpha_L0_%d' % (p, k), -0.1, 0.05)
    return d


def turn(env, a):
    """cosine and sine"""
    s, c = env.sin(a / 2), env.cos(a / 2)
    return c * c - s * s, 2 * s * c


def about(axis, v, c, s):
    i, j = {'x': (1, 2), 'y': (2, 0), 'z': (0, 1)}[axis]
    w = list(v)
    w[i], w[j] = c * v[i] - s * v[j], s * v[i] + c * v[j]
    return w


def dims(env, p='p', **fix):
    d = prop(env, p, **fix)
    for k in ('pitch_info', 'chord_info'):
        if k in fix:
            d[k] = fix[k]
    return d


def blades(env, pm, d, outlines, hand):
    """meshes of the blades of one propeller, as lists of outlines"""
    c, r, P = pm.get_chord(), pm.get_radial_position(), [b + a for b, a in zip(pm.get_aero_pitch_angle(), pm.get_zero_lift_alpha())]
    cp, sp = turn(env, env.rad(d['orientation'][0]))
    ch, sh = turn(env, env.rad(d['orientation'][1]))
    sections = []
    for i in range(len(c)):
        cs, sn = turn(env, P[i])
        # top blade, seen with the axis ahead: leading edge towards the rotation, turned ahead by the pitch
        sections.append([about('z', [v * c[i], hand * (env.rat(1, 4) - u) * c[i], -r[i]], cs, -hand * sn) for u, v in outlines[i]])
    out = []
    for k in range(d['num_of_blades']):
        if k:
            b = turn(env, 2 * env.pi / d['num_of_blades'])
            sections = [[about('x', q, *b) for q in s] for s in sections]
        out.append([[add(d['position'], about('z', about('y', q, cp, sp), ch, sh)) for q in s] for s in sections])
    return out


def export(env, ap):
    mu = env.m.MU.MachUp(inputAirplane=ap)
    if env.symbolic:
        env.m.llmodel.LLModel.solve = lambda *a, **k: {'total': {}}
        env.m.propssolver.PropsSolver.solve = lambda *a, **k: ({'total': {}}, None)
    mu.create_stl(filename=env.path('o.stl'))
    return mu, env.stl_triangles('o.stl')


def compare(env, tri, meshes, i=0, step=1):
    """meshes: (label, hand, list of outlines)"""
    per = 98
    env.eq('number of triangles', len(tri), i + per * sum(len(m) - 1 for l, h, m in meshes))
    for label, hand, m in meshes:
        for j in range(len(m) - 1):
            strip(env, '%s strip %d' % (label, j), tri[i:i + per], m[j], m[j + 1], flip=hand < 0, step=step)
            i += per


NAMES = [('NACA2412', (2, 4, 1, 2)), ('naca0008', (0, 0, 0, 8)), ('clark', (2, 4, 1, 2)), ('naca4415', (4, 4, 1, 5)), ('NACA44x5', (2, 4, 1, 2)), ('NACA23012', (2, 4, 1, 2))]
HAND = {'CCW': 1, 'CW': -1, 1: 1, -1: -1}


def lines(env, k):
    d = NAMES[k][1]
    return outline(env, [env.rat(x) for x in d] if env.symbolic else d, 50)


def one(env, hand='CCW', n=2, nblades=1, pitch=None, chord=None, step=1, **fix):
    ap = make_airplane(env, [0, 0, 0])
    d = dims(env, nodes=n, num_of_blades=nblades, rot_dir=hand, hub_diameter=env.rat(1, 4),
             pitch_info=pitch(env) if pitch else dict(type='ratio', value=env.real('pitch', 0.3, 1.2)),
             chord_info=chord(env) if chord else dict(type='linear', root=env.real('root', 0.1, 0.5), tip=env.real('tip', 0.05, 0.4)), **fix)
    p = ap.add_prop('p', **d)
    p.airfoil(NAMES[0][0], **foil(env, 0))
    mu, tri = export(env, ap)
    pm, = mu.myprops.get_prop_models()
    env.eq('stations', len(pm.get_chord()), n)
    compare(env, tri, [('blade %d' % k, HAND[hand], m) for k, m in enumerate(blades(env, pm, d, [lines(env, 0)] * n, HAND[hand]))])


def along(env, where, n=3, use=(0, 1, 2)):
    """airfoils along the blade"""
    ap = make_airplane(env, [0, 0, 0])
    d = dims(env, nodes=n, num_of_blades=1, hub_diameter=env.rat(1, 4), diameter=2, position=[0, 0, 0], orientation=[0, 0],
             pitch_info=dict(type='ratio', value=env.real('pitch', 0.3, 1.2)), chord_info=dict(type='linear', root=env.real('root', 0.1, 0.5), tip=env.real('tip', 0.05, 0.4)))
    p = ap.add_prop('p', **d)
    z0, z1 = env.rat(1, 8), env.rat(999, 1000)
    at = []
    for k, w in enumerate(where):
        loc = {'root': z0, 'tip': z1}.get(w)
        if loc is None:
            loc = env.real('place_%d' % k, *w)
        at.append(loc)
        p.airfoil(NAMES[use[k]][0], **dict(foil(env, k), span_position=w if isinstance(w, str) else loc))
    mu, tri = export(env, ap)
    pm, = mu.myprops.get_prop_models()
    o = [lines(env, use[k]) for k in range(len(where))]
    order = sorted(range(len(where)), key=lambda k: {'root': 0, 'tip': 1}.get(where[k], where[k][0] if not isinstance(where[k], str) else 0))
    outs = []
    for i in range(n):
        z = z0 + (z1 - z0) * env.rat(i, n - 1)
        # last pair of neighbours whose inner one is inside z; constant beyond the ends
        cur = o[order[0]]
        for a, b in zip(order, order[1:]):
            t = (z - at[a]) / (at[b] - at[a])
            t = env.ite(t < 0, env.rat(0), env.ite(t > 1, env.rat(1), t))
            new = mix(o[a], o[b], t)
            beyond = z > at[a]
            cur = [(env.ite(beyond, x1, x0), env.ite(beyond, y1, y0)) for (x0, y0), (x1, y1) in zip(cur, new)]
        outs.append(cur)
    compare(env, tri, [('blade', 1, m) for m in blades(env, pm, d, outs, 1)])


def several(env, wing=False):
    ap = make_airplane(env, [0, 0, 0])
    i = 0
    if wing:
        d = wing_dims(env, 'w', position=[0, 0, 0], yoffset=0, sweep=0, dihedral=0, mount_angle=0, washout=0, grid=3, is_main=True, semispan=4, root_chord=1, tip_chord=1)
        ap.add_wing('w', side='both', **d).airfoil('NACA2412', end='both', **CONST_AF)
        i = 4 * 98
    ds = []
    for k, (n, b, hand) in enumerate(((2, 2, 'CW'), (3, 1, 'CCW'), (2, 1, 'CW'))):
        d = dims(env, 'p%d' % k, nodes=n, num_of_blades=b, rot_dir=hand, hub_diameter=env.rat(1, 4), diameter=2, orientation=[0, 0],
                 position=[-20, env.real('y%d' % k, -2, 2), env.real('z%d' % k, -1, 1)],
                 pitch_info=dict(type='ratio', value=env.rat(1, 2)), chord_info=dict(type='linear', root=env.real('root%d' % k, 0.1, 0.5)))
        ap.add_prop('p%d' % k, **d).airfoil(NAMES[k][0], **foil(env, k, alpha_L0=0))
        ds.append((d, hand))
    mu, tri = export(env, ap)
    meshes = []
    for k, ((d, hand), pm) in enumerate(zip(ds, mu.myprops.get_prop_models())):
        meshes += [('propeller %d blade %d' % (k, j), HAND[hand], m) for j, m in enumerate(blades(env, pm, d, [lines(env, k)] * d['nodes'], HAND[hand]))]
    compare(env, tri, meshes, i)


def many(env, count, hand):
    """many blades without thickness, by some of the triangles of each"""
    ap = make_airplane(env, [0, 0, 0])
    d = dims(env, nodes=2, num_of_blades=count, rot_dir=hand, hub_diameter=env.rat(1, 4), diameter=2, position=[0, 0, 0], orientation=[0, 0],
             pitch_info=dict(type='ratio', value=env.real('pitch', 0.3, 1.2)), chord_info=dict(type='linear', root=env.real('root', 0.1, 0.5), tip=env.real('tip', 0.05, 0.4)))
    ap.add_prop('p', **d).airfoil('NACA0000', **foil(env, 0))
    flat = outline(env, [env.rat(0)] * 4 if env.symbolic else [0] * 4, 50)
    mu, tri = export(env, ap)
    pm, = mu.myprops.get_prop_models()
    compare(env, tri, [('blade %d' % k, HAND[hand], m) for k, m in enumerate(blades(env, pm, d, [flat] * 2, HAND[hand]))], step=24)


AT0 = dict(position=[0, 0, 0])
AX = dict(orientation=[0, 0])
HARNESSES = [H('one blade, ' + h, lambda e, h=h: one(e, h), bounds='1 blade, 2 stations') for h in ('CCW', 'CW')]
HARNESSES += [H('%d blades, %s' % (b, h), lambda e, b=b, h=h: one(e, h, 2, b, **AX), bounds='%d blades, 2 stations, axis along x' % b) for b, h in ((2, 'CW'), (3, 'CCW'), (4, 'CW'))]
HARNESSES += [H('%d blades' % b, lambda e, b=b, h=h: many(e, b, h), bounds='%d blades without thickness, 2 stations, axis along x' % b) for b, h in ((5, 'CCW'), (6, 'CW'), (7, 'CCW'))]
HARNESSES += [H('two blades, oriented', lambda e: one(e, 'CCW', 2, 2, diameter=2, **AT0), bounds='2 blades, 2 stations'),
              H('three stations', lambda e: one(e, 'CW', 3, 1, **AX), bounds='1 blade, 3 stations')]
HARNESSES += [H('airfoils ' + n, lambda e, w=w: along(e, w), bounds='1 blade, 3 stations') for n, w in
              (('root, tip', ('root', 'tip')), ('tip, root', ('tip', 'root')), ('inside', ((0.2, 0.4), (0.6, 0.9))), ('three', ('root', 'tip', (0.3, 0.8))))]
HARNESSES += [H('airfoils %s' % n, lambda e, w=w, u=u: along(e, w, 2, u), bounds='1 blade, 2 stations') for n, w, u in
              (('without a number at the tip', ('root', 'tip'), (1, 2)), ('without a number at the root', ('tip', 'root'), (1, 2)), ('with other names', ('root', 'tip'), (3, 4)), ('with five digits', ('tip', 'root'), (1, 5)))]
HARNESSES += [H('several propellers', several, bounds='three propellers of 1-2 blades, 2-3 stations'), H('propellers and wing', lambda e: several(e, True), bounds='a wing, three propellers')]
