from .stllib import *

COVERAGE = 'STL export of wings with any position, span, sweep, dihedral, mounting angle, washout and chords; left, right and both sides; 2-3 sections; several wings; wings with propellers (wing part): the mesh has one section per control point, whose quarter chord is at the control point, scaled by the local chord, turned nose up by the local twist in the plane tilted by the local dihedral, outlines blended from root to tip; the segments in order, the sections of each joined in order from left to right, every strip of two neighbouring outlines filled by triangles that share edges, all triangles in use.  Outside: the half sections between the outermost control points and the root and tip (not meshed).'

NAMES = {'r': 'NACA2412', 't': 'NACA0008'}
DIGITS = {'r': (2, 4, 1, 2), 't': (0, 0, 0, 8)}


def solved(env):
    if env.symbolic:
        # the loads do not matter here
        env.m.llmodel.LLModel.solve = lambda *a, **k: {'total': {}}
        env.m.propssolver.PropsSolver.solve = lambda *a, **k: ({'total': {}}, None)


def turn(env, a):
    """sine and cosine"""
    s, c = env.sin(a / 2), env.cos(a / 2)
    return 2 * s * c, c * c - s * s


def segment(env, d, side, parent=(0, 0, 0), names='rt'):
    """outlines of one side in body axes, left to right"""
    left = side == 'left'
    root, tip = root_tip(env, d, side, parent)
    n = d['grid']
    a, b = [outline(env, [env.rat(x) for x in DIGITS[k]] if env.symbolic else DIGITS[k], 50) for k in names]
    out = []
    g = env.rad(d['dihedral']) * (1 if left else -1)
    sing, cosg = turn(env, g)
    for t in spacing(env, n, True)[1]:
        s = 1 - t if left else t
        p = [lerp(x, y, s) for x, y in zip(root, tip)]
        c = lerp(d['root_chord'], d['tip_chord'], s)
        w = env.rad(d['mount_angle'] - d['washout'] * s)
        sinw, cosw = turn(env, w)
        pts = []
        for u, v in mix(a, b, s):
            x, z = (env.rat(1, 4) - u) * c, -v * c
            # nose up by the twist, then tilted about the axial direction
            x, z = x * cosw + z * sinw, -x * sinw + z * cosw
            pts.append([p[0] + x, p[1] - z * sing, p[2] + z * cosg])
        out.append(pts)
    return out


def compare(env, tri, segments, props=0):
    per = 2 * 49
    env.eq('number of triangles', len(tri), per * sum(len(s) - 1 for s in segments) + props)
    i = 0
    for k, s in enumerate(segments):
        for j in range(len(s) - 1):
            strip(env, 'segment %d strip %d' % (k, j), tri[i:i + per], s[j], s[j + 1])
            i += per


def add_wing(env, ap, p, side, names='rt', **fix):
    d = wing_dims(env, p, **fix)
    w = ap.add_wing(p, side=side, **d)
    w.airfoil(NAMES[names[0]], end='root', **CONST_AF)
    w.airfoil(NAMES[names[1]], end='tip', **CONST_AF)
    return d, w


def sides(side):
    return ('left', 'right') if side == 'both' else (side,)


FLAT = dict(sweep=10, yoffset=0.25, position=[0.5, 0.25, -0.5], semispan=4)


def single(env, side, grid=2, names='rt', **fix):
    ap = make_airplane(env, [0, 0, 0])
    d, w = add_wing(env, ap, 'w', side, names, grid=grid, is_main=True, **fix)
    solved(env)
    env.m.MU.MachUp(inputAirplane=ap).create_stl(filename=env.path('o.stl'))
    compare(env, env.stl_triangles('o.stl'), [segment(env, d, s, names=names) for s in sides(side)])


def several(env, props=0):
    ap = make_airplane(env, [0, 0, 0])
    segs = []
    for k, (p, side, grid, names) in enumerate((('a', 'right', 1, 'rt'), ('b', 'both', 2, 'tr'), ('c', 'left', 3, 'rr'))):
        d, w = add_wing(env, ap, p, side, names, grid=grid, is_main=k == 1, sweep=0, mount_angle=0, washout=0, dihedral=0)
        segs += [segment(env, d, s, names=names) for s in sides(side)]
    for k in range(props):
        p = ap.add_prop('p%d' % k, position=[-20, k, 0], orientation=[0, 0], nodes=2, diameter=2, hub_diameter=env.rat(1, 2), num_of_blades=k + 1)
        p.airfoil('NACA2412', alpha_L0=0, CL_alpha=6, CL_max=env.rat(7, 5), Cm_L0=0, Cm_alpha=0, CD0=env.rat(1, 100), CD0_L=0, CD0_L2=env.rat(1, 100))
    solved(env)
    env.m.MU.MachUp(inputAirplane=ap).create_stl(filename=env.path('o.stl'))
    compare(env, env.stl_triangles('o.stl'), segs, 98 * props * (props + 1) // 2)


def attached(env):
    ap = make_airplane(env, [0, 0, 0])
    d1, w1 = add_wing(env, ap, 'a', 'both', 'rt', grid=2, is_main=True, sweep=0, mount_angle=0, washout=0, yoffset=0, root_chord=1, tip_chord=1)
    d2, w2 = add_wing(env, ap, 'b', 'both', 'tr', grid=2, is_main=False, sweep=0, mount_angle=0, washout=0, yoffset=0, root_chord=1, tip_chord=1)
    w2.connect_to(w1, 'tip')
    solved(env)
    env.m.MU.MachUp(inputAirplane=ap).create_stl(filename=env.path('o.stl'))
    segs = [segment(env, d1, s, names='rt') for s in ('left', 'right')]
    segs += [segment(env, d2, s, root_tip(env, d1, s, (0, 0, 0))[1], 'tr') for s in ('left', 'right')]
    compare(env, env.stl_triangles('o.stl'), segs)


HARNESSES = [H('%s side' % s, lambda e, s=s: single(e, s), bounds='2 sections a side') for s in ('right', 'left', 'both')]
HARNESSES += [H('one section', lambda e: single(e, 'both', 1), bounds='1 section a side: nothing to join'),
              H('three sections', lambda e: single(e, 'both', 3, 'tr', mount_angle=0, washout=0), bounds='3 sections a side, no twist'),
              H('several wings', several, bounds='three wings of 1-3 sections'),
              H('wings and propellers', lambda e: several(e, 2), bounds='three wings of 1-3 sections, two propellers'),
              H('attached wing', attached, bounds='two wings of 2 sections')]
