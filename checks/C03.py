from .lib import *

COVERAGE = 'Local axes of the sections of left, right and two-sided wings (1..3 sections per side), all dimensions symbolic: unit length, orthogonality, direction from mounting angle, linear washout and dihedral, mirror image across the plane of symmetry, incidence of the section to the flow.'


def axes(env, n, side, cosine=True):
    ap = make_airplane(env)
    d = wing_dims(env, 'w', grid=n)
    ap.add_wing('w', side=side, **d)
    g = env.m.llgrid.LLGrid(ap, cosine_spacing=cosine)
    ua, un, us = g.get_unit_axial_vectors(), g.get_unit_normal_vectors(), g.get_unit_spanwise_vectors()
    cp = spacing(env, n, cosine)[1]
    G = env.rad(d['dihedral'])
    i = 0
    for sd in (('left', 'right') if side == 'both' else (side,)):
        s = -1 if sd == 'left' else 1
        for j in range(n):
            w = lerp(d['washout'], 0, cp[j]) if sd == 'left' else lerp(0, d['washout'], cp[j])
            t = env.rad(d['mount_angle'] - w)
            st, ct, sG, cG = env.sin(t), env.cos(t), env.sin(G), env.cos(G)
            lab = '%s[%d]' % (sd, j)
            A, N, S = [[v[i][k] for k in range(3)] for v in (ua, un, us)]
            # a section pitched up by the twist: its axial vector points aft and down, its normal points up and aft
            env.eq('axial ' + lab, A, [-ct, s * sG * st, cG * st])
            env.eq('normal ' + lab, N, [-st, -s * sG * ct, -cG * ct])
            env.eq('spanwise is axial x normal ' + lab, S, cross(A, N))
            for nm, v in (('axial', A), ('normal', N), ('spanwise', S)):
                env.eq('unit length %s %s' % (nm, lab), dot(v, v), 1)
            env.eq('orthogonal ' + lab, [dot(A, N), dot(A, S), dot(N, S)], [0, 0, 0])
            env.eq('spanwise does not depend on twist ' + lab, S, [0, -cG, s * sG])
            i += 1
    if side == 'both':
        for j in range(n):
            l, r = j, 2 * n - 1 - j
            for nm, v in (('axial', ua), ('normal', un)):
                env.eq('mirror %s %d' % (nm, j), [v[l][0], v[l][1], v[l][2]], [v[r][0], -v[r][1], v[r][2]])
            env.eq('mirror spanwise %d' % j, [us[l][0], us[l][1], us[l][2]], [-us[r][0], us[r][1], -us[r][2]])


def two_wings(env):
    """each wing keeps its own axes"""
    ap = make_airplane(env)
    ds = [wing_dims(env, 'w%d' % k, grid=k + 1) for k in range(2)]
    for k in range(2):
        ap.add_wing('w%d' % k, side='both', **ds[k])
    g = env.m.llgrid.LLGrid(ap)
    un = g.get_unit_normal_vectors()
    i = 0
    for k in range(2):
        cp = spacing(env, k + 1, True)[1]
        G = env.rad(ds[k]['dihedral'])
        for s in (-1, 1):
            for j in range(k + 1):
                f = cp[j] if s == 1 else 1 - cp[j]
                t = env.rad(ds[k]['mount_angle'] - f * ds[k]['washout'])
                env.eq('normal wing %d' % k, un[i], [-env.sin(t), -s * env.sin(G) * env.cos(t), -env.cos(G) * env.cos(t)])
                i += 1


HARNESSES = [H('both n=1', lambda e: axes(e, 1, 'both'), bounds='1 section per side'),
             H('both n=3', lambda e: axes(e, 3, 'both'), bounds='3 sections per side'),
             H('left n=2', lambda e: axes(e, 2, 'left'), bounds='2 sections'),
             H('right n=2', lambda e: axes(e, 2, 'right'), bounds='2 sections'),
             H('linear both n=2', lambda e: axes(e, 2, 'both', False), bounds='2 sections per side'),
             H('two wings', two_wings, bounds='2 wings, 1 and 2 sections per side'),
             H('both n=8', lambda e: axes(e, 8, 'both'), bounds='8 sections per side', thorough_only=True)]
