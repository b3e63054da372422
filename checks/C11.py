from .lib import *

COVERAGE = 'An airplane and its mirror image flown in the mirror-image state (sideslip, roll and yaw rate, aileron and rudder reversed): longitudinal results equal, lateral ones reversed, section by section; consequence: no side force, rolling or yawing moment on a symmetric airplane in symmetric flight.  For every grid of the stated size (the second model sees the mirror image of the first one\'s arbitrary grid).'
KEEP, FLIP = ('FL', 'FD', 'FX', 'FZ', 'MY'), ('FS', 'FY', 'MX', 'MZ')
OTHER = dict(left='right', right='left', both='both')


def sections(wings):
    out, i = [], 0
    for side, n in wings:
        k = (2 if side == 'both' else 1) * n
        out.append(list(range(i, i + k)))
        i += k
    return out


def pair(env, wings, rates=True, local=False, control=CH, parts=('inviscid', 'viscous', 'total')):
    perm = [j for blk in sections(wings) for j in reversed(blk)]
    n = len(perm)
    cut_grid(env, mirrored(env, perm))
    cg = [env.real('cg' + c, -2, 2) for c in 'xyz']
    a = plane(env, wings, cg=cg, control=True)
    b = plane(env, [(OTHER[s], k) for s, k in wings], cg=[cg[0], -cg[1], cg[2]], control=True)
    ma, mb = env.m.llmodel.LLModel(a), env.m.llmodel.LLModel(b)
    st = state(env, n, local)
    if rates:
        for k in ('roll_rate', 'pitch_rate', 'yaw_rate'):
            st[k] = env.real(k, -2, 2)
    ct = {c: env.real(c, -25, 25) for c in control}
    s2 = dict(st)
    for k in ('beta', 'roll_rate', 'yaw_rate'):
        if k in s2:
            s2[k] = -s2[k]
    if local:
        s2['local_state'] = st['local_state'][perm] * env.array([1, 1, -1, 1])
    c2 = {k: (-x if k in ('aileron', 'rudder') else x) for k, x in ct.items()}
    env.hint_root(st['V_mag'], 1)
    env.hint_perm(perm)
    r1 = ma.solve('linear', aero_state=st, control_state=ct)
    d1 = {k: x for k, x in ma._distributions().items()}
    r2 = mb.solve('linear', aero_state=s2, control_state=c2)
    d2 = mb._distributions()
    for p in parts:
        for k in KEEP:
            env.eq('%s %s is the same' % (p, k), r2[p][k], r1[p][k], scale=1)
        for k in FLIP:
            env.eq('%s %s is reversed' % (p, k), r2[p][k], -r1[p][k], scale=1)
    for i in range(n):
        f, g = d1['forces_xyz'][perm[i]], d2['forces_xyz'][i]
        env.eq('section force %d' % i, [g[0], g[1], g[2]], [f[0], -f[1], f[2]], scale=1)
        for k in ('alpha', 'section_CL', 'section_Cm', 'section_CD_parasitic'):
            env.eq('%s %d' % (k, i), d2[k][i], d1[k][perm[i]], scale=1)


HARNESSES = [H('one wing', lambda e: pair(e, [('both', 1)]), bounds='2 horseshoes'),
             H('one half wing', lambda e: pair(e, [('right', 1)]), bounds='1 horseshoe'),
             H('one half wing, two sections', lambda e: pair(e, [('left', 2)]), bounds='2 horseshoes'),
             H('local velocities', lambda e: pair(e, [('both', 1)], local=True), bounds='2 horseshoes'),
             H('wing and half wing', lambda e: pair(e, [('both', 1), ('right', 1)]), bounds='3 horseshoes'),
             H('wing of four sections', lambda e: pair(e, [('both', 2)]), bounds='4 horseshoes', thorough_only=True)]
