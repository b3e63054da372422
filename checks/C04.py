from .lib import *

COVERAGE = 'Section properties of wings whose root and tip airfoils have independent symbolic coefficients (set together, separately or by default), on left, right and two-sided wings: every section value is the linear blend from root to tip, and the end values used for blending are those of the right end.'
KEYS = list(AF)


def values(g):
    cma, cml, _ = g.get_moment_slopes()
    return dict(CL_alpha=g.get_lift_slopes(), alpha_L0=g.get_zero_lift_alpha(), Cm_alpha=cma, Cm_L0=cml, CL_max=g.get_max_lifts())


def ends(g):
    l0, l1, l2 = g.get_left_drag_coeff()
    r0, r1, r2 = g.get_right_drag_coeff()
    return dict(CL_alpha=(g.get_left_lift_slopes(), g.get_right_lift_slopes()), alpha_L0=(g.get_left_zero_lift_alpha(), g.get_right_zero_lift_alpha()),
                Cm_alpha=(g.get_left_moment_slopes(), g.get_right_moment_slopes()), Cm_L0=(g.get_left_zero_lift_moments(), g.get_right_zero_lift_moments()),
                CD0=(l0, r0), CD0_L=(l1, r1), CD0_L2=(l2, r2))


def blend(env, n, side, how):
    ap = make_airplane(env)
    ws = []
    for k in range(2):
        w = ap.add_wing('w%d' % k, side=side, semispan=2, grid=n + k)
        R, T = airfoil(env, 'r%d' % k), airfoil(env, 't%d' % k)
        if how == 'both':
            w.airfoil('x', end='both', **R)
            T = R
        elif how == 'separate':
            w.airfoil('x', end='root', **R)
            w.airfoil('y', end='tip', **T)
        elif how == 'tip first':
            w.airfoil('y', end='tip', **T)
            w.airfoil('x', end='root', **R)
        elif how == 'override tip':
            w.airfoil('x', end='both', **R)
            w.airfoil('y', end='tip', **T)
        elif how == 'override root':
            w.airfoil('y', end='both', **T)
            w.airfoil('x', end='root', **R)
        ws.append((R, T))
    g = env.m.llgrid.LLGrid(ap)
    V, E = values(g), ends(g)
    i = 0
    for k, (R, T) in enumerate(ws):
        cp = spacing(env, n + k, True)[1]
        for sd in (('left', 'right') if side == 'both' else (side,)):
            for j in range(n + k):
                f = 1 - cp[j] if sd == 'left' else cp[j]          # distance from the root
                for q in V:
                    env.eq('%s wing %d %s[%d]' % (q, k, sd, j), V[q][i], lerp(R[q], T[q], f))
                for q in E:
                    env.eq('%s ends wing %d %s[%d]' % (q, k, sd, j), [E[q][0][i], E[q][1][i]], [T[q], R[q]] if sd == 'left' else [R[q], T[q]])
                i += 1


DEFAULT = dict(alpha_L0=(-369, 10000), CL_alpha=(62832, 10000), Cm_L0=(-527, 10000), Cm_alpha=(-8, 100), CD0=(55, 10000), CD0_L=(-45, 10000), CD0_L2=(1, 100), CL_max=(14, 10))


def default(env):
    ap = make_airplane(env)
    T = airfoil(env, 't')
    b = env.real('span', 1, 5)
    ap.add_wing('w', semispan=b, grid=2)
    ap.add_wing('v', semispan=b, grid=1).airfoil('y', end='tip', **T)
    g = env.m.llgrid.LLGrid(ap)
    D = {k: env.rat(*v) for k, v in DEFAULT.items()}
    V, E = values(g), ends(g)
    for i in range(4):
        for q in V:
            env.eq('default %s' % q, V[q][i], D[q])
        for q in E:
            env.eq('default ends %s' % q, [E[q][0][i], E[q][1][i]], [D[q], D[q]])
    for q in E:
        env.eq('default root, given tip, left %s' % q, [E[q][0][4], E[q][1][4]], [T[q], D[q]])
        env.eq('default root, given tip, right %s' % q, [E[q][0][5], E[q][1][5]], [D[q], T[q]])


HARNESSES = [H('%s %s' % (how, sd), lambda e, how=how, sd=sd: blend(e, 2, sd, how), bounds='2 wings, 2 and 3 sections per side')
             for how, sd in (('both', 'both'), ('separate', 'both'), ('tip first', 'both'), ('override tip', 'left'), ('override root', 'right'), ('separate', 'left'))] + [
    H('default', default, bounds='2 wings')] + [
    H('long %s' % sd, lambda e, sd=sd: blend(e, 10, sd, 'separate'), bounds='2 wings, 10 and 11 sections per side', thorough_only=True) for sd in ('both', 'right')]
