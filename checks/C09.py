from .lib import *

COVERAGE = 'Section forces follow the vector Kutta-Joukowski law with the total (onset + induced) velocity, parasitic drag acts along that velocity, the reported body-axis totals are the sums over sections, inviscid + viscous = total, and lift, drag and side force are the wind-axis components of the body-axis force; for every grid of the stated size, onset field and vortex strengths.'


def run(env, wings, cut=True, control=CH, loc=True, **kw):
    if cut:
        cut_grid(env)
    ap = plane(env, wings, cg=[env.real('cg' + c, -2, 2) for c in 'xyz'], control=True, **kw)
    m = env.m.llmodel.LLModel(ap)
    n = sum((2 if s == 'both' else 1) * k for s, k in wings)
    st = state(env, n, loc)
    ct = {c: env.real(c, -25, 25) for c in control}
    env.hint_root(st['V_mag'], 1)
    res = m.solve('linear', aero_state=st, control_state=ct)
    ss = [Sect(m._grid, i) for i in range(n)]
    u = direction(env, st['alpha'], st['beta'])
    v = [[st['local_state'][i][k] for k in (1, 2, 3)] if loc else scal(st['V_mag'], u) for i in range(n)]
    rho = [st['local_state'][i][0] if loc else st['rho'] for i in range(n)]
    cg = m._grid.get_cg_location()
    L = loads(env, ss, v, rho, u, env.solves[-1].x, ct, [cg[k] for k in range(3)])
    return m, res, L, u


def forces(env, *a, **k):
    m, res, L, u = run(env, *a, **k)
    d = m._distributions()
    for i, p in enumerate(L):
        env.eq('section force %d' % i, d['forces_xyz'][i], p['F'])
        env.eq('section angle of attack %d' % i, d['alpha'][i], p['alpha'])
    F, D = total(L, 'F'), total(L, 'D')
    sc = 1
    for k, (a, b) in enumerate(zip(F, D)):
        c = 'F' + 'XYZ'[k]
        env.eq('inviscid ' + c, res['inviscid'][c], a, scale=sc)
        env.eq('viscous ' + c, res['viscous'][c], b, scale=sc)
        env.eq('total ' + c, res['total'][c], a + b, scale=sc)
    # wind-axis components of the reported body-axis forces
    l, dr, s = wind_axes(env, u)
    for part in ('inviscid', 'viscous', 'total'):
        f = [res[part][c] for c in ('FX', 'FY', 'FZ')]
        env.eq('%s drag' % part, res[part]['FD'], dot(f, dr), scale=sc)
        env.eq('%s lift' % part, res[part]['FL'], dot(f, l), scale=sc)
        env.eq('%s side force' % part, res[part]['FS'], dot(f, s), scale=sc)
    env.eq('lift to drag ratio', res['total']['L/D'] * res['total']['FD'], res['total']['FL'], scale=sc)


HARNESSES = [H('one section', lambda e: forces(e, [('right', 1)]), bounds='1 horseshoe'),
             H('two sections', lambda e: forces(e, [('both', 1)]), bounds='2 horseshoes'),
             H('uniform onset flow, real grid', lambda e: forces(e, [('right', 1)], cut=False, control=('flap',), loc=False, fixed=True, af='const'), bounds='1 horseshoe of a straight wing'),
             H('three sections, two wings', lambda e: forces(e, [('both', 1), ('right', 1)]), bounds='3 horseshoes')]
