from .lib import *

COVERAGE = 'Section lift, pitching-moment and parasitic-drag coefficients from the airfoil data interpolated between the wing ends, drag polar and control-surface contributions, and the moments they and the section forces make about the centre of gravity, for every grid of the stated size, onset velocities, vortex strengths, deflections and centre of gravity.'


def run(env, wings, control=CH, loc=True, cut=True, **kw):
    if cut:
        cut_grid(env)
    ap = plane(env, wings, cg=[env.real('cg' + c, -2, 2) for c in 'xyz'], control=True, **kw)
    m = env.m.llmodel.LLModel(ap)
    n = sum((2 if s == 'both' else 1) * k for s, k in wings)
    st = state(env, n, loc)
    ct = {c: env.real(c, -25, 25) for c in control}
    env.hint_root(st['V_mag'], 1)
    res = m.solve('linear', aero_state=st, control_state=ct)
    ss = [Sect(m._grid, i) for i in range(n)]
    u = direction(env, st['alpha'], st['beta'])
    v = [[st['local_state'][i][k] for k in (1, 2, 3)] if loc else scal(st['V_mag'], u) for i in range(n)]
    rho = [st['local_state'][i][0] if loc else st['rho'] for i in range(n)]
    cg = m._grid.get_cg_location()
    L = loads(env, ss, v, rho, u, env.solves[-1].x, ct, [cg[k] for k in range(3)])
    d = m._distributions()
    for i, p in enumerate(L):
        env.eq('section CL %d' % i, d['section_CL'][i], p['cl'])
        env.eq('section Cm %d' % i, d['section_Cm'][i], p['cm'])
        env.eq('section parasitic CD %d' % i, d['section_CD_parasitic'][i], p['cd'])
        env.eq('zero-lift angle %d' % i, d['section_alpha_L0'][i], ss[i].al0)
    M, MD = total(L, 'M'), total(L, 'MD')
    for k in range(3):
        c = 'M' + 'XYZ'[k]
        env.eq('inviscid ' + c, res['inviscid'][c], M[k], scale=1)
        env.eq('viscous ' + c, res['viscous'][c], MD[k], scale=1)
        env.eq('total ' + c, res['total'][c], M[k] + MD[k], scale=1)


HARNESSES = [H('one section', lambda e: run(e, [('right', 1)]), bounds='1 horseshoe'),
             H('two sections', lambda e: run(e, [('both', 1)]), bounds='2 horseshoes'),
             H('uniform onset flow, two sections', lambda e: run(e, [('both', 1)], ('aileron', 'elevator'), False), bounds='2 horseshoes'),
             H('no deflection', lambda e: run(e, [('left', 1)], ()), bounds='1 horseshoe'),
             H('three sections, two wings', lambda e: run(e, [('both', 1), ('right', 1)]), bounds='3 horseshoes'),
             H('real grid', lambda e: run(e, [('right', 1)], ('flap',), False, False, fixed=True, af='const'), bounds='1 horseshoe of a straight wing'),
             H('four sections', lambda e: run(e, [('both', 2)]), bounds='4 horseshoes', thorough_only=True)]
