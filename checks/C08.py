from .lib import *

COVERAGE = 'The linear system the solver solves is, for every grid of the stated size (all positions, section vectors, areas, airfoil and control data arbitrary reals), every onset velocity per section and every freestream direction, the linearised numerical lifting-line system of Phillips & Snyder with horseshoe vortices trailing along the freestream.  Counterexamples are replayed on models down to tenths of a millimetre.'


def local(env, wings, control=('aileron', 'elevator', 'rudder', 'flap'), small=False):
    cut_grid(env)
    dims = None
    if small:
        # replays on models of millimetres (the grid is any grid in symbolic runs)
        t = env.real('size', 0.0001, 0.1)
        dims = dict(position=[0, 0, 0], yoffset=0, semispan=t, root_chord=t / 4, tip_chord=t / 5)
    ap = plane(env, wings, cg=[0, 0, 0], control=True, dims=dims)
    m = env.m.llmodel.LLModel(ap)
    g = m._grid
    n = sum((2 if s == 'both' else 1) * k for s, k in wings)
    st = state(env, n, True)
    ls, V, al, be = st['local_state'], st['V_mag'], st['alpha'], st['beta']
    ct = {c: env.real(c, -25, 25) for c in control}
    env.hint_root(V)
    m.solve('linear', aero_state=st, control_state=ct)
    ss = [Sect(g, i) for i in range(n)]
    A, b = system(env, ss, [[ls[i][k] for k in (1, 2, 3)] for i in range(n)], direction(env, al, be), ct)
    env.row_solves('lifting-line equations', A, b)


HARNESSES = [H('two sections', lambda e: local(e, [('both', 1)]), bounds='2 horseshoes'),
             H('three sections, two wings', lambda e: local(e, [('both', 1), ('right', 1)]), bounds='3 horseshoes'),
             H('four sections', lambda e: local(e, [('left', 2), ('right', 2)], ('flap',)), bounds='4 horseshoes'),
             H('two sections, small', lambda e: local(e, [('both', 1)], ('flap',), True), bounds='2 horseshoes'),
             H('no deflection', lambda e: local(e, [('both', 1)], ()), bounds='2 horseshoes')]
