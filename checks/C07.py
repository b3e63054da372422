from .lib import *

COVERAGE = 'The onset flow the lifting-line model works with, for every state form (speed/angles, local velocities, rotation rates in any combination, nothing at all): the equations solved and the section forces are those for onset velocity V_mag*u(alpha, beta) - omega x (r - r_cg) and the stated density at every section, for every grid of the stated size.'


def observe(env, m, ss, st, v, rho, u, res=None):
    A, b = system(env, ss, v, u, {})
    env.row_solves('lifting-line equations for the onset flow', A, b)
    g = env.solves[-1].x
    d = m._distributions()['forces_xyz']
    for i, s in enumerate(ss):
        w = v[i]
        for j, q in enumerate(ss):
            w = add(w, scal(g[j], influence(env, s.r, q.r1, q.r2, u, i == j)))
        env.eq('force of section %d: density and velocity' % i, d[i], scal(rho[i] * g[i], cross(w, s.dl)))
    if res is not None:
        # lift acts at right angles to the freestream, drag along it
        F = [res['inviscid'][c] for c in ('FX', 'FY', 'FZ')]
        l, dr, sd = wind_axes(env, u)
        env.eq('freestream direction: drag', res['inviscid']['FD'], dot(F, dr), scale=1)
        env.eq('freestream direction: lift', res['inviscid']['FL'], dot(F, l), scale=1)


def setup(env, wings):
    cut_grid(env)
    ap = plane(env, wings, cg=[env.real('cg' + c, -2, 2) for c in 'xyz'], af='const')
    m = env.m.llmodel.LLModel(ap)
    n = sum((2 if s == 'both' else 1) * k for s, k in wings)
    return m, [Sect(m._grid, i) for i in range(n)], n


def uniform(env, wings, rates, keys=('alpha', 'beta')):
    m, ss, n = setup(env, wings)
    st = state(env, n, wide=85)
    for k in ('alpha', 'beta'):
        if k not in keys:
            del st[k]
    om = []
    for k in ('roll_rate', 'pitch_rate', 'yaw_rate'):
        if k in rates:
            st[k] = env.real(k, -2, 2)
        om.append(st.get(k, 0))
    env.hint_root(st['V_mag'], 1)
    u = direction(env, st.get('alpha', 0), st.get('beta', 0))
    cg = m._grid.get_cg_location()
    v = [sub(scal(st['V_mag'], u), cross(om, sub(s.r, [cg[k] for k in range(3)]))) for s in ss]
    res = m.solve('linear', aero_state=st)
    observe(env, m, ss, st, v, [st['rho']] * n, u, res)


def local(env, wings, form, rates=()):
    m, ss, n = setup(env, wings)
    st = state(env, n, True)
    om = []
    for k in ('roll_rate', 'pitch_rate', 'yaw_rate'):
        if k in rates:
            st[k] = env.real(k, -2, 2)
        om.append(st.get(k, 0))
    ls = st['local_state']
    env.hint_root(st['V_mag'], 1)
    if form == 'local only':
        mean = scal(env.rat(1, n), [sum(ls[i][k] for i in range(n)) for k in (1, 2, 3)])
        env.hint_root(n)
        u = scal(1 / env.sqrt(dot(mean, mean)), mean)
        st = {k: x for k, x in st.items() if k not in ('V_mag', 'alpha', 'beta', 'rho')}
    else:
        u = direction(env, st['alpha'], st['beta'])
    cg = m._grid.get_cg_location()
    v = [sub([ls[i][k] for k in (1, 2, 3)], cross(om, sub(s.r, [cg[k] for k in range(3)]))) for i, s in enumerate(ss)]
    rho = [ls[i][0] for i in range(n)]
    m.solve('linear', aero_state=st)
    observe(env, m, ss, st, v, rho, u)


def nothing(env):
    m, ss, n = setup(env, [('both', 1)])
    for st in (None, {}):
        m.solve('linear', aero_state=st)
        observe(env, m, ss, None, [[-10, 0, 0]] * n, [1] * n, [-1, 0, 0])


def missing(env):
    m, ss, n = setup(env, [('right', 1)])
    V, r = env.real('V_mag', 1, 9), env.real('rho', 0.1, 2)
    for nm, st in (('density', dict(V_mag=V)), ('speed', dict(rho=r))):
        try:
            m.solve('linear', aero_state=st)
            env.fail('a state without ' + nm, 'is accepted')
        except RuntimeError:
            pass
    env.eq('refused states', 1, 1)


def plain(env):
    """no cut: the encoding of a whole small model against the real code"""
    ap = plane(env, [('right', 1)], cg=[0, 0, 0], af='const', fixed=True)
    m = env.m.llmodel.LLModel(ap)
    ss = [Sect(m._grid, 0)]
    st = state(env, 1, wide=10)
    st['pitch_rate'] = env.real('q', -1, 1)
    u = direction(env, st['alpha'], st['beta'])
    v = [sub(scal(st['V_mag'], u), cross([0, st['pitch_rate'], 0], ss[0].r))]
    m.solve('linear', aero_state=st)
    observe(env, m, ss, st, v, [st['rho']], u)


R = ('roll_rate', 'pitch_rate', 'yaw_rate')
HARNESSES = [H('speed and angles', lambda e: uniform(e, [('both', 1)], ()), bounds='2 horseshoes'),
             H('angle of attack only', lambda e: uniform(e, [('both', 1)], (), ('alpha',)), bounds='2 horseshoes'),
             H('sideslip only', lambda e: uniform(e, [('both', 1)], (), ('beta',)), bounds='2 horseshoes'),
             H('all rates', lambda e: uniform(e, [('both', 1)], R), bounds='2 horseshoes'),
             H('all rates, two wings', lambda e: uniform(e, [('both', 1), ('right', 1)], R), bounds='3 horseshoes')] + [
    H('only ' + k, lambda e, k=k: uniform(e, [('both', 1)], (k,), ('alpha',)), bounds='2 horseshoes') for k in R] + [
    H('local velocities and speed', lambda e: local(e, [('both', 1)], 'both'), bounds='2 horseshoes'),
    H('local velocities, speed and rates', lambda e: local(e, [('both', 1)], 'both', R), bounds='2 horseshoes'),
    H('local velocities alone', lambda e: local(e, [('both', 1)], 'local only'), bounds='2 horseshoes'),
    H('local velocities alone and rates', lambda e: local(e, [('both', 1)], 'local only', R), bounds='2 horseshoes'),
    H('no state', nothing, bounds='2 horseshoes'),
    H('incomplete state', missing, bounds='1 horseshoe'),
    H('real grid', plain, bounds='1 horseshoe')]
