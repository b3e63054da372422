from .mulib import *

COVERAGE = 'find_aero_center for any force curves (drag and normal force at each angle unconstrained) acting at any fixed point, any cg, size, speed and density; and for loads following the sinusoidal lift, parabolic drag and sin(2 alpha) moment the fit assumes, where the fitted coefficients enter the expression of Phillips for the centre.  Bound: the code sees every 80th angle of its range (5 angles) in symbolic runs.'


def build(env, total, cg, refs=True, props=False):
    env.thin(80)
    plant = Plant(env, total=total, props=props)
    mu = small(env, refs={k: env.real('ref_' + k, 0.5, 8) for k in ('longitudinal', 'lateral')} if refs else None, cg=cg, props=1 if props else 0)
    return plant, mu


def finish(env, mu, plant, x, z, st, ct, file):
    a = dict(aero_state=st, control_state=ct) if st is not None else dict(control_state=ct)
    if file:
        a['filename'] = env.path('c.json')
    r = mu.find_aero_center(**a)
    if file:
        j = env.get_json('c.json')
        env.check('file: entries', set(j) == {'x_ac', 'z_ac'})
        r2 = [j['x_ac'], 0, j['z_ac']]
    for lab, v in (('', r),) + ((('file: ', r2),) if file else ()):
        env.eq(lab + 'x', v[0], x, scale=1)
        env.eq(lab + 'y', v[1], 0)
        env.eq(lab + 'z', v[2], z, scale=1)
    if st is not None:
        for k, (s, c) in enumerate(plant.log[:8]):
            same(env, 'state %d' % k, {n: v for n, v in s.items() if n != 'alpha'}, {n: v for n, v in st.items() if n != 'alpha'})
            same(env, 'controls %d' % k, c, ct)


def fixed(env, file=False, bare=False, refs=True, drop=(), control=True):
    """the loads act at a point"""
    cg = [env.real('cg_' + c, -10, 10) for c in 'xyz']
    px, pz = env.real('point_x', -30, 20), env.real('point_z', -10, 10)
    fx = env.ufun('force_x', lambda a, V, r: -0.05 - 0.03 * math.sin(0.2 * a) + 0.002 * a * a)
    fz = env.ufun('force_z', lambda a, V, r: -0.4 - 0.21 * a + 0.02 * math.cos(a))

    def total(s):
        X, Z = fx(s['alpha'], s['V_mag'], s['rho']), fz(s['alpha'], s['V_mag'], s['rho'])
        return dict(FX=X, FZ=Z, MY=(pz - cg[2]) * X - (px - cg[0]) * Z)
    plant, mu = build(env, total, cg, refs)
    c = mu.long_ref
    env.hint_solution([0, (px - cg[0]) / c, -(pz - cg[2]) / c])
    st = None if bare else full_state(env)
    for k in drop:
        st.pop(k)
    finish(env, mu, plant, px, pz, st, full_control(env) if control else None, file)


def model(env):
    """loads of the form the fit assumes"""
    cg = [env.real('cg_' + c, -10, 10) for c in 'xyz']
    px, pz = env.real('point_x', -30, 20), env.real('point_z', -10, 10)
    st = full_state(env)
    k = env.real('moment', -30, 30)
    CLa, CD0, CD1, CD2 = env.real('CLa', 3, 6), env.real('CD0', 0.01, 0.05), env.real('CD0_L', -0.01, 0.01), env.real('CD0_L2', 0.01, 0.06)
    t0 = env.real('tan_alpha_L0', -0.1, 0.1)
    al0 = env.atan(t0)
    box = []

    def total(s):
        mu = box[0]
        a = env.rad(s['alpha'])
        sa, ca = env.sin(a), env.cos(a)
        CL = CLa * (sa - t0 * ca)
        CD = CD0 + CD1 * CL + CD2 * CL * CL
        q = st['rho'] * st['V_mag'] * st['V_mag'] / 2 * mu.Sw
        X, Z = -q * (CD * ca - CL * sa), -q * (CL * ca + CD * sa)
        return dict(FX=X, FZ=Z, MY=(pz - cg[2]) * X - (px - cg[0]) * Z + q * mu.long_ref * k * env.sin(2 * a))
    plant, mu = build(env, total, cg)
    box.append(mu)
    c = mu.long_ref
    env.hint_solution([k, (px - cg[0]) / c, -(pz - cg[2]) / c])
    env.hint_solution([CD0, CD1, CD2])
    a = env.rad(st['alpha'])
    den = 2 * CLa + 3 * CD0 - 2 * CD2 * CLa * CLa
    env.assume(den > 1)
    x = px + c * k * (4 + 2 * CD0 / CLa + (12 * a * a - 4) * CD2 * CLa) / den
    z = pz - c * k * (4 * al0 + 4 * CD1 + 12 * a * CD2 * CLa) / den
    finish(env, mu, plant, x, z, st, full_control(env), False)


HARNESSES = [H('fixed point', fixed, bounds='5 angles'), H('fixed point, to file', lambda e: fixed(e, file=True), bounds='5 angles'), H('fixed point, no state', lambda e: fixed(e, bare=True, file=True), bounds='5 angles'),
             H('fixed point, default lengths', lambda e: fixed(e, refs=False), bounds='5 angles'), H('fixed point, no angles given', lambda e: fixed(e, drop=('alpha', 'beta'), control=False), bounds='5 angles'),
             H('fitted model', model, bounds='5 angles')]
