from .proplib import *

COVERAGE = 'One propeller at any place and cg, any orientation, angles of attack and sideslip, advance ratio, speed, density and either sense of rotation, for any blade section data: the force is the thrust along the axis plus a force along the transverse inflow, the moment about the cg is the moment of that force, the torque along the axis against the rotation and a moment along the transverse inflow; thrust, torque and the wind axes components are those of the totals; transverse loads grow in proportion to the angle between axis and inflow and vanish without it; mirrored rotation reverses torque and transverse moment only; everything scales with density and with the square of speed; totals of several propellers are the sums.  Outside: inflow exactly along or against the axis other than zero angles and orientation.'
FK, MK, WK = ('FX', 'FY', 'FZ'), ('MX', 'MY', 'MZ'), ('FL', 'FD', 'FS')


def axis(env, o):
    e, h = env.rad(o[0]), env.rad(o[1])
    return [env.cos(e) * env.cos(h), env.cos(e) * env.sin(h), -env.sin(e)]


def place(env, p='p'):
    return [env.real(p + '_' + c, -2, 2) for c in 'xyz']


def tilt(env, p='o', aligned=False):
    return [env.real(p + '_elevation', -85, 85), env.real(p + '_heading', -175, 175)] if not aligned else [0, 0]


def craft(env, props, cg):
    ap = make_airplane(env, cg)
    for k, (pos, o, rot) in enumerate(props):
        d = dict(position=pos, nodes=2, diameter=env.real('d%d' % k, 1, 3), hub_diameter=0.2, num_of_blades=2)
        if o is not None:
            d['orientation'] = o
        if rot is not None:
            d['rot_dir'] = rot
        ap.add_prop('p%d' % k, **d)
    return env.m.MU.MachUp(inputAirplane=ap)


def wind(env, st, f=None, oblique=True):
    """direction of the inflow; assumption: oblique to the axis"""
    u = direction(env, st.get('alpha', 0), st.get('beta', 0))
    if f is None:
        return u
    x = -dot(u, f)
    t = sub(u, scal(dot(u, f), f))
    if oblique:
        env.assume(x < 1)
        env.assume(x > -1)
        env.assume(env.acos(x) > 0)
        env.assume(env.sqrt(dot(t, t)) > 0)
    return u, x, t


def given(env, wide=True):
    return dict(V_mag=env.real('V', 0.5, 500), rho=env.real('rho', 0.001, 1.3), alpha=env.real('alpha', -75, 75), beta=env.real('beta', -75, 75))


def solve(mu, st, ps):
    return mu.solve(aero_state=st, prop_state=ps), mu.myprops.solve(st, ps)[0]['total']


def vec(r, k):
    return [r[x] for x in k]


def assembly(env, rot='CCW', straight=False, cg0=False):
    blade_env(env)
    env.hint_root(1)
    pos, cg = place(env), [0, 0, 0] if cg0 else place(env, 'cg')
    o = tilt(env, aligned=straight)
    mu = craft(env, [(pos, o, rot)], cg)
    st = given(env)
    f = axis(env, o)
    u, x, t = wind(env, st, f)
    r, R = solve(mu, st, {'J': env.real('J', 0.2, 1.2)})
    for k in FK + MK + WK:
        env.eq('total ' + k, r[k], R[k])
    F, M = vec(r, FK), vec(r, MK)
    T, Q = R['Thrust'], R['Torque']
    tt = dot(t, t)
    N = scal(dot(F, t) / tt, t)
    env.eq('force', F, add(scal(T, f), N), scale=1)
    arm = sub(pos, cg)
    P = sub(M, cross(arm, F))
    env.eq('torque along the axis', dot(P, f), Q, scale=1)
    env.eq('moment', P, add(scal(Q, f), scal(dot(P, t) / tt, t)), scale=1)


def axes(env):
    """components in wind axes"""
    blade_env(env)
    env.hint_root(1)
    mu = craft(env, [(place(env), [0, 0], 'CCW')], [0, 0, 0])
    st = given(env)
    wind(env, st, axis(env, [0, 0]))
    r = mu.solve(aero_state=st, prop_state={'J': env.real('J', 0.2, 1.2)})
    for k, a in zip(WK, wind_axes(env, direction(env, st['alpha'], st['beta']))):
        env.eq(k, r[k], dot(vec(r, FK), a), scale=1)


def proportional(env, moment=False, o=(0, 0)):
    """the transverse loads are proportional to the angle of the inflow, about the propeller"""
    blade_env(env)
    env.hint_root(1)
    mu = craft(env, [([0, 0, 0], list(o), 'CW' if moment else 'CCW')], [0, 0, 0])
    J = env.real('J', 0.2, 1.2)
    base = dict(V_mag=env.real('V', 0.5, 500), rho=env.real('rho', 0.001, 1.3))
    c = []
    for k in range(2):
        st = dict(base, alpha=env.real('alpha%d' % k, 0.01, 75) * (1 - 2 * k), beta=env.real('beta%d' % k, 0.01, 75))
        u, x, t = wind(env, st, axis(env, o))
        r = mu.solve(aero_state=st, prop_state={'J': J})
        L = vec(r, MK if moment else FK)
        c.append(dot(L, t) / env.sqrt(dot(t, t)) / env.acos(x))
    env.eq('coefficient', c[1], c[0], scale=1)


def aligned(env, how):
    """inflow along the axis: no transverse loads"""
    blade_env(env)
    pos, cg = place(env), place(env, 'cg')
    mu = craft(env, [(pos, None if how == 'default' else [0, 0], 'CCW')], cg)
    st = dict(V_mag=env.real('V', 0.5, 500), rho=env.real('rho', 0.001, 1.3))
    if how == 'zero':
        st.update(alpha=0, beta=0)
    r, R = solve(mu, st, {'J': env.real('J', 0.2, 1.2)})
    F = [R['Thrust'], 0, 0]
    env.eq('force', vec(r, FK), F)
    env.eq('moment', vec(r, MK), add(cross(sub(pos, cg), F), [R['Torque'], 0, 0]), scale=1)
    env.eq('drag', r['FD'], -R['Thrust'])
    env.eq('lift', r['FL'], 0)
    env.eq('side force', r['FS'], 0)


def handed(env, names=('CCW', 'CW')):
    """the other sense of rotation"""
    blade_env(env)
    env.hint_root(1)
    st = given(env)
    wind(env, st, [1, 0, 0])
    J = env.real('J', 0.2, 1.2)
    a, b = [solve(craft(env, [([0, 0, 0], [0, 0], w)], [0, 0, 0]), st, {'J': J})[1] for w in names]
    for k in FK + WK + ('Thrust',):
        env.eq(k, b[k], a[k], scale=1)
    for k in MK + ('Torque',):
        env.eq(k, b[k], -a[k], scale=1)


def sense(env, rot):
    """torque of a propeller that absorbs power acts against its rotation; section data such that it does"""
    blade_env(env, coef=False)
    PM = env.m.propmodel.PropModel
    mu = craft(env, [([0, 0, 0], [0, 0], rot)], [0, 0, 0])
    st = dict(V_mag=env.real('V', 0.5, 500), rho=env.real('rho', 0.001, 1.3))
    # lift and drag of every section positive
    g = [env.ufun(n, fn) for n, fn in (('CL', lambda r: 0.5 + 0.1 * math.sin(r)), ('CD', lambda r: 0.02 + 0.001 * r))]
    if env.symbolic:
        def get(self, alpha):
            r = self.get_radial_position()
            out = [env.array([h(x) for x in r]) for h in g]
            for a in out:
                for x in a:
                    env.assume(x > 0)
            return out[0], out[0], out[1]
        PM.get_coefficients_alpha = get
        inner = PM._find_ei

        def find_ei(self, *a, **k):
            out = inner(self, *a, **k)
            for x, y in zip(self.get_advance_angle(), out):
                # inflow of the blade neither reversed nor beyond the axis
                for c in (env.cos(y), env.cos(x), env.cos(x + y), env.sin(x + y)):
                    env.assume(c > 0)
            return out
        PM._find_ei = find_ei
    R = mu.myprops.solve(st, {'J': env.real('J', 0.2, 0.5)})[0]['total']
    if rot in ('CW', 'cw', -1):
        env.lt('torque of a clockwise propeller', 0, R['Torque'])
    else:
        env.lt('torque of a counterclockwise propeller', R['Torque'], 0)


def scales(env):
    """density and speed"""
    blade_env(env)
    env.hint_root(1)
    mu = craft(env, [(place(env), [0, 0], 'CW')], place(env, 'cg'))
    st = given(env)
    wind(env, st, [1, 0, 0])
    J = {'J': env.real('J', 0.2, 1.2)}
    k, q = env.real('factor', 0.3, 3), env.real('faster', 0.3, 3)
    a = mu.myprops.solve(st, J)[0]['total']
    b = mu.myprops.solve(dict(st, rho=k * st['rho']), J)[0]['total']
    c = mu.myprops.solve(dict(st, V_mag=q * st['V_mag']), J)[0]['total']
    for x in a:
        env.eq('%s with density' % x, b[x], k * a[x], scale=1)
        env.eq('%s with speed' % x, c[x], q * q * a[x], scale=1)


def size(env):
    """a larger propeller of the same shape at the same advance ratio: forces with its square, moments with its cube"""
    blade_env(env, ei=False, coef=False)
    if env.symbolic:
        # section data and induced angle by fraction of radius
        shape(env)
    env.hint_root(1)
    st = given(env)
    wind(env, st, [1, 0, 0])
    J = {'J': env.real('J', 0.2, 1.2)}
    d, k = env.real('d', 1, 2), env.real('factor', 0.5, 2)
    out = []
    for s in (1, k):
        ap = make_airplane(env, [0, 0, 0])
        ap.add_prop('p0', position=[0, 0, 0], nodes=3, diameter=d * s, hub_diameter=d * s / 5, num_of_blades=3)
        out.append(env.m.MU.MachUp(inputAirplane=ap).myprops.solve(st, J)[0]['total'])
    for x in FK + WK + ('Thrust',):
        env.eq(x, out[1][x], k * k * out[0][x], scale=1)
    for x in MK + ('Torque',):
        env.eq(x, out[1][x], k * k * k * out[0][x], scale=1)


def shape(env):
    PM = env.m.propmodel.PropModel
    f = env.ufun('induced_at', lambda z, e, b: 0.02 + 0.01 * math.sin(7 * z + e + b))
    g = [env.ufun('section_at_' + n, fn) for n, fn in (('CL', lambda z, a: 6 * a + 0.1 * math.sin(z)), ('CL_a', lambda z, a: 6 + 0.2 * math.sin(a + z)), ('CD', lambda z, a: 0.01 + a * a + 0.001 * z))]
    z = lambda self: self.get_radial_position() * (2 / self._d)

    def find_ei(self, *a, **k):
        r, e, b = z(self), self.get_advance_angle(), self.get_aero_pitch_angle()
        return env.array([f(r[i], e[i], b[i]) for i in range(len(r))])

    def get(self, alpha):
        r = z(self)
        return tuple(env.array([h(r[i], alpha[i]) for i in range(len(alpha))]) for h in g)
    PM._find_ei = find_ei
    PM.get_coefficients_alpha = get


def several(env):
    """two propellers at their places: sum of each alone"""
    blade_env(env)
    env.hint_root(1)
    st = given(env)
    J = {'J': env.real('J', 0.2, 1.2)}
    cg = place(env, 'cg')
    props = [(place(env, 'p%d' % k), [0, 0], ('CW', 'CCW')[k]) for k in range(2)]
    wind(env, st, [1, 0, 0])
    both = solve(craft(env, props, cg), st, J)
    ap = [make_airplane(env, cg) for k in range(2)]
    for k, (pos, o, rot) in enumerate(props):
        ap[k].add_prop('p%d' % k, position=pos, orientation=o, rot_dir=rot, nodes=2, diameter=env.real('d%d' % k, 1, 3), hub_diameter=0.2, num_of_blades=2)
    one = [solve(env.m.MU.MachUp(inputAirplane=a), st, J) for a in ap]
    for w, c, d in zip(both, *one):
        for k in w:
            env.eq(k, w[k], c[k] + d[k], scale=1)


B = '2 stations'
HARNESSES = [H('assembly', assembly, bounds=B), H('assembly, clockwise', lambda e: assembly(e, 'CW'), bounds=B), H('assembly, axis along x', lambda e: assembly(e, straight=True), bounds=B),
             H('assembly, cg at the origin', lambda e: assembly(e, 'CW', cg0=True), bounds=B), H('wind axes', axes, bounds=B), H('transverse force proportional to angle', proportional, bounds=B), H('transverse moment proportional to angle', lambda e: proportional(e, True), bounds=B),
             H('transverse force, axis astern', lambda e: proportional(e, o=(0, 180 - 30)), bounds=B), H('transverse moment, axis aside', lambda e: proportional(e, True, o=(60, -90)), bounds=B), H('scales', scales, bounds=B), H('sizes', size, bounds='3 stations'), H('two propellers', several, bounds='2 x 2 stations')]
for h in ('default', 'zero', 'left out'):
    HARNESSES.append(H('aligned, ' + h, lambda e, h=h: aligned(e, h), bounds=B))
for n in (('CCW', 'CW'), ('ccw', 'cw'), (1, -1), (1.0, -1.0), (1, 0), (None, 'CW')):
    HARNESSES.append(H('sense of rotation %s %s' % n, lambda e, n=n: handed(e, n), bounds=B))
for r in ('CCW', 'CW'):
    HARNESSES.append(H('torque ' + r, lambda e, r=r: sense(e, r), bounds=B))
