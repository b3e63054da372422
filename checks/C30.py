from .proplib import *

COVERAGE = 'Propellers of 3 to 5 stations, any number of blades, hub and tip size, speed, density, advance ratio or rotation rate, any induced angles and section coefficients: thrust, torque, force and moment in the inflow are the integrals of the section loads (Simpson) scaled with density, rotation rate and diameter; angle of attack, induced velocities and the table of distributions follow from the induced angle.  The induced angle itself: with any lift curve and any blade whose angles stay within bounds, the search, stopped at a tenth of a radian, brackets a change of sign of blade loading less induced momentum with tip loss and lies between zero and the zero lift angle.  Outside: the search beyond the first three halvings (same loop), the choice among several solutions.'
FK, MK = ('FX', 'FY', 'FZ'), ('MX', 'MY', 'MZ')


def craft(env, n, rot='CCW', o=(0, 0), d=None, k=None, chord=None):
    ap = make_airplane(env, [0, 0, 0])
    d = env.real('d', 0.2, 6) if d is None else d
    ap.add_prop('p', position=[0, 0, 0], orientation=list(o), nodes=n, diameter=d, hub_diameter=d * env.real('hub', 0.1, 0.3),
                num_of_blades=k or env.real('blades', 1, 16), rot_dir=rot, **({} if chord is None else dict(chord_info=chord)))
    return env.m.MU.MachUp(inputAirplane=ap), d


def stations(pm):
    return range(len(pm.get_radial_position()))


def simpson(env, y, h):
    """composite Simpson rule, even number of intervals; three eighths would not do"""
    return h / 3 * (y[0] + y[-1] + 4 * sum(y[1:-1:2]) + 2 * sum(y[2:-1:2]))


def state(env):
    return dict(V_mag=env.real('V', 0.5, 500), rho=env.real('rho', 0.001, 1.3))


def section(env, pm, d):
    """terms of the section loads at every station"""
    r, c, ei, einf, al = pm.get_radial_position(), pm.get_chord(), pm.get_induced_angle(), pm.get_advance_angle(), pm.get_alpha()
    CL, CLa, CD = pm.get_coefficients_alpha(al)
    k = pm.get_num_blades()
    out = []
    for i in stations(pm):
        z, e = 2 * r[i] / d, ei[i] + einf[i]
        s = k * c[i] / d
        x = env.cos(ei[i]) ** 2 * s
        ce, se, t = env.cos(e), env.sin(e), env.tan(einf[i])
        axial, round_ = CL[i] * ce - CD[i] * se, CD[i] * ce + CL[i] * se
        q = env.cos(einf[i]) ** 2
        out.append(dict(z=z, CT=z * z * x / q * axial, CQ=z ** 3 * x / q * round_,
                        CN=z * z * x * (2 * t * round_ - t * t * (CL[i] * ce - (CLa[i] + CD[i]) * se)),
                        Cn=z ** 3 * x * (2 * t * axial + t * t * ((CLa[i] + CD[i]) * ce + CL[i] * se))))
    return out


def integrals(env, n, rot='CCW', rate=False, oblique=False):
    """loads are the integrals of the section loads"""
    blade_env(env)
    env.hint_root(1)
    mu, d = craft(env, n, rot)
    st = state(env)
    J = env.real('J', 0.05, 3)
    N = st['V_mag'] / (J * d)
    if oblique:
        st['alpha'] = env.real('alpha', 0.01, 75)
        st['beta'] = env.real('beta', -75, -0.01)
    R = mu.myprops.solve(st, {'rot_per_sec': N} if rate else {'J': J})[0]['total']
    pm = mu.myprops.get_prop_models()[0]
    s = section(env, pm, d)
    h = (s[-1]['z'] - s[0]['z']) / (n - 1)
    I = {k: simpson(env, [x[k] for x in s], h) for k in ('CT', 'CQ', 'CN', 'Cn')}
    q = st['rho'] * N * N * d ** 4 * env.pi ** 2
    w = 1 if rot == 'CCW' else -1
    if not oblique:
        env.eq('thrust', R['Thrust'], q / 4 * I['CT'], scale=1)
        env.eq('torque', R['Torque'], -w * q * d / 8 * I['CQ'], scale=1)
        return
    u = direction(env, st['alpha'], st['beta'])
    t = [0, u[1], u[2]]
    x = -u[0]
    for c in (x < 1, x > 0, env.acos(x) > 0, env.sqrt(dot(t, t)) > 0):
        env.assume(c)
    ang, l = env.acos(x), env.sqrt(dot(t, t))
    for k in (1, 2):
        env.eq('transverse force ' + 'xyz'[k], R[FK[k]], q / 8 * I['CN'] * ang * t[k] / l, scale=1)
        env.eq('transverse moment ' + 'xyz'[k], R[MK[k]], w * q * d / 16 * I['Cn'] * ang * t[k] / l, scale=1)


def velocities(env, n=3, rot='CCW'):
    """angles and induced velocities of the stations; table of distributions"""
    env.expand_atan2()
    blade_env(env)
    mu, d = craft(env, n, rot)
    st = state(env)
    J = env.real('J', 0.05, 3)
    N = st['V_mag'] / (J * d)
    mu.solve(aero_state=st, prop_state={'J': J})
    pm = mu.myprops.get_prop_models()[0]
    T = mu.distributions(aero_state=st, prop_state={'J': J})[1]
    r, ei, einf, b = pm.get_radial_position(), pm.get_induced_angle(), pm.get_advance_angle(), pm.get_aero_pitch_angle()
    CL, CLa, CD = pm.get_coefficients_alpha(pm.get_alpha())
    hub = env.real('hub', 0.1, 0.3)
    for i in stations(pm):
        env.eq('station %d at' % i, r[i], d / 2 * (hub + (env.rat(999, 1000) - hub) * env.rat(i, n - 1)))
        env.eq('advance angle %d' % i, env.sin(einf[i]) * 2 * env.pi * r[i], J * d * env.cos(einf[i]))
        env.lt('advance angle %d above zero' % i, 0, einf[i])
        env.lt('advance angle %d below a right angle' % i, einf[i], env.pi / 2)
        env.eq('angle of attack %d' % i, pm.get_alpha()[i], b[i] - einf[i] - ei[i], scale=1)
        vi = 2 * env.pi * N * r[i] * env.sin(ei[i]) / env.cos(einf[i])
        e = ei[i] + einf[i]
        for k, x in (('radial_position', r[i]), ('chord', pm.get_chord()[i]), ('pitch', env.deg(b[i])), ('advance_angle', env.deg(einf[i])), ('induced_angle', env.deg(ei[i])),
                     ('alpha', env.deg(b[i] - einf[i] - ei[i])), ('section_CL', CL[i]), ('section_CD', CD[i]), ('Vi', vi), ('Vi_x', vi * env.cos(e)), ('Vi_t', vi * env.sin(e))):
            env.eq('%s %d' % (k, i), T[k][i], x, scale=1)


def balance(env, n=2, chord=None, wide=False):
    """the search for the induced angle"""
    if env.symbolic:
        blade_env(env, ei='coarse')
    mu, d = craft(env, n, chord=chord, k=None if wide else 2)
    st = state(env)
    J = env.real('J', 0.5, 0.9) if not wide else env.real('J', 0.3, 1.1)
    pm = mu.myprops.get_prop_models()[0]
    r, b, c, k = pm.get_radial_position(), pm.get_aero_pitch_angle(), pm.get_chord(), pm.get_num_blades()
    einf = [env.atan2(J, env.pi * (2 * r[i] / d)) for i in stations(pm)]
    far = [b[i] - einf[i] for i in stations(pm)]
    lim = env.rat(8, 10) if wide else env.rat(2, 5)
    for x in far:
        env.assume(env.And(x < lim, x > -lim))
    mu.myprops.solve(st, {'J': J})
    ei = pm.get_induced_angle()

    if env.symbolic:
        lift = env.m.propmodel.PropModel._get_CL

        def CL(i, a):
            return lift(pm, [a if j == i else env.rat(0) for j in stations(pm)])[i]
    else:
        def CL(i, a):
            return pm.get_coefficients_alpha(env.array([a] * len(r)))[0][i]
    tip = b[len(r) - 1]

    def f(i, e):
        z = 2 * r[i] / d
        loss = env.acos(env.exp(-k * (1 - z) / (2 * env.sin(tip))))
        return k * c[i] / (8 * z * d) * CL(i, b[i] - einf[i] - e) - loss * env.tan(e) * env.sin(einf[i] + e)

    if not env.symbolic:
        for i in stations(pm):
            h, s = 1e-6, (1 if far[i] > 0 else -1)
            env.le('above zero, station %d' % i, 0, s * ei[i], tol=1e-9)
            env.le('up to the angle of no lift, station %d' % i, s * ei[i], s * far[i], tol=1e-9)
            env.le('balance below, station %d' % i, 0, s * f(i, ei[i] - s * h), tol=1e-9)
            env.le('balance above, station %d' % i, s * f(i, ei[i] + s * h), 0, tol=1e-9)
        return
    m = 0
    while bool(env.Or(*[env.abs(x) / 2 ** m > env.rat(1, 10) for x in far])):
        m += 1
        if m > 4:
            env.fail('search ends')
            return
    for i in stations(pm):
        where = [env.rat(2 * j + 1, 2 ** (m + 1)) * far[i] for j in range(2 ** m)]
        env.check('in one of the intervals, station %d' % i, env.Or(far[i] == 0, *[ei[i] == w for w in where]))
        s = env.ite(far[i] > 0, env.rat(1), env.rat(-1))
        for j, w in enumerate(where):
            here = env.And(ei[i] == w, env.Not(far[i] == 0))
            if j:
                env.check('loading exceeds momentum below, station %d interval %d' % (i, j), env.implies(here, s * f(i, env.rat(j, 2 ** m) * far[i]) > 0))
            if j < 2 ** m - 1:
                env.check('momentum exceeds loading above, station %d interval %d' % (i, j), env.implies(here, s * f(i, env.rat(j + 1, 2 ** m) * far[i]) <= 0))


def precise(env, up=True, n=2):
    """the whole search, for section lifts that balance at a given share of the way to the angle of no lift"""
    env.branch_where()
    if env.symbolic:
        blade_env(env, ei=None)
    mu, d = craft(env, n, k=2)
    st = state(env)
    J = env.real('J', *((0.2, 0.45) if up else (0.8, 1.2)))
    pm = mu.myprops.get_prop_models()[0]
    r, b, c, k = pm.get_radial_position(), pm.get_aero_pitch_angle(), pm.get_chord(), pm.get_num_blades()
    einf = [env.atan2(J, env.pi * (2 * r[i] / d)) for i in stations(pm)]
    far = [b[i] - einf[i] for i in stations(pm)]
    share = [env.rat(37, 100), env.rat(61, 1000), env.rat(9, 10)]
    for i in stations(pm):
        env.assume(far[i] > env.rat(1, 1000) if up else far[i] < -env.rat(1, 1000))
        env.assume(env.And(far[i] < 1, far[i] > -1))
    g = env.real('steepness', 1, 50)
    tip = b[len(r) - 1]
    PM = env.m.propmodel.PropModel
    PM._get_CL

    def lift(self, alpha):
        out = []
        for i in stations(pm):
            z = 2 * r[i] / d
            e = b[i] - einf[i] - alpha[i]
            loss = env.acos(env.exp(-k * (1 - z) / (2 * env.sin(tip))))
            out.append((loss * env.tan(e) * env.sin(einf[i] + e) + g * (share[i] * far[i] - e)) / (k * c[i] / (8 * z * d)))
        return env.array(out)
    PM._get_CL = lift
    mu.myprops.solve(st, {'J': J})
    ei = pm.get_induced_angle()
    for i in stations(pm):
        env.le('within a millionth, station %d' % i, env.abs(ei[i] - share[i] * far[i]), env.rat(1, 1000000))


HARNESSES = [H('precision ' + n, lambda e, u=u: precise(e, u), bounds='2 stations, search to the end') for n, u in (('up', True), ('down', False))]
for n in (3, 5):
    for rot in ('CCW', 'CW'):
        HARNESSES.append(H('integrals, %d stations, %s' % (n, rot), lambda e, n=n, r=rot: integrals(e, n, r), bounds='%d stations' % n))
        HARNESSES.append(H('transverse integrals, %d stations, %s' % (n, rot), lambda e, n=n, r=rot: integrals(e, n, r, oblique=True), bounds='%d stations' % n))
HARNESSES += [H('integrals, rotation rate', lambda e: integrals(e, 3, rate=True), bounds='3 stations'), H('velocities', velocities, bounds='3 stations'), H('velocities, clockwise', lambda e: velocities(e, 4, 'CW'), bounds='4 stations'),
              H('balance', balance, bounds='2 stations, up to 2 halvings'), H('balance, wide', lambda e: balance(e, wide=True), bounds='2 stations, up to 3 halvings'),
              H('integrals, 9 stations', lambda e: integrals(e, 9, 'CW'), bounds='9 stations', thorough_only=True)]
