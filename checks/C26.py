from .proplib import *
from .C24 import alike

COVERAGE = 'Any speed (0.1 to 300), diameter, advance ratio or rate (zero and negative advance included), density and angles: the advance ratio read back from the advance angle of every station and the rotation rate read back from the induced velocities are the ones asked for; a ratio and the equivalent rate give the same results; states by name against states applied alone; every incomplete state rejected; shaft power and motor torque at the operating point found for a given power or throttle, for any blade section data.'


def craft(env, n=1, fixed=True, motor=False, units=None, nodes=3):
    ap = make_airplane(env, [0, 0, 0])
    if units is not None:
        ap._units = units
    for k in range(n):
        d = dict(position=[1, 0.5 * k, 0.25 * k], orientation=[4 * k, -3 * k], nodes=nodes, diameter=env.real('d%d' % k, 1, 3), hub_diameter=0.2, num_of_blades=2 + k)
        if motor:
            d['electric_motor'] = motor
        ap.add_prop('p%d' % k, **d)
    return env.m.MU.MachUp(inputAirplane=ap)


def aero(env, p='', angle=False):
    st = dict(V_mag=env.real(p + 'V', 0.1, 300), rho=env.real(p + 'rho', 0.001, 1.3))
    if angle:
        st.update(alpha=6, beta=-3)
    return st


def run(mu, st, ps):
    """results, distributions"""
    r = mu.solve(aero_state=st, prop_state=ps)
    return r, mu.distributions(aero_state=st, prop_state=ps)[1]


def point(env, d, J, n, slot=slice(None), diam=None):
    """operating point seen in the distributions"""
    for i in range(len(d['name']))[slot]:
        r = d['radial_position'][i]
        adv, ind = env.rad(d['advance_angle'][i]), env.rad(d['induced_angle'][i])
        env.eq('advance angle of station %d' % i, d['advance_angle'][i], env.deg(env.atan2(J, env.pi * (2 * r / diam))))
        env.eq('rate seen at station %d' % i, d['Vi'][i] * env.cos(adv), n * 2 * env.pi * r * env.sin(ind), scale=1)


def ratio(env, angle=False, n=1, between=(0.02, 5)):
    blade_env(env)
    mu = craft(env, n)
    st = aero(env, angle=angle)
    J = env.real('J', *between)
    r, d = run(mu, st, {'J': J})
    for k in range(n):
        dk = env.real('d%d' % k)
        point(env, d, J, st['V_mag'] / (J * dk), slice(3 * k, 3 * k + 3), dk)
    if n == 1:
        r2, d2 = run(mu, st, {'rot_per_sec': st['V_mag'] / (J * env.real('d0'))})
        alike(env, 'results at the same rate', r2, r)
        alike(env, 'sections at the same rate', {k: v for k, v in d2.items() if k != 'name'}, {k: v for k, v in d.items() if k != 'name'})


def rate(env, V=None, angle=False, J=None, between=(0.5, 600)):
    blade_env(env)
    mu = craft(env)
    st = aero(env, angle=angle)
    if V is not None:
        st['V_mag'] = V
    n = env.real('n', *between)
    ps = {'rot_per_sec': n}
    d0 = env.real('d0')
    if J is not None:
        ps['J'] = J
    r, d = run(mu, st, ps)
    point(env, d, st['V_mag'] / (n * d0) if J is None else J, n, diam=d0)


def zero(env):
    """no advance: the ratio is zero, the rate has to be given"""
    rate(env, V=0)


def zero_ratio(env):
    """a ratio of zero with a rate"""
    rate(env, J=0)


def zero_both(env):
    rate(env, V=0, J=0)


def incomplete(env):
    blade_env(env)
    mu = craft(env)
    st = aero(env)
    e = RuntimeError
    J, n = env.real('J', 0.1, 1), env.real('n', 5, 50)
    f = lambda st, ps: lambda: mu.solve(aero_state=st, prop_state=ps)
    env.check('zero ratio without a rate', raises(f(st, {'J': 0}), e))
    env.check('zero ratio without a rate (float)', raises(f(st, {'J': 0.0}), e))
    env.check('no speed, ratio without a rate', raises(f(dict(st, V_mag=0), {'J': J}), e))
    env.check('nothing known', raises(f(st, {'other': n}), e))
    env.check('throttle without a motor', raises(f(st, {'electric_throttle': 0.5}), e))
    env.check('no speed given', raises(f({'rho': st['rho']}, {'J': J}), e))
    env.check('no density given', raises(f({'V_mag': st['V_mag']}, {'J': J}), e))
    env.check('by name, zero ratio without a rate', raises(f(st, {'p0': {'J': 0}}), e))
    env.check('by name, nothing known', raises(f(st, {'p0': {'other': n}}), e))
    env.check('complete', not raises(f(st, {'J': J}), e))
    env.check('complete (rate)', not raises(f(st, {'rot_per_sec': n}), e))


def named(env, other='own', first=None):
    """two propellers in states of their own, against each alone in that state"""
    blade_env(env)
    both = craft(env, 2)
    st = aero(env, angle=True)
    s = [first or {'J': env.real('J0', 0.2, 1)}, {'rot_per_sec': env.real('n1', 5, 50)}]
    ps = {'p0': s[0], 'p1': s[1]} if other == 'own' else dict(s[1], p0=s[0]) if other == 'shared' else dict(s[0], p1=s[1])
    was = frozen(ps)
    r, d = run(both, st, ps)
    same(env, 'state given', ps, was)
    total = {k: 0 for k in r}
    for k in range(2):
        ap = make_airplane(env, [0, 0, 0])
        ap.add_prop('p%d' % k, position=[1, 0.5 * k, 0.25 * k], orientation=[4 * k, -3 * k], nodes=3, diameter=env.real('d%d' % k), hub_diameter=0.2, num_of_blades=2 + k)
        rk, dk = run(env.m.MU.MachUp(inputAirplane=ap), st, s[k])
        for x in r:
            total[x] = total[x] + rk[x]
        for x in d:
            for i in range(3):
                if x == 'name':
                    env.check('name of station %d' % (3 * k + i), str(d[x][3 * k + i]) == 'p%d' % k)
                else:
                    env.eq('%s of p%d at station %d' % (x, k, i), d[x][3 * k + i], dk[x][i])
    for x in r:
        env.eq('total ' + x, r[x], total[x], scale=1)


def again(env, first):
    """the state of one call does not linger in the next"""
    blade_env(env)
    mu, fresh = craft(env), craft(env)
    st = aero(env)
    mu.solve(aero_state=aero(env, 'other_', True), prop_state={'J': {'J': env.real('J1', 0.2, 1)}, 'n': {'rot_per_sec': env.real('n1', 5, 50)}}[first])
    J = env.real('J', 0.2, 1)
    alike(env, 'results', mu.solve(aero_state=st, prop_state={'J': J}), fresh.solve(aero_state=st, prop_state={'J': J}))


BRACKET = {'above': (16, 29, 15, 30), 'below': (8, 14, None, 15)}


def thrusts(env, mu, st, x):
    env.assume(mu.myprops.solve(st, {'rot_per_sec': x})[0]['total']['Thrust'] / (st['rho'] * x * x * env.real('d0') * env.real('d0') * env.real('d0') * env.real('d0')) > 0)


def hold(env, mu, st, where, more):
    """assumption: the rate looked for lies in a bracket the search begins with, where the propeller takes less than it is given at one end and more at the other (and thrusts)"""
    for x, up in ((BRACKET[where][2] or env.rat(15, 2), False), (BRACKET[where][3], True)):
        y = more(x)
        env.assume(y > 0 if up else y < 0)
        thrusts(env, mu, st, x)


def power(env, where):
    """shaft power"""
    blade_env(env, power=False)
    mu = craft(env)
    st = aero(env)
    st['V_mag'] = env.real('slow', 0.1, 15)
    n = env.real('n_' + where, *BRACKET[where][:2])
    r0 = mu.solve(aero_state=st, prop_state={'rot_per_sec': n})
    thrusts(env, mu, st, n)
    P = -TORQUE(mu, st, n) * 2 * env.pi * n
    env.hint_zero(n)
    hold(env, mu, st, where, lambda x: -TORQUE(mu, st, x) * 2 * env.pi * x - P)
    r, d = run(mu, st, {'brake_power': P})
    tol = {} if env.symbolic else {'tol': 1e-5}
    for k in r:
        env.eq(k, r[k], r0[k], scale=1, **tol)
    point(env, d, st['V_mag'] / (n * env.real('d0')), n, diam=env.real('d0'))


def throttle(env, units, where):
    """electric motor: its torque at the rate found is the torque of the propeller"""
    blade_env(env, power=False)
    m = dict(has_motor=True, motor_kv=env.real('kv', 500, 900), motor_resistance=env.real('Rm', 0.02, 0.08), motor_no_load_current=env.real('I0', 0.5, 2), gear_reduction=env.real('Gr', 1, 2),
             battery_resistance=env.real('Rb', 0.02, 0.06), battery_voltage=env.real('Eo', 10, 20), speed_control_resistance=env.real('Rc', 0.01, 0.04))
    mu = craft(env, motor=m, units=units)
    st = aero(env)
    st['V_mag'] = env.real('slow', 0.1, 15)
    n, t = env.real('n_' + where, *BRACKET[where][:2]), env.real('throttle', 0.2, 1)
    r0 = mu.solve(aero_state=st, prop_state={'rot_per_sec': n})
    thrusts(env, mu, st, n)
    ns = 1 - env.rat(79, 1000) * (1 - t)

    def motor(x, Eo):
        I = (ns * t * Eo - m['gear_reduction'] / m['motor_kv'] * 60 * x) / (ns * t * m['battery_resistance'] + m['speed_control_resistance'] + m['motor_resistance'])
        q = env.rat(70432, 10000) * m['gear_reduction'] / m['motor_kv'] * (I - m['motor_no_load_current'])
        return q if units == 'English' else q * env.rat(13558179483314, 10 ** 13)
    # the no-load current that makes n the rate looked for
    q = -TORQUE(mu, st, n)
    k = env.rat(70432, 10000) * m['gear_reduction'] / m['motor_kv'] * (1 if units == 'English' else env.rat(13558179483314, 10 ** 13))
    I = (ns * t * m['battery_voltage'] - m['gear_reduction'] / m['motor_kv'] * 60 * n) / (ns * t * m['battery_resistance'] + m['speed_control_resistance'] + m['motor_resistance'])
    m['motor_no_load_current'] = I - q / k
    mu = craft(env, motor=m, units=units)
    env.hint_zero(n)
    hold(env, mu, st, where, lambda x: -TORQUE(mu, st, x) - motor(x, m['battery_voltage']))
    r, d = run(mu, st, {'electric_throttle': t})
    tol = {} if env.symbolic else {'tol': 1e-5}
    for k in r:
        env.eq(k, r[k], r0[k], scale=1, **tol)
    point(env, d, st['V_mag'] / (n * env.real('d0')), n, diam=env.real('d0'))


def TORQUE(mu, st, n):
    return mu.myprops.solve(st, {'rot_per_sec': n})[0]['total']['Torque']


HARNESSES = [H('advance ratio', ratio, bounds='3 stations'), H('advance ratio, oblique inflow', lambda e: ratio(e, True), bounds='3 stations'), H('advance ratio, two propellers', lambda e: ratio(e, True, 2), bounds='2 x 3 stations'),
             H('rotation rate', rate, bounds='3 stations'), H('rotation rate, oblique inflow', lambda e: rate(e, angle=True), bounds='3 stations'), H('no speed', zero, bounds='3 stations'),
             H('negative ratio', lambda e: ratio(e, between=(-5, -0.02)), bounds='3 stations'), H('negative ratio, oblique inflow, two propellers', lambda e: ratio(e, True, 2, between=(-5, -0.02)), bounds='2 x 3 stations'),
             H('negative rate', lambda e: rate(e, between=(-600, -0.5)), bounds='3 stations'),
             H('zero ratio with a rate', zero_ratio, bounds='3 stations'), H('no speed and zero ratio with a rate', zero_both, bounds='3 stations'),
             H('incomplete states', incomplete, bounds='3 stations'), H('states by name', named, bounds='2 x 3 stations'), H('one by name, the other shared', lambda e: named(e, 'shared'), bounds='2 x 3 stations'), H('the other by name, one shared', lambda e: named(e, 'reverse'), bounds='2 x 3 stations'),
             H('states by name, ratio zero', lambda e: named(e, first={'J': 0, 'rot_per_sec': e.real('n0', 5, 50)}), bounds='2 x 3 stations'), H('states by name, ratio zero, the other shared', lambda e: named(e, 'shared', first={'J': 0., 'rot_per_sec': e.real('n0', 5, 50)}), bounds='2 x 3 stations'),
             H('states by name, rate first', lambda e: named(e, first={'rot_per_sec': e.real('n0', 5, 50), 'other': 1}), bounds='2 x 3 stations'),
             H('after a ratio', lambda e: again(e, 'J'), bounds='3 stations'), H('after a rate', lambda e: again(e, 'n'), bounds='3 stations')]
for w in BRACKET:
    HARNESSES.append(H('shaft power, rate %s the first guess' % w, lambda e, w=w: power(e, w), bounds='3 stations, one bracket step'))
    HARNESSES += [H('motor, %s units, rate %s the first guess' % (u, w), lambda e, w=w, u=u: throttle(e, u, w), bounds='3 stations, one bracket step') for u in ('English', 'SI')]
