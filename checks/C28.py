from .proplib import *

COVERAGE = 'get_coefficients_alpha of the propeller models at any angle within each regime, for any airfoil data (one airfoil, two along the blade, one inside the tip), chord to radius ratio and number of stations as stated: lift proportional to the angle with the slope of the airfoil up to 2 degrees beyond the stall delay, drag on the parabolic polar up to the delayed stall angle, beyond it lift blended into and drag taken from the post-stall curves of Viterna through the stall point, lift slope the central difference of lift; each at positive and negative angles (at negative angles the angle at which drag leaves the polar may have the delay added or subtracted).  Outside: angles beyond 90 degrees.'
LIM = (2, 180)


def af(env, p, where=None):
    d = dict(alpha_L0=env.real(p + '_aL0', -0.06, 0), CL_alpha=env.real(p + '_CLa', 5, 7), CL_max=env.real(p + '_CLmax', 1, 1.6), Cm_L0=0, Cm_alpha=0, CD0=env.real(p + '_CD0', 0.004, 0.02), CD0_L=env.real(p + '_CD0_L', -0.01, 0.01), CD0_L2=env.real(p + '_CD0_L2', 0.005, 0.02))
    if where is not None:
        d['span_position'] = where
    return d


KEYS2 = ('alpha_L0', 'CL_alpha', 'CL_max', 'CD0', 'CD0_L', 'CD0_L2')


def build(env, n, afs=1):
    """model, per station: data of the section, delay of stall"""
    ap = make_airplane(env, [0, 0, 0])
    D, root = 2, env.real('root', 0.1, 0.3)
    tip = env.real('tip', 0.05, 0.2)
    p = ap.add_prop('p0', nodes=n, diameter=D, hub_diameter=0.5, num_of_blades=2, chord_info=dict(type='linear', root=root, tip=tip))
    zs = [env.rat(1, 4) + (env.rat(999, 1000) - env.rat(1, 4)) * env.rat(i, n - 1) for i in range(n)]
    if afs == 1:
        a = af(env, 'af')
        p.airfoil('af', **a)
        data = [{k: a[k] for k in KEYS2} for z in zs]
    else:
        places = {2: (('root', zs[0]), ('tip', zs[-1])), 'inside': ((env.rat(1, 2), env.rat(1, 2)), (env.rat(7, 10), env.rat(7, 10)))}[afs]
        ds = [af(env, 'af%d' % k, w) for k, (w, z) in enumerate(places)]
        for k, d in enumerate(ds):
            p.airfoil('af%d' % k, **d)
        (_, z0), (_, z1) = places
        data = []
        for z in zs:
            t = min(max((z - z0) / (z1 - z0), env.rat(0)), env.rat(1)) if not env.symbolic else clamp(env, (z - z0) / (z1 - z0))
            data.append({k: ds[0][k] + (ds[1][k] - ds[0][k]) * t for k in KEYS2})
    pm = env.m.MU.MachUp(inputAirplane=ap).myprops.get_prop_models()[0]
    for i, (z, s) in enumerate(zip(zs, data)):
        cr = (root + (tip - root) * env.rat(i, n - 1)) / (z * D / 2)
        s['stall'] = s['CL_max'] / s['CL_alpha']
        s['delay'] = s['stall'] * ((env.rat(1517, 10000) / cr) ** (1 / 1.084) * cr / env.rat(136, 1000) - 1)
    return pm, data


def clamp(env, t):
    t = env.T.lift(t)
    return env.rat(0) if t.data <= 0 else env.rat(1) if t.data >= 1 else t


def viterna(env, a, amax, CLmax, sign=1):
    """lift beyond stall, through the stall point"""
    m = env.rat(129, 100)
    s, c = env.sin(amax), env.cos(amax)
    return m / 2 * env.sin(2 * a) + (CLmax - m * s * c) * s / (c * c) * env.cos(a) * env.cos(a) / env.sin(a)


def lift(env, a, s, sign):
    """lift at angle a > 0 of the section at positive (or negative) angles"""
    x = a - s['delay']
    CLa = s['CL_alpha']
    stall = s['stall'] if sign > 0 else s['stall'] + env.rat(3, 2) * s['alpha_L0']
    step = tanh(env, env.deg(x - stall)) / 2 + env.rat(1, 2)
    return (1 - step) * CLa * x + step * viterna(env, x, stall, stall * CLa) + CLa * s['delay']


def tanh(env, x):
    return env.T.lift(x).tanh() if env.symbolic else math.tanh(x)


def polar(s, CL):
    return s['CD0'] + s['CD0_L'] * CL + s['CD0_L2'] * CL * CL


def before(env, a, s, sign, way=1, margin=0):
    """assumption: before stall (or, way -1, beyond it); at negative angles whichever way the delay counts"""
    for k in (1, -1)[:1 if sign > 0 else 2]:
        env.assume(way * (s['stall'] + k * s['delay'] - a) > margin)


def sections(env, regime, n=2, afs=1, sign=1):
    pm, data = build(env, n, afs)
    al = []
    for i, s in enumerate(data):
        a = env.real('alpha%d_%s' % (i, regime), *dict(linear=(0.002, 0.12), blend=(0.03, 0.4), beyond=(0.1, 1.5), either=(0.03, 1.5))[regime])
        x = a - s['delay']
        env.assume(env.And(s['delay'] < s['stall'] / 2, s['delay'] > -s['stall'] / 4))
        edge = env.pi / 90
        if regime == 'linear':
            env.assume(env.And(x + env.rat(2, 1000) < edge, a < s['stall'] - env.abs(s['delay'])))
        elif regime == 'blend':
            env.assume(x > edge)
            before(env, a, s, sign)
        elif regime == 'either':
            env.assume(x > edge)
        else:
            env.assume(x > edge)
            before(env, a, s, sign, -1)
        al.append(sign * a)
    CL, CLa, CD = pm.get_coefficients_alpha(env.array(al))
    for i, s in enumerate(data):
        a = sign * al[i]
        if regime == 'linear':
            env.eq('lift of station %d' % i, CL[i], s['CL_alpha'] * al[i])
            env.eq('lift slope of station %d' % i, CLa[i], s['CL_alpha'], **({} if env.symbolic else {'tol': 1e-7}))
        else:
            env.eq('lift of station %d' % i, CL[i], sign * lift(env, a, s, sign), scale=1)
        if regime == 'beyond':
            env.eq('drag of station %d' % i, CD[i], stalled_drag(env, a, s, sign), scale=1)
        elif regime == 'either':
            # negative angles are said to stall sooner; where exactly is not fixed here
            env.eq('drag of station %d' % i, (CD[i] - polar(s, CL[i])) * (CD[i] - stalled_drag(env, a, s, sign)), 0, scale=1)
        else:
            env.eq('drag of station %d' % i, CD[i], polar(s, CL[i]), scale=1)


def stalled_drag(env, a, s, sign):
    m = env.rat(129, 100)
    d = s['stall'] + sign * s['delay']
    B2 = (polar(s, sign * s['CL_alpha'] * d) - m * env.sin(d) * env.sin(d)) / env.cos(d)
    return m * env.sin(a) * env.sin(a) + B2 * env.cos(a)


def slope(env, regime, sign=1):
    """lift slope is the rate of change of lift"""
    pm, data = build(env, 2)
    lo, hi = dict(linear=(0.002, 0.12), blend=(0.03, 0.4), beyond=(0.1, 1.5))[regime]
    al = [sign * env.real('alpha%d_%s' % (i, regime), lo, hi) for i in range(2)]
    for i, s in enumerate(data):
        x = sign * al[i] - s['delay'] - env.pi / 90
        env.assume(x < -env.rat(2, 1000) if regime == 'linear' else x > env.rat(2, 1000))
        env.assume(env.And(s['delay'] < s['stall'] / 2, s['delay'] > -s['stall'] / 4))
        before(env, sign * al[i], s, sign, -1 if regime == 'beyond' else 1, env.rat(2, 1000))
    h = env.rat(1, 1000)
    g = [pm.get_coefficients_alpha(env.array([a + k for a in al]))[0] for k in (h, -h)]
    CLa = pm.get_coefficients_alpha(env.array(al))[1]
    for i in range(2):
        env.eq('lift slope of station %d' % i, CLa[i], (g[0][i] - g[1][i]) / (2 * h), scale=1)


def mixed(env):
    """stations on both sides of zero at once"""
    pm, data = build(env, 3)
    al = [env.real('alpha%d' % i, *r) for i, r in enumerate(((-0.1, -0.002), (0.002, 0.1), (-0.1, -0.002)))]
    for i, s in enumerate(data):
        a = env.abs(al[i])
        env.assume(env.And(a - s['delay'] + env.rat(2, 1000) < env.pi / 90, a < s['stall'] - env.abs(s['delay'])))
    CL, CLa, CD = pm.get_coefficients_alpha(env.array(al))
    for i, s in enumerate(data):
        env.eq('lift of station %d' % i, CL[i], s['CL_alpha'] * al[i])
        env.eq('drag of station %d' % i, CD[i], polar(s, CL[i]), scale=1)


def zero(env):
    """no lift and the drag at zero lift at an angle of zero; finite at the angle of the stall delay"""
    pm, data = build(env, 2)
    for s in data:
        env.assume(env.And(s['delay'] > -env.rat(3, 100), s['delay'] < s['stall'] / 2))
    CL, CLa, CD = pm.get_coefficients_alpha(env.array([env.rat(0)] * 2))
    for i, s in enumerate(data):
        env.eq('lift of station %d' % i, CL[i], 0)
        env.eq('drag of station %d' % i, CD[i], s['CD0'])


HARNESSES = [H('around stall, negative', lambda e: sections(e, 'either', sign=-1), bounds='2 stations'), H('zero', zero, bounds='2 stations'), H('both signs', mixed, bounds='3 stations')]
for sign, w in ((1, 'positive'), (-1, 'negative')):
    for r in ('linear', 'blend', 'beyond'):
        HARNESSES.append(H('%s, %s' % (r, w), lambda e, r=r, s=sign: sections(e, r, sign=s), bounds='2 stations'))
        HARNESSES.append(H('%s, %s, slope' % (r, w), lambda e, r=r, s=sign: slope(e, r, s), bounds='2 stations'))
        HARNESSES.append(H('%s, %s, two airfoils' % (r, w), lambda e, r=r, s=sign: sections(e, r, n=3, afs=2, sign=s), bounds='3 stations'))
HARNESSES.append(H('linear, airfoils inside', lambda e: sections(e, 'linear', n=3, afs='inside'), bounds='3 stations'))
HARNESSES.append(H('beyond, airfoils inside', lambda e: sections(e, 'beyond', n=3, afs='inside'), bounds='3 stations'))
