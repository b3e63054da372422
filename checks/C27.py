from .proplib import *

COVERAGE = 'Every pitch type (default, ratio, value, table of degrees over r/R) and chord type (default, linear with and without tip, elliptical, table of c/R over r/R) for any diameter, hub, values, pitch increment and zero-lift angle, with one airfoil and with two or three along the blade: stations, chord, zero-lift angle and aerodynamic pitch angle (chord line angle less zero-lift angle plus increment) of the models, and their columns in the distributions; unknown types are rejected.'


def section(env, p, where=None):
    d = dict(alpha_L0=env.real(p + '_aL0', -0.15, 0.1), CL_alpha=env.real(p + '_CLa', 5, 7), CL_max=env.real(p + '_CLmax', 1, 2), Cm_L0=0, Cm_alpha=0, CD0=0.01, CD0_L=0, CD0_L2=0.01)
    if where is not None:
        d['span_position'] = where
    return d


def table(env, name, c, xs):
    """rows of a smooth function (a cubic)"""
    return env.put_table(name, [[x, c[0] + c[1] * x + c[2] * x * x + c[3] * x * x * x] for x in xs])


XS = (0.1, 0.3, 0.6, 1.0)


def build(env, pitch=None, chord=None, n=3, inc=False, afs=1, hub=True, blades=2):
    ap = make_airplane(env, [0, 0, 0])
    D = env.real('d', 1, 40)
    kw = dict(position=[0.5, 0, 0], nodes=n, diameter=D, num_of_blades=blades)
    if hub:
        kw['hub_diameter'] = env.real('hub', 0.05, 0.4)
    else:
        kw['nodes'] = n
    H0 = kw.get('hub_diameter', D / 10)
    zs = [(H0 / D + (env.rat(999, 1000) - H0 / D) * env.rat(i, n - 1)) for i in range(n)]
    info = lambda z: env.rat(1, 2) / (env.pi * z)
    if pitch is not None:
        v = env.real('pitch', 0.05, 5)
        pi = dict(type=pitch)
        if pitch == 'ratio':
            pi['value'] = v
            info = lambda z: v / (env.pi * z)
        elif pitch == 'value':
            pi['value'] = v
            info = lambda z: v / D / (env.pi * z)
        elif pitch == 'from_file':
            c = [env.real('pitch_%d' % k, a, b) for k, (a, b) in enumerate(((30, 40), (-30, -10), (-4, 4), (-2, 2)))]
            pi['filename'] = table(env, 'pitch.txt', c, XS)
            info = lambda z: env.tan(env.rad(c[0] + c[1] * z + c[2] * z * z + c[3] * z * z * z))
        if inc:
            pi['pitch_increment'] = 0 if inc == 'zero' else env.real('increment_' + inc, *((0.01, 40) if inc == 'up' else (-40, -0.01)))
        kw['pitch_info'] = pi
    cf = lambda z: env.rat(75, 1000) * D * env.sqrt(1 - z * z)
    if chord is not None:
        ci = dict(type=chord if chord != 'constant' else 'linear')
        root, tip = env.real('root_chord', 0.001, 2), env.real('tip_chord', 0, 2)
        if chord in ('linear', 'constant', 'elliptical'):
            ci['root'] = root
        if chord == 'linear':
            ci['tip'] = tip
            cf = lambda z: root + (tip - root) * (z - zs[0]) / (zs[-1] - zs[0])
        elif chord == 'constant':
            cf = lambda z: root
        elif chord == 'elliptical':
            cf = lambda z: root * env.sqrt(1 - z * z)
        elif chord == 'from_file':
            cc = [env.real('chord_%d' % k, a, b) for k, (a, b) in enumerate(((0.2, 0.3), (-0.1, 0.1), (-0.05, 0.05), (-0.05, 0.05)))]
            ci['filename'] = table(env, 'chord.txt', cc, XS)
            cf = lambda z: (cc[0] + cc[1] * z + cc[2] * z * z + cc[3] * z * z * z) * D / 2
        kw['chord_info'] = ci
    p = ap.add_prop('p0', **kw)
    if afs == 0:
        L0 = lambda z: env.rat(-369, 10000)
    elif afs == 1:
        p.airfoil('af', **section(env, 'af'))
        L0 = lambda z: env.real('af_aL0')
    else:
        places = {2: (('root', zs[0]), ('tip', zs[-1])), 3: (('root', zs[0]), (0.5, env.rat(1, 2)), ('tip', zs[-1])), 'inside': ((0.55, env.rat(55, 100)), (0.8, env.rat(8, 10))), 'turned': (('tip', zs[-1]), ('root', zs[0]))}[afs]
        for k, (w, z) in enumerate(places):
            p.airfoil('af%d' % k, **section(env, 'af%d' % k, w))
        pts = [(z, env.real('af%d_aL0' % k)) for k, (w, z) in enumerate(places)]
        if afs == 'turned':
            pts = pts[::-1]

        def L0(z):
            r = pts[-1][1]
            for (a, x), (b, y) in reversed(list(zip(pts, pts[1:]))):
                r = env.ite(z < b, x + (y - x) * (z - a) / (b - a), r)
            return env.ite(z < pts[0][0], pts[0][1], r)
    mu = env.m.MU.MachUp(inputAirplane=ap)
    return mu, D, zs, info, cf, L0, (kw.get('pitch_info') or {}).get('pitch_increment', 0)


def geometry(env, table=False, **k):
    env.expand_atan2()
    if table:
        blade_env(env)
    mu, D, zs, info, cf, L0, inc = build(env, **k)
    pm = mu.myprops.get_prop_models()[0]
    r, c, a, b = pm.get_radial_position(), pm.get_chord(), pm.get_zero_lift_alpha(), pm.get_aero_pitch_angle()
    n = len(zs)
    env.check('number of stations', len(r) == n and len(c) == n and len(b) == n and pm.get_num_nodes() == n)
    env.check('number of blades', pm.get_num_blades() == k.get('blades', 2))
    for i, z in enumerate(zs):
        env.eq('radius of station %d' % i, r[i], z * D / 2)
        env.eq('chord of station %d' % i, c[i], cf(z))
        env.eq('zero-lift angle of station %d' % i, a[i], L0(z), scale=1)
        t, u, base = info(z), env.tan(a[i]), b[i] - env.rad(inc)
        env.eq('pitch of station %d' % i, env.sin(base) * (1 + t * u), env.cos(base) * (t - u), scale=1)
        env.lt('pitch of station %d below 90 degrees' % i, base, env.rat(15708, 10000))
        env.lt('pitch of station %d above -90 degrees' % i, -env.rat(15708, 10000), base)
    if table:
        st = dict(V_mag=env.real('V', 5, 30), rho=env.real('rho', 0.1, 1.3))
        d = mu.distributions(aero_state=st, prop_state={'J': env.real('J', 0.3, 1)})[1]
        for i in range(n):
            for key, v in (('radial_position', r[i]), ('chord', c[i]), ('pitch', env.deg(b[i])), ('advance_angle', env.deg(pm.get_advance_angle()[i])), ('induced_angle', env.deg(pm.get_induced_angle()[i])), ('alpha', env.deg(pm.get_alpha()[i]))):
                env.eq('%s of station %d in the distributions' % (key, i), d[key][i], v)
            env.eq('angle of attack of station %d' % i, d['alpha'][i] + d['advance_angle'][i] + d['induced_angle'][i], d['pitch'][i], scale=1)


def several(env):
    """two different propellers do not share anything"""
    env.expand_atan2()
    ap = make_airplane(env, [0, 0, 0])
    spec = []
    for k in range(2):
        D, h, v, c = env.real('d%d' % k, 0.5, 4), env.real('hub%d' % k, 0.05, 0.4), env.real('pitch%d' % k, 0.3, 1.2), env.real('chord%d' % k, 0.1, 0.5)
        ap.add_prop('p%d' % k, nodes=3 + k, diameter=D, hub_diameter=h, num_of_blades=2 + k, pitch_info=dict(type='ratio', value=v), chord_info=dict(type='elliptical', root=c)).airfoil('af', **section(env, 'af%d' % k))
        spec.append((3 + k, D, h, v, c, env.real('af%d_aL0' % k)))
    for k, pm in enumerate(env.m.MU.MachUp(inputAirplane=ap).myprops.get_prop_models()):
        n, D, h, v, c, aL = spec[k]
        env.check('name %d' % k, pm.get_name() == 'p%d' % k)
        for i in range(n):
            z = h / D + (env.rat(999, 1000) - h / D) * env.rat(i, n - 1)
            env.eq('p%d: radius %d' % (k, i), pm.get_radial_position()[i], z * D / 2)
            env.eq('p%d: chord %d' % (k, i), pm.get_chord()[i], c * env.sqrt(1 - z * z))
            t, u, b = v / (env.pi * z), env.tan(aL), pm.get_aero_pitch_angle()[i]
            env.eq('p%d: pitch %d' % (k, i), env.sin(b) * (1 + t * u), env.cos(b) * (t - u), scale=1)


def unknown(env):
    for what in ('pitch_info', 'chord_info'):
        for t in ('unknown', '', 'Ratio'):
            ap = make_airplane(env, [0, 0, 0])
            ap.add_prop('p0', nodes=3, diameter=env.real('d', 1, 3), **{what: dict(type=t, value=env.real('v', 0.1, 1), root=env.real('c', 0.1, 0.3))})
            env.check('%s of type %r rejected' % (what, t), raises(lambda: env.m.MU.MachUp(inputAirplane=ap), RuntimeError))


B = '3 stations'
HARNESSES = [H('defaults', lambda e: geometry(e), bounds=B), H('defaults, airfoil left out', lambda e: geometry(e, afs=0), bounds=B), H('default hub', lambda e: geometry(e, hub=False), bounds=B)]
for p in ('default', 'ratio', 'value', 'from_file'):
    HARNESSES.append(H('pitch ' + p, lambda e, p=p: geometry(e, pitch=p), bounds=B))
    for i in ('up', 'down', 'zero'):
        HARNESSES.append(H('pitch %s, increment %s' % (p, i), lambda e, p=p, i=i: geometry(e, pitch=p, inc=i), bounds=B))
for c in ('default', 'linear', 'constant', 'elliptical', 'from_file'):
    HARNESSES.append(H('chord ' + c, lambda e, c=c: geometry(e, chord=c), bounds=B))
HARNESSES += [H('two airfoils', lambda e: geometry(e, pitch='ratio', chord='linear', afs=2), bounds=B), H('two airfoils, tip first', lambda e: geometry(e, pitch='value', chord='elliptical', afs='turned'), bounds=B),
              H('three airfoils', lambda e: geometry(e, pitch='from_file', chord='linear', afs=3, n=4), bounds='4 stations'), H('airfoils inside', lambda e: geometry(e, pitch='value', afs='inside'), bounds=B),
              H('distributions', lambda e: geometry(e, table=True, pitch='ratio', chord='linear', inc='up'), bounds=B), H('five stations', lambda e: geometry(e, pitch='value', chord='linear', n=5, blades=3), bounds='5 stations'),
              H('two stations', lambda e: geometry(e, pitch='ratio', chord='elliptical', n=2, blades=4), bounds='2 stations'),
              H('two propellers', several, bounds='3 and 4 stations'), H('unknown types', unknown)]
for p in ('default', 'ratio', 'value', 'from_file'):
    for c in ('linear', 'constant', 'elliptical', 'from_file'):
        HARNESSES.append(H('pitch %s with chord %s' % (p, c), lambda e, p=p, c=c: geometry(e, pitch=p, chord=c, inc='up', afs=2, n=5), bounds='5 stations', thorough_only=True))
