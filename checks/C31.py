from .proplib import *

COVERAGE = 'One propeller of 3 (thorough: 11) stations at any place, any orientation, either sense of rotation, any speed and advance ratio, any angles of attack and sideslip, any induced velocities that leave the flow through the disk positive, one point at any place: ahead of the propeller, beside its disk, within the hub radius or outside the contracted tube the velocity is that of the freestream; at a place between two stations it is that plus an axial part along the axis away from the propeller and a swirl about it in the sense of rotation, interpolated between the stations of the tube contracted so that the flow of each annulus is kept, the axial velocity developing from its value at the disk to twice that far behind; local density is that of the freestream; two propellers and several points at once: sum of each alone.  Outside: the boundary circles themselves, reversed flow, models not used by the solver (Goates, far-field fits).'


def axis(env, o):
    e, h = env.rad(o[0]), env.rad(o[1])
    f = [env.cos(e) * env.cos(h), env.cos(e) * env.sin(h), -env.sin(e)]
    g = [-env.sin(h), env.cos(h), 0]
    return f, g, cross(f, g)


def place(env, p='p'):
    return [env.real(p + '_' + c, -20, 20) for c in 'xyz']


def craft(env, props):
    """(position, orientation, sense, stations, diameter) of each"""
    ap = make_airplane(env, [0, 0, 0])
    for k, (pos, o, rot, n, d) in enumerate(props):
        ap.add_prop('p%d' % k, position=pos, orientation=list(o), rot_dir=rot, nodes=n, diameter=d, hub_diameter=d / 4, num_of_blades=2)
    return ap


def state(env, angles=False):
    st = dict(V_mag=env.real('V', 0.5, 300), rho=env.real('rho', 0.0005, 20))
    if angles:
        st.update(alpha=env.real('alpha', -75, 75), beta=env.real('beta', -75, 75))
    return st


def solver(env, ap, points):
    return env.m.propssolver.PropsSolver(ap, env.array(points))


def wash(env, ap, points, st, J):
    """change of velocity at the points; density there is checked"""
    ps = solver(env, ap, points)
    v = ps.solve(st, {'J': J})[1]
    u = scal(st['V_mag'], direction(env, st.get('alpha', 0), st.get('beta', 0)))
    for i in range(len(points)):
        env.eq('density at point %d' % i, v[i][0], st['rho'])
    return ps.get_prop_models(), [sub([v[i][1], v[i][2], v[i][3]], u) for i in range(len(points))]


def start(env, cut=False):
    blade_env(env)
    env.hint_root(1)
    PM = env.m.propmodel.PropModel
    if env.symbolic and cut and hasattr(PM, '_find_Vi'):
        # what the stations induce: any functions of the radius
        orig = PM._find_Vi
        fun = [env.ufun('axial', lambda r: 2 + math.sin(3 * r)), env.ufun('swirl', lambda r: 1 + 0.3 * math.cos(5 * r))]

        def find(self, *a, **k):
            out = orig(self, *a, **k)
            for get, f in zip((self.get_axial_Vi, self.get_tangential_Vi), fun):
                v = get()
                new = env.array([f(x) for x in self.get_radial_position()])
                for n, w in list(vars(self).items()):
                    if w is v:
                        setattr(self, n, new)
            return out
        PM._find_Vi = find
        return fun


def untouched(env, where, rot='CCW', straight=False, near=False):
    start(env)
    o = [0, 0] if straight else [env.real('elevation', -85, 85), env.real('heading', -175, 175)]
    pos, d = place(env), env.real('d', 0.3, 12)
    st = state(env, True)
    J = env.real('J', 0.8, 1.2) if near else env.real('J', 0.05, 3)
    if straight:
        pt = [env.real('x_' + c, -30, 30) for c in 'xyz']
        t, b = pt[0] - pos[0], [pt[1] - pos[1], pt[2] - pos[2]]
        if where == 'ahead':
            env.assume(t > 0)
        else:
            env.assume(t < 0)
            env.assume(env.sqrt(b[0] * b[0] + b[1] * b[1]) > d / 2)
    else:
        f, g, h = axis(env, o)
        s, r, w = env.real('s', 0.01, 80), env.real('q', 1.0005, 1.02) * d / 2 if near else env.real('r', 0.01, 30), env.rad(env.real('around', -180, 180))
        side = add(scal(env.cos(w), g), scal(env.sin(w), h))
        pt = add(add(pos, scal(s if where == 'ahead' else -s, f)), scal(r, side))
        if where == 'beside':
            env.assume(r > d / 2)
    dv = wash(env, craft(env, [(pos, o, rot, 3, d)]), [pt], st, J)[1][0]
    env.eq('velocity', dv, [0, 0, 0], scale=1)


def tube(env, pm, st, d, s, fun=None):
    """radii of the contracted tube, axial and swirl velocities there, a distance s behind"""
    r = pm.get_radial_position()
    Vx, Vt = [[f(x) for x in r] for f in fun] if fun else (pm.get_axial_Vi(), pm.get_tangential_Vi())
    n = len(r)
    kd = 1 + s / env.sqrt(s * s + d * d / 4)
    R2 = [r[0] * r[0]]
    for i in range(1, n):
        m = Vx[i] + Vx[i - 1]
        a, b = 2 * st['V_mag'] + m, 2 * st['V_mag'] + kd * m
        # flow through the disk is not reversed
        env.assume(env.And(a > 0, b > 0))
        R2.append(R2[-1] + (r[i] * r[i] - r[i - 1] * r[i - 1]) * (a / b))
    R = [env.sqrt(x) if i else r[0] for i, x in enumerate(R2)]
    core = n // 10
    # the inmost tenth of the stations turns like a solid body
    X = [kd * v for v in Vx]
    W = [2 * Vt[i] * r[i] / R[i] for i in range(n)]
    for i in range(core):
        W[i] = W[core] * R[i] / R[core]
    return R, X, W


def inside(env, k, n=3, rot='CCW', straight=False, angles=False):
    """between stations k and k + 1 of the contracted tube; k None: within the hub, n - 1: outside the tube"""
    fun = start(env, True)
    env.branch_interp()
    o = [0, 0] if straight else [env.real('elevation', -85, 85), env.real('heading', -175, 175)]
    pos, d = place(env), env.real('d', 0.3, 12)
    st = state(env, angles)
    J = env.real('J', 0.05, 3)
    f, g, h = axis(env, o)
    s, q, w = env.real('s', 0.01, 80), env.real('fraction', 0.01, 0.99), env.rad(env.real('around', -180, 180))
    r = q * d / 2
    side = add(scal(env.cos(w), g), scal(env.sin(w), h))
    pt = add(add(pos, scal(-s, f)), scal(r, side))
    ps = solver(env, craft(env, [(pos, o, rot, n, d)]), [pt])
    if env.symbolic:
        env.hint_root(1, r, 2 * r)
        u = direction(env, st.get('alpha', 0), st.get('beta', 0))
        x = -dot(u, f)
        t = sub(u, scal(dot(u, f), f))
        for c in (x < 1, x > -1, env.acos(x) > 0, env.sqrt(dot(t, t)) > 0) if angles or not straight else ():
            env.assume(c)
        R, X, W = tube(env, ps.get_prop_models()[0], st, d, s, fun)
        if k is None:
            env.assume(r < R[0])
        elif k == n - 1:
            env.assume(r > R[k])
        else:
            env.assume(r < R[k + 1])
            for i in range(k + 1):
                env.assume(r > R[i])
        if env.symbolic:
            for i in range(n - 1):
                env.assume(R[i] < R[i + 1])
    v = ps.solve(st, {'J': J})[1][0]
    env.eq('density', v[0], st['rho'])
    dv = sub([v[1], v[2], v[3]], scal(st['V_mag'], direction(env, st.get('alpha', 0), st.get('beta', 0))))
    if not env.symbolic:
        R, X, W = tube(env, ps.get_prop_models()[0], st, d, s)
        if r < R[0]:
            k = None
        else:
            k = max(i for i in range(n) if R[i] <= r)
    if k is None or k == n - 1:
        env.eq('velocity', dv, [0, 0, 0], scale=1)
        return
    a = (r - R[k]) / (R[k + 1] - R[k])
    x, t = X[k] + (X[k + 1] - X[k]) * a, W[k] + (W[k + 1] - W[k]) * a
    sense = 1 if rot == 'CCW' else -1
    swirl = cross(f, side)
    env.eq('axial velocity', -dot(dv, f), x, scale=1)
    env.eq('swirl', dot(dv, swirl), sense * t, scale=1)
    env.eq('radial velocity', dot(dv, side), 0, scale=1)


def several(env):
    """two propellers, three points"""
    start(env)
    st = state(env)
    J = env.real('J', 0.05, 3)
    two = [([0, 0, 0], [0, 0], 'CCW', 3, env.real('d0', 1, 2)), ([env.rat(1, 2), env.rat(1, 2), 0], [0, 0], 'CW', 3, env.real('d1', 1, 2))]
    points = [[-1, env.rat(1, 5), env.rat(1, 10)], [-2, env.real('y1', 0.05, 1), env.rat(1, 10)], [2, 0, env.rat(1, 10)]]
    both = wash(env, craft(env, two), points, st, J)[1]
    each = [wash(env, craft(env, [x]), points, st, J)[1] for x in two]
    for i in range(3):
        env.eq('velocity at point %d' % i, both[i], add(each[0][i], each[1][i]), scale=1)


def apart(env):
    """several points at once: each as if it were alone"""
    start(env)
    st = state(env)
    J = env.real('J', 0.05, 3)
    p = [([0, 0, 0], [0, 0], 'CW', 3, env.real('d0', 1, 2))]
    points = [[-1, env.rat(1, 5), env.rat(1, 10)], [1, env.real('y1', 0.05, 1), env.rat(1, 10)], [-2, env.rat(-1, 5), env.rat(1, 10)], [-2, env.rat(7, 2), env.rat(1, 10)]]
    all_ = wash(env, craft(env, p), points, st, J)[1]
    for i, x in enumerate(points):
        env.eq('velocity at point %d' % i, all_[i], wash(env, craft(env, p), [x], st, J)[1][0], scale=1)


B = '3 stations, one point'
HARNESSES = [H('two propellers', several, bounds='2 propellers of 3 stations, 3 points'), H('points apart', apart, bounds='3 stations, 4 points')]
HARNESSES.append(H('just beside', lambda e: untouched(e, 'beside', near=True), bounds=B))
for where in ('ahead', 'beside'):
    HARNESSES.append(H(where, lambda e, w=where: untouched(e, w), bounds=B))
    HARNESSES.append(H(where + ', axis along x', lambda e, w=where: untouched(e, w, 'CW', True), bounds=B))
for k, name in ((None, 'within the hub'), (0, 'inner annulus'), (1, 'outer annulus'), (2, 'outside the tube')):
    HARNESSES.append(H(name, lambda e, k=k: inside(e, k), bounds=B))
    HARNESSES.append(H(name + ', clockwise, axis along x', lambda e, k=k: inside(e, k, rot='CW', straight=True, angles=True), bounds=B))
for k, name in ((0, 'solid core'), (1, 'second annulus')):
    HARNESSES.append(H(name, lambda e, k=k: inside(e, k, n=10, straight=True), budget=200, bounds='10 stations, one point'))
