"""shared pieces of the harnesses: inputs and independently written reference formulas"""
from se.harness import H

AF = dict(alpha_L0=(-0.3, 0.3), CL_alpha=(2, 9), Cm_L0=(-0.5, 0.5), Cm_alpha=(-1, 1), CD0=(0, 0.1), CD0_L=(-0.05, 0.05), CD0_L2=(-0.01, 0.1), CL_max=(0.3, 4))


def airfoil(env, p):
    return {k: env.real('%s_%s' % (p, k), a, b) for k, (a, b) in AF.items()}


CONST_AF = dict(alpha_L0=-0.03, CL_alpha=6.2, Cm_L0=-0.05, Cm_alpha=0.02, CD0=0.007, CD0_L=-0.002, CD0_L2=0.006, CL_max=1.4)


def wing_dims(env, p, **fix):
    """symbolic wing dimensions (any of them can be fixed)"""
    d = {}

    def get(k, lo, hi, **kw):
        return fix[k] if k in fix else env.real('%s_%s' % (p, k), lo, hi, **kw)
    d['position'] = fix['position'] if 'position' in fix else [env.real('%s_dx' % p, -30, 30), env.real('%s_dy' % p, -20, 20), env.real('%s_dz' % p, -20, 20)]
    d['yoffset'] = get('yoffset', -2, 5)
    d['semispan'] = get('semispan', 0.01, 100)
    d['sweep'] = get('sweep', -75, 75)
    d['dihedral'] = get('dihedral', -80, 80)
    d['mount_angle'] = get('mount_angle', -60, 60)
    d['washout'] = get('washout', -45, 45)
    d['root_chord'] = get('root_chord', 0.01, 20)
    d['tip_chord'] = get('tip_chord', 0, 20)
    for k in fix:
        if k in ('grid', 'is_main'):
            d[k] = fix[k]
    return d


def root_tip(env, d, side, parent):
    """quarter-chord root and tip of one side, from the documented meaning of the dimensions.
    body axes: x forward, y right, z down; dihedral raises the tip (negative z); sweep moves the tip aft."""
    s = -1 if side == 'left' else 1
    px, py, pz = parent
    sw, dh = env.rad(d['sweep']), env.rad(d['dihedral'])
    root = [px + d['position'][0], py + d['position'][1] + s * d['yoffset'], pz + d['position'][2]]
    tip = [root[0] - d['semispan'] * env.tan(sw), root[1] + s * d['semispan'] * env.cos(dh), root[2] - d['semispan'] * env.sin(dh)]
    return root, tip


def spacing(env, n, cosine):
    """expected corner and control fractions along a segment (0 at the left end, 1 at the right end)"""
    if cosine:
        cor = [(1 - env.cos(env.pi * env.rat(k, n))) / 2 for k in range(n + 1)]
        cp = [(1 - env.cos(env.pi * env.rat(2 * k + 1, 2 * n))) / 2 for k in range(n)]
    else:
        cor = [env.rat(k, n) for k in range(n + 1)]
        cp = [env.rat(2 * k + 1, 2 * n) for k in range(n)]
    return cor, cp


def lerp(a, b, t):
    return a + (b - a) * t


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def cross(a, b):
    return [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]


def sub(a, b):
    return [x - y for x, y in zip(a, b)]


def add(a, b):
    return [x + y for x, y in zip(a, b)]


def scal(k, a):
    return [k * x for x in a]


def make_airplane(env, cg=None, name='a'):
    ap = env.m.geometry.Airplane(name)
    if cg is not None:
        ap.cg_location(*cg)
    return ap


# ---------------------------------------------------------------------------------------------- lifting-line model
CH = ('aileron', 'elevator', 'rudder', 'flap')


def cut_grid(env, *maps, skip=()):
    """LLModel built from now on sees a grid whose every entry is an unconstrained value (what LLGrid's getters return,
    replaced by fresh variables): a property shown this way holds for every grid of that size.  The k-th model built after the
    first sees the first one's values through maps[k-1] (name of the getter, all values -> values).
    Concrete runs use LLGrid itself."""
    if not env.symbolic:
        return
    import numpy as np
    real = env.m.llgrid.LLGrid
    built = []

    class AnyGrid:
        def __init__(self, *a, **k):
            self._real = real(*a, **k)
            self._memo = {}
            self._vals = {}
            self._map = maps[len(built) - 1] if 0 < len(built) <= len(maps) else None
            built.append(self)

        def __getattr__(self, name):
            r = getattr(self.__dict__['_real'], name)
            if not name.startswith('get_') or name in skip or not callable(r):
                return r

            def get(*a):
                v, w = r(*a), r(*a)
                return self._conv(name[4:], v, w)
            return get

        def _conv(self, key, v, w):
            if isinstance(v, tuple):
                return tuple(self._conv('%s%d' % (key, i), x, y) for i, (x, y) in enumerate(zip(v, w)))
            if isinstance(v, np.ndarray):
                v, w = v.view(np.ndarray), w.view(np.ndarray)
            if not isinstance(v, np.ndarray) or any(isinstance(x, str) for x in v.flat):
                return v
            # getters sharing one array must go on sharing it
            mk = (v.__array_interface__['data'][0], v.shape) if np.shares_memory(v, w) else key
            if mk not in self._memo:
                if self._map:
                    x = self._map(key, built[0]._all())
                    if tuple(x.shape) != tuple(v.shape):
                        raise Exception('map of %s gives shape %s' % (key, x.shape))
                else:
                    x = env.cut_all(v, key)
                self._memo[mk] = (x, v)
            c = self._memo[mk][0]
            self._vals[key] = c
            return c if mk != key else c.copy()

        def _all(self):
            if len(self._vals) < 5:
                for n in dir(self._real):
                    if n.startswith('get_') and n not in skip:
                        getattr(self, n)()
            return self._vals
    env.m.llmodel.LLGrid = AnyGrid


VECTORS = ('control_point_pos', 'corner_point_pos0', 'corner_point_pos1', 'unit_axial_vectors', 'unit_normal_vectors')


def permuted(perm):
    """map for cut_grid: the same sections in another order"""
    return lambda key, g: g[key] if key == 'cg_location' else g[key][list(perm)]


def mirrored(env, perm):
    """map for cut_grid: the mirror image in the x-z plane, sections reordered by perm"""
    perm = list(perm)

    def f(key, g):
        M = env.array([1, -1, 1])
        if key == 'cg_location':
            return g[key] * M
        other = {'corner_point_pos0': 'corner_point_pos1', 'corner_point_pos1': 'corner_point_pos0', 'chord_lengths0': 'chord_lengths1', 'chord_lengths1': 'chord_lengths0'}.get(key, key)
        if key.startswith('left_'):
            other = 'right_' + key[5:]
        elif key.startswith('right_'):
            other = 'left_' + key[6:]
        x = g[other][perm]
        if key in VECTORS:
            return x * M
        if key == 'unit_spanwise_vectors':
            return x * M * -1
        if key == 'cp_spacing':
            return 1 - x
        if key in ('control_mix0', 'control_mix2'):
            return x * -1
        return x
    return f


def scaled(lam):
    """map for cut_grid: every length multiplied by lam"""
    def f(key, g):
        p = {'control_point_pos': 1, 'corner_point_pos0': 1, 'corner_point_pos1': 1, 'cg_location': 1, 'chord_length': 1, 'chord_lengths0': 1,
             'chord_lengths1': 1, 'section_areas': 2, 'integral_chord2': 3}.get(key, 0)
        return g[key] * lam ** p if p else g[key]
    return f


def shifted(env, d, cg=True, geometry=True):
    """map for cut_grid: everything (or only the centre of gravity / only the geometry) moved by d"""
    def f(key, g):
        if (geometry and key in ('control_point_pos', 'corner_point_pos0', 'corner_point_pos1')) or (cg and key == 'cg_location'):
            return g[key] + env.array(d)
        return g[key]
    return f


def plane(env, wings, cg=None, af=True, control=False, name='a', fixed=False, dims=None, order=None):
    """airplane with one wing per entry (side, sections), generic symbolic dimensions, airfoils and control surfaces"""
    ap = make_airplane(env, cg, name)
    for k, (side, n) in [(k, wings[k]) for k in (order or range(len(wings)))]:
        p = 'w%d' % k
        kw = dict(semispan=4, root_chord=1, tip_chord=0.75, sweep=0, dihedral=3, mount_angle=0, washout=0) if fixed else dict(sweep=20, dihedral=7, mount_angle=2, washout=3)
        d = wing_dims(env, p, grid=n, **dict(dict(kw, position=[-2 * k, 0, -k / 2], yoffset=0.1), **(dims or {})))
        w = ap.add_wing(p, side=side, **d)
        if af:
            w.airfoil('af' + p, **(airfoil(env, p) if af is True else CONST_AF))
        if control:
            w.control_surface(percent_span=(0, 1), percent_chord=0.25 if fixed else env.real(p + '_cf', 0.1, 0.6), mix={c: env.real('%s_mix_%s' % (p, c), -1, 1) for c in CH})
    return ap


def direction(env, alpha, beta):
    """unit vector of the onset flow in body axes for an angle of attack and a sideslip angle (degrees):
    tan(alpha) = Vz/Vx, tan(beta) = Vy/Vx"""
    a, b = env.rad(alpha), env.rad(beta)
    ca, sa, cb, sb = env.cos(a), env.sin(a), env.cos(b), env.sin(b)
    q = env.sqrt(1 - sa * sa * sb * sb)
    return [-ca * cb / q, -ca * sb / q, -sa * cb / q]


def influence(env, r, r1, r2, u, diag):
    """velocity at r induced by a horseshoe vortex of unit strength with bound part r1->r2 and trailing legs along u"""
    a, b = sub(r, r1), sub(r, r2)
    ma, mb = env.sqrt(dot(a, a)), env.sqrt(dot(b, b))
    leg1 = scal(-1 / (ma * (ma - dot(u, a))), cross(u, a))
    leg2 = scal(1 / (mb * (mb - dot(u, b))), cross(u, b))
    v = add(leg1, leg2)
    if not diag:
        bound = scal((ma + mb) / (ma * mb * (ma * mb + dot(a, b))), cross(a, b))
        v = add(v, bound)
    return scal(1 / (4 * env.pi), v)


class Sect:
    """what the grid says about section i, as plain lists"""
    def __init__(self, g, i):
        def row(x): return [x[i][k] for k in range(3)]
        r1, r2 = g.get_corner_point_pos()
        self.r, self.r1, self.r2 = row(g.get_control_point_pos()), row(r1), row(r2)
        self.dl = sub(self.r2, self.r1)
        self.ua, self.un, self.us = row(g.get_unit_axial_vectors()), row(g.get_unit_normal_vectors()), row(g.get_unit_spanwise_vectors())
        self.S, self.c2, self.t = g.get_section_areas()[i], g.get_integral_chord2()[i], g.get_cp_spacing()[i]
        self.cla = g.get_lift_slopes()[i]
        self.lcla, self.rcla = g.get_left_lift_slopes()[i], g.get_right_lift_slopes()[i]
        self.lal0, self.ral0 = g.get_left_zero_lift_alpha()[i], g.get_right_zero_lift_alpha()[i]
        self.al0 = g.get_zero_lift_alpha()[i]
        self.lcd, self.rcd = [x[i] for x in g.get_left_drag_coeff()], [x[i] for x in g.get_right_drag_coeff()]
        self.lcma, self.rcma = g.get_left_moment_slopes()[i], g.get_right_moment_slopes()[i]
        self.lcm0, self.rcm0 = g.get_left_zero_lift_moments()[i], g.get_right_zero_lift_moments()[i]
        self.cmd, self.eff = g.get_moment_slopes()[2][i], g.get_flap_effectiveness()[i]
        self.mix = [x[i] for x in g.get_control_mix()]


def deflection(env, s, control):
    """control-surface deflection of a section in degrees"""
    d = 0
    for m, c in zip(s.mix, CH):
        if c in control:
            d = d + m * control[c]
    return d


def system(env, ss, v, u, control):
    """the linearised lifting-line equations of Phillips & Snyder for sections ss in onset velocities v"""
    n = len(ss)
    A, b = [], []
    for i, s in enumerate(ss):
        V = env.sqrt(dot(v[i], v[i]))
        w = cross(v[i], s.dl)
        row = []
        for j, q in enumerate(ss):
            k = influence(env, s.r, q.r1, q.r2, u, i == j)
            a = -V * s.S * s.cla * dot(k, s.un)
            if i == j:
                a = a + 2 * env.sqrt(dot(w, w))
            row.append(a)
        d = deflection(env, s, control)
        ad = env.abs(d)
        k = env.ite(ad > 11, env.rat(109589743589744, 10 ** 14) - env.rat(871794871794872, 10 ** 17) * ad, 1)
        de = s.eff * k * env.rad(d)
        al = env.atan(dot(v[i], s.un) / dot(v[i], s.ua))
        cl = lerp(s.lcla * (al + de - s.lal0), s.rcla * (al + de - s.ral0), s.t)
        A.append(row)
        b.append(V * V * s.S * cl)
    return A, b


def loads(env, ss, v, rho, u, gamma, control, cg):
    """forces and moments of the sections, given the vortex strengths: list of dicts"""
    out = []
    for i, s in enumerate(ss):
        w = v[i]
        for j, q in enumerate(ss):
            w = add(w, scal(gamma[j], influence(env, s.r, q.r1, q.r2, u, i == j)))
        al = env.atan2(dot(w, s.un), dot(w, s.ua))
        F = scal(rho[i] * gamma[i], cross(w, s.dl))
        cl = lerp(s.lcla * (al - s.lal0), s.rcla * (al - s.ral0), s.t)
        d = deflection(env, s, control)
        pol = [k[0] + k[1] * cl + k[2] * cl * cl for k in (s.lcd, s.rcd)]
        cd = lerp(pol[0], pol[1], s.t) + env.abs(d) / 500
        V = env.sqrt(dot(v[i], v[i]))
        q = rho[i] * V * V / 2
        D = scal(q * cd * s.S / env.sqrt(dot(w, w)), w)
        cm = lerp(s.lcm0 + s.lcma * (al - s.lal0), s.rcm0 + s.rcma * (al - s.ral0), s.t) + env.rad(d) * s.cmd
        arm = sub(s.r, cg)
        out.append(dict(w=w, alpha=al, F=F, D=D, cl=cl, cd=cd, cm=cm, M=add(scal(-q * cm * s.c2, s.us), cross(arm, F)), MD=cross(arm, D)))
    return out


def total(parts, key):
    r = [0, 0, 0]
    for p in parts:
        r = add(r, p[key])
    return r


def wind_axes(env, u):
    """lift, drag and side directions: drag along the freestream, lift normal to it in the plane of symmetry"""
    n = env.sqrt(u[0] * u[0] + u[2] * u[2])
    l = [-u[2] / n, 0, u[0] / n]
    return l, u, cross(l, u)


def state(env, n, local=False, p='', wide=75):
    st = dict(V_mag=env.real(p + 'V_mag', 0.1, 1000), rho=env.real(p + 'rho', 0.0005, 20), alpha=env.real(p + 'alpha', -wide, wide), beta=env.real(p + 'beta', -wide, wide))
    if local:
        st['local_state'] = env.array([[env.real('%srho%d' % (p, i), 0.0005, 20)] + [env.real('%sv%d%s' % (p, i, c), *((-30, -5) if c == 'x' else (-6, 6))) for c in 'xyz'] for i in range(n)])
    return st
