"""harnesses on the analyses of MachUp: the lifting line and the propellers are replaced by arbitrary functions of the state"""
import copy
import math
import random
from .lib import *

KEYS = ('FL', 'FD', 'FS', 'FX', 'FY', 'FZ', 'MX', 'MY', 'MZ')
RATES = ('roll_rate', 'pitch_rate', 'yaw_rate')
ZERO = dict(V_mag=10, rho=0.0023769, alpha=0, beta=0)


def generic(seed, n):
    """some smooth function of n numbers (sample values of an otherwise arbitrary function)"""
    r = random.Random('plant %s' % seed)
    c = [r.uniform(0.05, 0.6) * r.choice((-1, 1)) for _ in range(n)]
    d = [r.uniform(0.05, 0.3) for _ in range(n)]
    k = r.uniform(1, 2)
    e = [r.uniform(0.1, 0.4) * r.choice((-1, 1)) for _ in range(n)]

    def f(*x):
        return k + sum(a * float(v) + b * math.sin(float(v) * 0.3 + a) for a, b, v in zip(c, d, x)) + math.sin(k + sum(a * float(v) for a, v in zip(e, x)))
    return f


def frozen(x):
    """deep copy of a state"""
    if isinstance(x, dict):
        return {k: frozen(v) for k, v in x.items()}
    return x.copy() if hasattr(x, 'copy') and hasattr(x, 'shape') and x.shape else x


def key(a, c):
    """numbers that identify an aero and a control state"""
    a, c = a or {}, c or {}
    return [a['V_mag'], a['rho']] + [a.get(k, 0) for k in ('alpha', 'beta') + RATES] + [c.get(k, 0) for k in CH]


class Plant:
    """stands for the lifting line (and the propellers) in an analysis; log: what they were asked to solve"""
    def __init__(self, env, total=None, props=False, names=('total',)):
        self.env, self.log, self.prop_log, self.names = env, [], [], names
        nx = 11 + (1 if props else 0)
        self.f = {(p, k): env.ufun('ll_%s_%s' % (p, k), generic('%s %s' % (p, k), nx)) for p in ('inviscid', 'viscous', 'total') for k in KEYS}
        self.g = {k: env.ufun('prop_%s' % k, generic('prop %s' % k, 5)) for k in KEYS + ('Thrust', 'Torque')}
        self.total = total
        self.props = props
        plant = self

        def solve(model, stype, aero_state=None, control_state=None):
            if 'V_mag' not in aero_state or 'rho' not in aero_state:
                raise RuntimeError('incomplete state')
            plant.log.append((frozen(aero_state), frozen(control_state)))
            return plant.wing(aero_state, control_state)
        env.m.llmodel.LLModel.solve = solve
        if props:
            PS = env.m.propssolver.PropsSolver
            init = PS.__init__
            self.points = {}

            def keep(solver, airplane, points=None, *a, **k):
                # the control points the solver is given
                init(solver, airplane, points, *a, **k)
                plant.points[id(solver)] = points
            PS.__init__ = keep

            def psolve(solver, aero_state=None, prop_state=None):
                plant.prop_log.append((frozen(aero_state), frozen(prop_state)))
                r = {'total': plant.prop(aero_state, prop_state)}
                pts = plant.points.get(id(solver))
                if pts is None:
                    return r, None
                n = len(pts)
                # local density and velocity depend on the state too
                j = plant.j(prop_state)
                return r, env.array([[aero_state['rho'], -aero_state['V_mag'] - j * (i + 1), 0, j] for i in range(n)])
            env.m.propssolver.PropsSolver.solve = psolve

    def j(self, prop_state):
        return (prop_state or {}).get('J', self.env.rat(1, 2))

    def wing(self, a, c):
        x = key(a, c)
        if self.props:
            x = x + [a['local_state'][0][3]]
        r = {p: {k: self.f[p, k](*x) for k in KEYS} for p in ('inviscid', 'viscous', 'total')}
        if self.total:
            r['total'].update(self.total(dict(zip(('V_mag', 'rho', 'alpha', 'beta') + RATES + CH, x))))
        return r

    def prop(self, a, ps):
        x = [a['V_mag'], a['rho'], a.get('alpha', 0), a.get('beta', 0), self.j(ps)]
        return {k: f(*x) for k, f in self.g.items()}

    def result(self, a, c, ps=None):
        """what MachUp.solve has to return in this state"""
        if self.props:
            a = dict(a, local_state=self.env.array([[0, 0, 0, self.j(ps)]]))
        w = self.wing(a, c)['total']
        if not self.props:
            return {k: w[k] for k in KEYS}
        p = self.prop(a, ps)
        return {k: w[k] + p[k] for k in KEYS}


def small(env, refs=None, cg=None, props=0, n=1, wings=1):
    """MachUp of an airplane with a small wing of symbolic size"""
    ap = make_airplane(env, cg)
    for k in range(wings):
        d = wing_dims(env, 'w%d' % k, position=[-3 * k, 0, 0], yoffset=0, sweep=0, dihedral=0, mount_angle=0, washout=0, grid=n, is_main=k == 0)
        ap.add_wing('w%d' % k, side='both', **d).airfoil('af', **CONST_AF)
    for k in range(props):
        ap.add_prop('p%d' % k, **prop_dict(k))
    if refs:
        ap.set_reference_lengths(**refs)
    return env.m.MU.MachUp(inputAirplane=ap)


def prop_dict(k=0):
    return dict(position=[1, 0.5 * k, 0], nodes=4, diameter=1.5, hub_diameter=0.2, num_of_blades=2)


def full_state(env, p='', rates=True):
    st = dict(V_mag=env.real(p + 'V_mag', 0.5, 500), rho=env.real(p + 'rho', 0.0005, 20), alpha=env.real(p + 'alpha', -75, 75), beta=env.real(p + 'beta', -75, 75))
    if rates:
        for k in RATES:
            st[k] = env.real(p + k, -5, 5)
    return st


def full_control(env, p=''):
    return {c: env.real(p + c, -45, 45) for c in CH}


def same(env, label, a, b):
    """two states have the same keys and values"""
    if isinstance(b, dict):
        if not isinstance(a, dict) or list(a.keys()) != list(b.keys()):
            return env.fail(label, 'keys %s instead of %s' % (sorted(a) if isinstance(a, dict) else a, sorted(b)))
        for k in b:
            same(env, '%s: %s' % (label, k), a[k], b[k])
    elif isinstance(b, str) or b is None:
        env.check(label, a == b)
    else:
        env.eq(label, a, b)


def raises(f, *kinds):
    try:
        f()
    except kinds:
        return True
    return False
