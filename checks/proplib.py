"""harnesses on propellers: inputs, and the blade-element solution replaced by arbitrary functions"""
from .mulib import *


def blade_env(env, ei=True, coef=True, power=True):
    """in symbolic runs the iterative solution for the induced angle, the section coefficients and the searches for a rotation rate
    are any functions of what they may depend on; concrete runs use the real ones"""
    if not env.symbolic:
        return
    PM = env.m.propmodel.PropModel
    env.abstract = True
    import math
    if ei:
        PM._find_ei          # must be there
        f = env.ufun('induced_angle', lambda r, e, b: 0.02 + 0.01 * math.sin(7 * r + e + b) + 0.15 * (b - e))

        def find_ei(self, *a, **k):
            r, e, b = self.get_radial_position(), self.get_advance_angle(), self.get_aero_pitch_angle()
            return env.array([f(r[i], e[i], b[i]) for i in range(len(r))])
        orig = PM._find_ei
        PM._find_ei = find_ei
        if ei == 'coarse' and 'error' in orig.__code__.co_varnames[:orig.__code__.co_argcount]:
            # the real iteration, stopped early (few steps of its loop), with any lift curve
            PM._find_ei = lambda self: orig(self, error=env.rat(1, 10))
            PM._get_CL
            lift = env.ufun('lift', lambda r, a: 6 * a + 0.1 * math.sin(r))
            PM._get_CL = lambda self, alpha: env.array([lift(self.get_radial_position()[i], alpha[i]) for i in range(len(alpha))])
    if coef:
        PM.get_coefficients_alpha
        g = [env.ufun('section_' + n, fn) for n, fn in (('CL', lambda r, a: 6 * a + 0.1 * math.sin(r)), ('CL_a', lambda r, a: 6 + 0.2 * math.sin(a + r)), ('CD', lambda r, a: 0.01 + a * a + 0.001 * r))]

        def get(self, alpha):
            r = self.get_radial_position()
            return tuple(env.array([h(r[i], alpha[i]) for i in range(len(alpha))]) for h in g)
        PM.get_coefficients_alpha = get
    if power:
        for name in ('_find_rot_rate_power', '_find_rot_rate_motor'):
            getattr(PM, name)
            fn = env.ufun(name, lambda V, d: 12 + 0.3 * V + 0.2 * d)

            def find(self, *a, _fn=fn, **k):
                self._rot_per_sec = 3
                self._J = self._Vinf / (3 * self._d)
                self._find_coefficients()
                return _fn(self._Vinf, self._d)
            setattr(PM, name, find)


def prop(env, p='p', motor=False, **fix):
    """symbolic propeller description for Airplane.add_prop"""
    def get(k, lo, hi):
        return fix[k] if k in fix else env.real('%s_%s' % (p, k), lo, hi)
    d = dict(position=fix.get('position') or [env.real('%s_%s' % (p, c), a, b) for c, a, b in (('x', -1, 2), ('y', -2, 2), ('z', -1, 1))],
             orientation=fix.get('orientation') or [env.real(p + '_elevation', -20, 20), env.real(p + '_heading', -20, 20)],
             nodes=fix.get('nodes', 3), diameter=get('diameter', 1, 3), hub_diameter=get('hub_diameter', 0.1, 0.5),
             num_of_blades=fix.get('num_of_blades', 2), rot_dir=fix.get('rot_dir', 'CCW'))
    return d
