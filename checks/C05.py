from .lib import *

COVERAGE = 'Control surfaces with symbolic span limits, root/tip chord fractions, mixing ratios and sealing on left, right and two-sided wings: coverage of sections, symmetric and antisymmetric mixing, flap effectiveness and moment slope, and the deflection that reaches the sections of a solve.'
CH = ('aileron', 'elevator', 'rudder', 'flap')
SG = dict(aileron=-1, elevator=1, rudder=-1, flap=1)


def eff(env, cf, sealed):
    """Phillips eq. 1.7.12, 1.7.14 and the documented fit of figure 1.7.4"""
    th = env.acos(2 * cf - 1)
    eps = 1 - (th - env.sin(th)) / env.pi
    eta = env.rat(39598, 10000) * env.atan((cf + env.rat(6527, 1000000)) * env.rat(892574, 10000) + env.rat(4898015, 1000000)) - env.rat(518786, 100000)
    if not sealed:
        eta = eta * env.rat(8, 10)
    return eps * eta, (env.sin(2 * th) - 2 * env.sin(th)) / 4


def surface(env, n, side, sealed, scalar=False, cosine=True):
    ap = make_airplane(env)
    w = ap.add_wing('w', side=side, semispan=3, root_chord=1, tip_chord=env.rat(1, 2), grid=n)
    lo, hi = env.real('span_root', 0, 0.9), env.real('span_tip', 0.05, 1)
    env.assume(lo + env.rat(1, 100) <= hi)
    cr = env.real('cf_root', 0.02, 0.98)
    ct = cr if scalar else env.real('cf_tip', 0.02, 0.98)
    mix = {k: env.real('mix_' + k, -2, 2) for k in CH}
    kw = {} if sealed is None else dict(sealed=sealed)
    w.control_surface(percent_span=(lo, hi), percent_chord=cr if scalar else (cr, ct), mix=mix, **kw)
    g = env.m.llgrid.LLGrid(ap, cosine_spacing=cosine)
    ef, (_, _, cmd), mx = g.get_flap_effectiveness(), g.get_moment_slopes(), g.get_control_mix()
    cp = spacing(env, n, cosine)[1]
    i = 0
    for sd in (('left', 'right') if side == 'both' else (side,)):
        for j in range(n):
            f = 1 - cp[j] if sd == 'left' else cp[j]
            inside = env.And(lo < f, f < hi)
            lab = '%s[%d]' % (sd, j)
            for q, k in enumerate(CH):
                v = mix[k] * (SG[k] if sd == 'left' else 1)
                env.eq('mixing %s %s' % (k, lab), mx[q][i], env.ite(inside, v, 0))
            cf = lerp(cr, ct, (f - lo) / (hi - lo))
            if env.symbolic or bool(inside):
                e, c = eff(env, env.ite(inside, cf, env.rat(1, 2)), sealed is None or sealed)
                env.eq('effectiveness ' + lab, ef[i], env.ite(inside, e, 0))
                env.eq('moment slope ' + lab, cmd[i], env.ite(inside, c, 0))
            else:
                env.eq('effectiveness ' + lab, ef[i], 0)
                env.eq('moment slope ' + lab, cmd[i], 0)
            i += 1


def absent(env):
    ap = make_airplane(env)
    ap.add_wing('w', semispan=3, grid=2)
    w = ap.add_wing('v', semispan=3, grid=1)
    k = env.real('mix', -2, 2)
    w.control_surface(percent_span=(0, 1), percent_chord=env.rat(1, 4), mix={'flap': k})
    g = env.m.llgrid.LLGrid(ap)
    mx, ef = g.get_control_mix(), g.get_flap_effectiveness()
    for q in range(4):
        env.eq('no control surface, no mixing %s' % CH[q], mx[q][:4], [0] * 4)
    env.eq('no control surface, no effectiveness', ef[:4], [0] * 4)
    env.eq('only the named channels act', [[mx[q][i] for i in (4, 5)] for q in range(4)], [[0, 0], [0, 0], [0, 0], [k, k]])


HARNESSES = [H('both n=2 sealed', lambda e: surface(e, 2, 'both', True), bounds='2 sections per side', budget=240),
             H('right n=2 unsealed', lambda e: surface(e, 2, 'right', 0), bounds='2 sections'),
             H('left n=2 unsealed', lambda e: surface(e, 2, 'left', False), bounds='2 sections'),
             H('right n=3 default sealing, linear', lambda e: surface(e, 3, 'right', None, cosine=False), bounds='3 sections', budget=240),
             H('left n=3 single chord fraction', lambda e: surface(e, 3, 'left', 1, True), bounds='3 sections', budget=240),
             H('absent', absent, bounds='2 wings'),
             H('left n=5', lambda e: surface(e, 5, 'left', True), bounds='5 sections', budget=800, thorough_only=True)]
