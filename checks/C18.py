from .mulib import *

COVERAGE = 'stability_derivatives, damping_derivatives, control_derivatives and derivatives for an arbitrary aerodynamic model (loads are uninterpreted functions of the 11 state and control numbers, and of the propeller state): every one of the 81 coefficients is the central difference about the given state, per radian or per nondimensional rate, over dynamic pressure times reference area and the matching reference length.'
SPECS = {'stability_derivatives': [('a', 'alpha'), ('b', 'beta')], 'damping_derivatives': [('pbar', 'roll_rate'), ('qbar', 'pitch_rate'), ('rbar', 'yaw_rate')],
         'control_derivatives': [('da', 'aileron'), ('de', 'elevator'), ('dr', 'rudder'), ('df', 'flap')]}
NAMES = (('CL', 'FL'), ('CD', 'FD'), ('CS', 'FS'), ('CX', 'FX'), ('CY', 'FY'), ('CZ', 'FZ'), ('Cl', 'MX'), ('Cm', 'MY'), ('Cn', 'MZ'))



def expected(env, plant, mu, a, c, ps, what):
    """derivative set as documented; the step sizes (a quarter or half a degree, 0.005 nondimensional) are the tool's choice"""
    out = {}
    base = dict(a)
    V, rho = base['V_mag'], base['rho']
    q = rho * V * V / 2 * mu.Sw
    for suffix, name in SPECS[what]:
        aero, ctl = dict(a or {}), dict(c or {})
        if what == 'damping_derivatives':
            ref = mu.long_ref if name == 'pitch_rate' else mu.lat_ref
            h = env.rat(1, 200)                     # nondimensional
            d = h * 2 * V / ref
        else:
            d = env.rat(1, 2) if what == 'stability_derivatives' else env.rat(1, 4)
            h = env.rad(d)
        where = ctl if what == 'control_derivatives' else aero
        x = where.get(name, 0)
        lo, hi = [plant.result(dict(aero, **({name: v} if where is aero else {})), dict(ctl, **({name: v} if where is ctl else {})), ps) for v in (x - d, x + d)]
        for cn, fn in NAMES:
            r = (hi[fn] - lo[fn]) / (2 * h) / q
            if cn in ('Cl', 'Cn'):
                r = r / mu.lat_ref
            elif cn == 'Cm':
                r = r / mu.long_ref
            out['%s_%s' % (cn, suffix)] = r
    return out


def one(env, rates=True, control=True, refs=None, props=False, whole=False, drop=()):
    plant = Plant(env, props=props)
    r = {k: env.real('ref_' + k, 0.5, 8) for k in refs or ()}
    mu = small(env, refs=r, props=1 if props else 0)
    st = full_state(env, rates=rates)
    for k in drop:
        st.pop(k)
    ct = full_control(env) if control is True else control
    if ct and ct is not True:
        ct = {k: (env.real(k, -15, 15) if v is None else v) for k, v in ct.items()}
    ps = {'J': env.real('J', 0.2, 1.2)} if props else None
    args = dict(aero_state=st, control_state=ct)
    if props:
        args['prop_state'] = ps
    if whole:
        got = mu.derivatives(**args)
        env.check('three groups', set(got) == set(SPECS))
    else:
        got = {k: getattr(mu, k)(**args) for k in SPECS}
    for what in SPECS:
        want = expected(env, plant, mu, st, ct, ps, what)
        if what == 'stability_derivatives' and whole:
            want['static_margin'] = -want['Cm_a'] / want['CL_a']
        if set(got[what]) != set(want):
            return env.fail('%s: coefficients' % what, str(sorted(set(got[what]) ^ set(want))))
        for k in want:
            env.eq('%s %s' % (what, k), got[what][k], want[k])


HARNESSES = [H('full state', lambda e: one(e), bounds='any model'),
             H('no rates, no controls', lambda e: one(e, rates=False, control=None), bounds='any model'),
             H('state without angles', lambda e: one(e, drop=('alpha', 'beta')), bounds='any model'),
             H('some controls', lambda e: one(e, control={'elevator': None, 'rudder': None}), bounds='any model'),
             H('derivatives', lambda e: one(e, whole=True), bounds='any model'),
             H('derivatives without controls', lambda e: one(e, whole=True, control=None, rates=False), bounds='any model'),
             H('given reference lengths', lambda e: one(e, refs=('lateral', 'longitudinal'), whole=True), bounds='any model'),
             H('with a propeller', lambda e: one(e, props=True, whole=True), bounds='any model')]
