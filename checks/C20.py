from .mulib import *

COVERAGE = 'pitch_trim on any lift and moment affine in angle of attack and elevator (exact trim), on any loads whatever (an unknown lift and moment per pair of angles, up to 3 Newton steps: a state is returned only when lift and moment computed there are within the error of the targets), without elevator effect and on loads that never settle (reported, after a bounded number of solves).'
LIMIT = 4000


class TooMany(Exception):
    pass


class Enough(Exception):
    pass


class Trim(Plant):
    def __init__(self, env, rule, **k):
        def total(x):
            if len(self.log) > LIMIT:
                raise TooMany('%d solves' % len(self.log))
            L, M = rule(x['alpha'], x['elevator'], len(self.log))
            return dict(FL=L, MY=M)
        Plant.__init__(self, env, total=total, **k)


def others(env, plant, st, ct, limit=60):
    for k, (a, c) in enumerate(plant.log[:limit]):
        a = {k: v for k, v in a.items() if k != 'local_state'}
        if st is not None:
            same(env, 'state of solve %d' % k, {k: v for k, v in a.items() if k != 'alpha'}, {k: v for k, v in st.items() if k != 'alpha'})
        if ct is not None:
            same(env, 'controls of solve %d' % k, {k: v for k, v in c.items() if k != 'elevator'}, {k: v for k, v in ct.items() if k != 'elevator'})
        elif c is not None:
            for n in CH:
                if n != 'elevator':
                    env.eq('control %s of solve %d' % (n, k), c.get(n, 0), 0)


def coefs(env, **fix):
    return [fix[k] if k in fix else env.real('plant_' + k, a, b) for k, a, b in (('L0', -1, 1), ('La', 1, 3), ('Le', 0.1, 0.5), ('m0', -1, 1), ('ma', -2, -0.5), ('me', -3, -2))]


def affine(env, control=True, state=True, m=None, file=False, props=False, fix={}, drop=()):
    c = coefs(env, **fix)

    def rule(a, e, n=0): return c[0] + c[1] * a + c[2] * e, c[3] + c[4] * a + c[5] * e
    plant = Trim(env, rule, props=props)
    pl = pm = 0
    if props:
        g = plant.prop
        pl, pm = env.real('prop_lift', -1, 1), env.real('prop_moment', -1, 1)
        plant.prop = lambda s, ps: dict(g(s, ps), FL=pl, MY=pm)
    mu = small(env, props=1 if props else 0)
    st = full_state(env) if state else None
    ct = full_control(env) if control else None
    for k in drop:
        (st if k in st else ct).pop(k)
    a = {}
    if st is not None:
        a['aero_state'] = st
    if ct is not None:
        a['control_state'] = ct
    if m is not None:
        a['m_target'] = env.real('m_target', -2, 2)
    if file:
        a['filename'] = env.path('t.json')
    L = env.real('target', -8, 12)
    try:
        r = mu.pitch_trim(L, **a)
    except TooMany as e:
        return env.fail('bounded number of solves', str(e))
    env.check('angle of attack and elevator', set(r) == {'alpha', 'elevator'})
    l, mo = rule(r['alpha'], r['elevator'])
    env.check('lift of the returned state', env.abs(l + pl - L) < env.rat(1, 10 ** 8))
    env.check('moment of the returned state', env.abs(mo + pm - a.get('m_target', 0)) < env.rat(1, 10 ** 8))
    others(env, plant, st, ct)
    if file:
        same(env, 'file', env.get_json('t.json'), r)


def history(env, steps, err=None, m=True):
    """any lift and moment, one pair per state solved"""
    memo = []

    def eq(x, y): return x is y or (not isinstance(x, env_types(env)) and not isinstance(y, env_types(env)) and x == y)

    def rule(a, e, n=0):
        for x, y, r in memo:
            if eq(x, a) and eq(y, e):
                return r
        if len(memo) > 5 * steps:
            raise Enough()
        k = len(memo)
        memo.append((a, e, (env.real('lift%d' % k, 0, 4), env.real('moment%d' % k, -2, 2))))
        return memo[-1][2]
    plant = Trim(env, rule)
    mu = small(env)
    st, ct = full_state(env), full_control(env)
    L, M = env.real('target', 1, 3), env.real('m_target', -1, 1) if m else 0
    kw = {} if err is None else dict(error=err)
    if m:
        kw['m_target'] = M
    err = env.rat(1, 10 ** 9) if err is None else err
    try:
        r = mu.pitch_trim(L, aero_state=st, control_state=ct, **kw)
    except (Enough, RuntimeError):
        return
    l, mo = rule(r['alpha'], r['elevator'])
    env.check('lift within the error', env.abs(l - L) < err)
    env.check('moment within the error', env.abs(mo - M) < err)
    others(env, plant, st, ct)


def env_types(env):
    return (env.T.Node,) if env.symbolic else ()


def report(env, rule, word, file, bare=False):
    plant = Trim(env, rule)
    mu = small(env)
    a = {} if bare else dict(aero_state=full_state(env), control_state=full_control(env))
    if file:
        a['filename'] = env.path('t.json')
    L = env.real('target', 2, 6) if word == 'no_elevator' else env.rat(5)
    out = []
    try:
        if not file:
            env.check('reported by an exception', raises(lambda: out.append(mu.pitch_trim(L, **a)), RuntimeError))
        else:
            out.append(mu.pitch_trim(L, **a))
            env.check('returned', out[0] == {'error': word})
            env.check('in the file', env.get_json('t.json') == {'error': word})
    except TooMany as e:
        env.fail('bounded number of solves', str(e))


def none(env, file=False, bare=False):
    """loads that do not depend on the elevator"""
    c = coefs(env, L0=0)
    report(env, lambda a, e, n: (c[1] * a, c[3] + c[4] * a), 'no_elevator', file, bare)


def never(env, file=False, bare=False):
    report(env, lambda a, e, n: (a * 2 + env.rat(n * n), -e * 3 - env.rat(n * n, 2)), 'untrimmable', file, bare)


AFF = 'any affine loads'
HARNESSES = [H('affine', affine, bounds=AFF), H('affine, moment target', lambda e: affine(e, m=1), bounds=AFF), H('affine, no controls', lambda e: affine(e, control=False, m=1), bounds=AFF),
             H('affine, no state', lambda e: affine(e, state=False, m=1, file=True), bounds=AFF), H('affine, nothing given', lambda e: affine(e, state=False, control=False, m=1, file=True), bounds=AFF),
             H('affine, to file', lambda e: affine(e, m=1, file=True), bounds=AFF), H('affine, entries left out', lambda e: affine(e, drop=('alpha', 'elevator', 'beta', 'flap')), bounds=AFF),
             H('affine, propeller', lambda e: affine(e, m=1, props=True), bounds=AFF),
             H('affine, lift-only elevator', lambda e: affine(e, fix=dict(me=0)), bounds=AFF), H('affine, moment-only elevator', lambda e: affine(e, fix=dict(Le=0)), bounds=AFF),
             H('affine, weak elevator', lambda e: affine(e, fix=dict(Le=e.rat(1, 10 ** 6), me=e.rat(-1, 10 ** 4))), bounds=AFF),
             H('any loads, 1 step', lambda e: history(e, 1), bounds='returned in the first state'), H('any loads, 2 steps', lambda e: history(e, 2), bounds='returned within 1 Newton step'),
             H('any loads, wide error', lambda e: history(e, 2, err=e.real('error', 0.1, 1)), bounds='returned within 1 Newton step'),
             H('any loads, wide error, no moment target', lambda e: history(e, 2, err=e.real('error', 0.1, 1), m=False), bounds='returned within 1 Newton step'),
             H('any loads, 3 steps', lambda e: history(e, 3), thorough_only=True, bounds='returned within 2 Newton steps'),
             H('no elevator', none, bounds='any loads linear in the angle'), H('no elevator, to file', lambda e: none(e, file=True), bounds='any loads linear in the angle'),
             H('no elevator, nothing given', lambda e: none(e, file=True, bare=True), bounds='any loads linear in the angle'),
             H('never', never, bounds='one moving response'), H('never, to file', lambda e: never(e, True), bounds='one moving response'), H('never, nothing given', lambda e: never(e, True, True), bounds='one moving response')]
