from .mulib import *

COVERAGE = 'target_lift on any lift linear in angle of attack (exact lift), on any sequence of lift values (an unknown per angle solved at: an angle is returned only when it is the secant step from the last two solved angles and closer than the error to the last), on a lift that never settles (reported after a bounded number of solves); every state solved is the given one but for the angle of attack.'
LIMIT = 300


class TooMany(Exception):
    pass


class Lift(Plant):
    """lift from a rule; refuses to be asked for ever"""
    def __init__(self, env, rule, **k):
        def total(x):
            if len(self.log) > LIMIT:
                raise TooMany('%d solves' % len(self.log))
            return dict(FL=rule(x['alpha'], len(self.log)))
        Plant.__init__(self, env, total=total, **k)


def others(env, plant, st, ct):
    """all solves were done in the given state, at some angle of attack"""
    for k, (a, c) in enumerate(plant.log):
        a = {k: v for k, v in a.items() if k != 'local_state'}
        if st is not None:
            same(env, 'state of solve %d' % k, {k: v for k, v in a.items() if k != 'alpha'}, {k: v for k, v in st.items() if k != 'alpha'})
        if ct is not None:
            same(env, 'controls of solve %d' % k, c, ct)


def start(env, lo=0, hi=12):
    st = full_state(env)
    st['alpha'] = env.real('start', lo, hi)
    return st


def call(env, mu, target, file=False, **a):
    if file:
        a['filename'] = env.path('t.json')
    try:
        return mu.target_lift(target, **a)
    except TooMany as e:
        env.fail('bounded number of solves', str(e))


def linear(env, sign=1, props=False, control=True, no_alpha=False, file=False, bare=False):
    L0, La = env.real('L0', -1000, 1000), env.real('La', 0.05, 500) * sign
    plant = Lift(env, lambda al, n: L0 + La * al, props=props)
    mu = small(env, props=1 if props else 0)
    st = start(env)
    if no_alpha:
        st.pop('alpha')
    ct = full_control(env) if control else None
    a = dict(aero_state=st)
    if bare:
        a = {}
        st = None
    if control:
        a['control_state'] = ct
    L = env.real('target', -2000, 2000)
    wing = L - (plant.prop(st, None)['FL'] if props else 0)
    if props:
        # the propeller's own lift is any function of the angle: fixed here
        g = plant.prop
        plant.prop = lambda s, ps: dict(g(s, ps), FL=env.real('prop_lift', -100, 100))
        wing = L - env.real('prop_lift', -100, 100)
    r = call(env, mu, L, file, **a)
    if r is None:
        return
    env.check('an angle alone', set(r) == {'alpha'})
    env.eq('lift at the returned angle', L0 + La * r['alpha'], wing, scale=1)
    others(env, plant, st, ct)
    if file:
        env.eq('angle in the file', env.get_json('t.json')['alpha'], r['alpha'])


def history(env, err=None, file=False):
    """any values, one per angle solved at"""
    memo = []

    def rule(al, n):
        for x, y in memo:
            if x is al or (not env.symbolic and x == al):
                return y
        memo.append((al, env.real('lift%d' % len(memo), -4, 4)))
        return memo[-1][1]
    plant = Lift(env, rule)
    mu = small(env)
    st = start(env)
    L = env.rat(1, 2)
    kw = {} if err is None else dict(error=err)
    err = env.rat(1, 10 ** 9) if err is None else err
    try:
        r = call(env, mu, L, file, aero_state=st, **kw)
    except RuntimeError:
        r = {'error': 'raised'}
    if r is None:
        return
    if 'alpha' in r:
        (x0, y0), (x1, y1) = [(a['alpha'], rule(a['alpha'], 0) - L) for a, c in plant.log[-2:]]
        env.check('converged', env.abs(r['alpha'] - x1) < err)
        env.eq('secant step', (r['alpha'] - x1) * (y1 - y0), -y1 * (x1 - x0), scale=1)
    others(env, plant, st, None)


def never(env, file=False, bare=False):
    """a lift that moves on at every solve"""
    plant = Lift(env, lambda al, n: 5 + env.rat(2 ** n))
    mu = small(env)
    st = None if bare else start(env, 1, 12)
    kw = dict(filename=env.path('t.json')) if file else {}
    out = []

    def f():
        out.append(mu.target_lift(env.rat(5), aero_state=st, **kw))
    try:
        if not file:
            env.check('reported by an exception', raises(f, RuntimeError))
        else:
            f()
            env.check('returned', out[0] == {'error': 'unliftable'})
            env.check('in the file', env.get_json('t.json') == {'error': 'unliftable'})
    except TooMany as e:
        env.fail('bounded number of solves', str(e))


HARNESSES = [H('linear', linear, bounds='any linear lift'), H('linear, falling', lambda e: linear(e, sign=-1), bounds='any linear lift'), H('linear, no controls', lambda e: linear(e, control=False), bounds='any linear lift'),
             H('linear, no angle given', lambda e: linear(e, no_alpha=True), bounds='any linear lift'), H('linear, to file', lambda e: linear(e, file=True), bounds='any linear lift'),
             H('linear, no state', lambda e: linear(e, bare=True), bounds='any linear lift'),
             H('linear, with propeller', lambda e: linear(e, props=True), bounds='any linear lift'),
             H('any values', history, bounds='all numbers of steps up to the limit of the code', max_paths=60, budget=300),
             H('any values, wide error', lambda e: history(e, err=e.real('error', 0.01, 1)), bounds='all numbers of steps up to the limit of the code', max_paths=60, budget=300),
             H('any values, to file', lambda e: history(e, file=True), bounds='all numbers of steps up to the limit of the code', max_paths=60, budget=300, thorough_only=True),
             H('never', never, bounds='one moving lift, all starts'), H('never, to file', lambda e: never(e, file=True), bounds='one moving lift, all starts'),
             H('never, no state, to file', lambda e: never(e, file=True, bare=True), bounds='one moving lift')]
