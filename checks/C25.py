from .proplib import *
from .C16 import affine
from .C24 import alike

COVERAGE = 'The files written by solve, distributions (text table and json), derivatives, target_lift, pitch_trim, find_aero_center, stall_onset and stall_airspeed, errors included, read back and compared with what the call returned (solve: with what the wing and propeller models returned), for arbitrary models, over previous content of the file and over an earlier result written to the same file; wings, propellers, several of each.'
WCOLS = (('control_points', 0), ('control_points', 1), ('control_points', 2), ('chord',), ('twist',), ('dihedral',), ('sweep',), ('area',), ('alpha',), ('forces_xyz', 0), ('forces_xyz', 1), ('forces_xyz', 2), ('section_CL',), ('section_Cm',),
         ('section_CD_parasitic',), ('section_alpha_L0',), ('section_CL_ref',))
PCOLS = ('radial_position', 'chord', 'pitch', 'advance_angle', 'induced_angle', 'alpha', 'section_CL', 'section_CD', 'Vi', 'Vi_x', 'Vi_t')


def stale(env, name):
    """something else, longer, is in the file already"""
    env.put_json(name, {'old': {'x%d' % k: k for k in range(400)}})
    return env.path(name)


def solve(env, wings=True, props=True, twice=False):
    plant = Plant(env, props=props)
    blade_env(env)
    ap = make_airplane(env, [0, 0, 0])
    if wings:
        ap.add_wing('w0', side='both', **wing_dims(env, 'w0', position=[0, 0, 0], yoffset=0, sweep=0, dihedral=0, mount_angle=0, washout=0, grid=1)).airfoil('af', **CONST_AF)
    if props:
        ap.add_prop('p0', **prop_dict(0))
    mu = env.m.MU.MachUp(inputAirplane=ap)
    st, ct = full_state(env), full_control(env)
    ps = {'J': env.real('J', 0.05, 3)} if props else None
    f = stale(env, 'out.json')
    if twice:
        mu.solve(aero_state=full_state(env, 'other_'), control_state=ct, prop_state=ps, filename=f)
    got = mu.solve(aero_state=st, control_state=ct, prop_state=ps, filename=f)
    j = env.get_json('out.json')
    a = st
    pr = {}
    if props:
        pr = {'total': plant.prop(st, ps)}
        a = dict(st, local_state=env.array([[0, 0, 0, ps['J']]]))
    alike(env, 'file', j, {'wing_results': plant.wing(a, ct) if wings else {}, 'prop_results': pr, 'total_results': got})


def analysis(env, which, props=False, twice=False):
    if which == 'find_aero_center':
        env.thin(130)
        env.abstract = True
    if which in ('stall_onset', 'stall_airspeed'):
        b, c = env.real('lift0', 0, 1), env.real('lift1', 0.1, 2)
        if which == 'stall_airspeed':
            env.m.MU.MachUp.stall_onset = lambda self, aero_state=None, control_state=None, prop_state=None, filename=None: {'lift': b + c * aero_state['V_mag'], 'alpha': 10, 'stalled_wing': 'w', 'span_location': env.real('where', 0, 1)}
    Plant(env, props=props, total=affine(env) if which in ('target_lift', 'pitch_trim') else None)
    mu = small(env, props=1 if props else 0, refs={k: env.real('ref_' + k, 0.5, 8) for k in ('longitudinal', 'lateral')})
    f = stale(env, 'out.json')
    t = env.real('target', 2, 5)
    kw = dict(aero_state=full_state(env), control_state=full_control(env), filename=f)
    if props:
        kw['prop_state'] = {'J': env.real('J', 0.05, 3)}
    g = lambda k: getattr(mu, which)(*([t] if which in ('target_lift', 'pitch_trim', 'stall_airspeed') else []), **k)
    if twice:
        g(dict(kw, aero_state=full_state(env, 'other_')))
    r = g(kw)
    if which == 'find_aero_center':
        r = {'x_ac': r[0], 'z_ac': r[2]}
    alike(env, which, env.get_json('out.json'), r)


def onset(env):
    cut_grid(env)
    mu = env.m.MU.MachUp(inputAirplane=plane(env, [('right', 1)], fixed=True, cg=[0, 0, 0], af='const'))
    st = dict(V_mag=env.real('V_mag', 0.5, 200), rho=env.real('rho', 0.001, 1.3))
    if env.symbolic:
        w, _ = mu.distributions(aero_state=dict(st, alpha=0.1))
        env.assume(w['section_CL'][0] > mu.myllmodel._grid.get_max_lifts()[0])
    f = stale(env, 'out.json')
    r = mu.stall_onset(aero_state=st, filename=f)
    alike(env, 'stall_onset', env.get_json('out.json'), r)


def errors(env, which):
    """a failure written to the file"""
    if which in ('derivatives', 'stall_onset', 'stall_airspeed'):
        ap = make_airplane(env, [0, 0, 0])
        ap.add_prop('p0', **prop_dict(0))
        mu = env.m.MU.MachUp(inputAirplane=ap)
        total = None
        word = 'underivable' if which == 'derivatives' else 'unstallable'
    else:
        n = [0]

        def total(x):
            n[0] += 1
            return dict(FL=5 + env.rat(2 ** n[0])) if which == 'target_lift' else dict(FL=x['alpha'] * 3, MY=-x['alpha'] * 2)
        Plant(env, total=total)
        mu = small(env)
        word = 'unliftable' if which == 'target_lift' else 'no_elevator'
    f = stale(env, 'out.json')
    st = full_state(env)
    st['alpha'] = env.real('start', 1, 12)
    r = getattr(mu, which)(*([env.rat(5)] if which in ('target_lift', 'pitch_trim', 'stall_airspeed') else []), aero_state=st, control_state=full_control(env), filename=f)
    env.check('returned', r == {'error': word})
    env.check('in the file', env.get_json('out.json') == {'error': word})


def table(env, wings=(), props=0, ext='txt', twice=False):
    """the distributions"""
    if props:
        blade_env(env)
    if wings:
        cut_grid(env, skip=('get_reference_area', 'get_cg_location') + (('get_control_point_pos',) if props else ()))
    ap = plane(env, list(wings), fixed=True, cg=[0, 0, 0], af='const', control=True)
    if not wings:
        ap = make_airplane(env, [0, 0, 0])
    for k in range(props):
        ap.add_prop('p%d' % k, **dict(prop_dict(k), nodes=4))
    mu = env.m.MU.MachUp(inputAirplane=ap)
    f = stale(env, 'd.' + ext)
    st = dict(V_mag=env.real('V_mag', 0.5, 200), rho=env.real('rho', 0.001, 1.3))
    if not props:
        st['alpha'] = env.real('alpha', -30, 30)
    ct = {'flap': env.real('flap', -10, 10)}
    ps = {'J': env.real('J', 0.3, 0.9)} if props else None
    if twice:
        mu.distributions(aero_state=dict(st, V_mag=env.real('other_V', 0.5, 200)), control_state=ct, prop_state=ps, filename=f)
    wd, pd = mu.distributions(aero_state=st, control_state=ct, prop_state=ps, filename=f)
    if ext == 'json':
        j = env.get_json('d.json')
        env.check('one entry', set(j) == {'data'})
        rows = parse(env, j['data'])
    else:
        rows = env.table_rows('d.txt')
    nw = len(wd['name']) if wings else 0
    np_ = len(pd['name']) if props else 0
    if len(rows) != nw + np_:
        return env.fail('number of rows', '%d instead of %d' % (len(rows), nw + np_))
    for i in range(nw):
        env.check('wing row %d: name' % i, str(rows[i][0]) == str(wd['name'][i]))
        env.check('wing row %d: columns' % i, len(rows[i]) == 1 + len(WCOLS))
        for c, k in enumerate(WCOLS):
            v = wd[k[0]][i] if len(k) == 1 else wd[k[0]][i][k[1]]
            env.eq('wing row %d: %s' % (i, k[0]), rows[i][1 + c], env.deg(v) if k[0] == 'alpha' else v)
    for i in range(np_):
        env.check('propeller row %d: name' % i, str(rows[nw + i][0]) == str(pd['name'][i]))
        env.check('propeller row %d: columns' % i, len(rows[nw + i]) == 1 + len(PCOLS))
        for c, k in enumerate(PCOLS):
            env.eq('propeller row %d: %s' % (i, k), rows[nw + i][1 + c], pd[k][i])


def parse(env, data):
    """rows of the text inside the json file (line ends written as the word newline)"""
    if env.symbolic:
        return [list(x[1]) for x in data.chunks if isinstance(x, tuple) and x[0] == 'row']
    with open(env.path('d.txt'), 'w') as f:
        f.write(data.replace('newline', '\n'))
    return env.table_rows('d.txt')


HARNESSES = [H('solve', solve, bounds='any models'), H('solve, over an earlier result', lambda e: solve(e, props=False, twice=True), bounds='any models'), H('solve, wings alone', lambda e: solve(e, props=False), bounds='any models'),
             H('solve, propellers alone', lambda e: solve(e, wings=False), bounds='any models'),
             H('stall_onset', onset, bounds='1 section, stall within 2 angles'),
             H('table, wing', lambda e: table(e, [('both', 1)]), bounds='2 sections'), H('table, two wings', lambda e: table(e, [('right', 1), ('left', 1)]), bounds='2 sections'),
             H('table, wing, json', lambda e: table(e, [('both', 1)], ext='json'), bounds='2 sections'), H('table, over an earlier one', lambda e: table(e, [('right', 1)], twice=True), bounds='1 section'),
             H('table, over an earlier one, json', lambda e: table(e, [('right', 1)], twice=True, ext='json'), bounds='1 section'),
             H('table, propeller', lambda e: table(e, props=1), bounds='4 stations'), H('table, two propellers, json', lambda e: table(e, props=2, ext='json'), bounds='2 x 4 stations'),
             H('table, two propellers', lambda e: table(e, props=2), bounds='2 x 4 stations'), H('table, two propellers, over an earlier one', lambda e: table(e, props=2, twice=True), bounds='2 x 4 stations'),
             H('table, wing and two propellers', lambda e: table(e, [('right', 1)], props=2), bounds='1 section, 2 x 4 stations'),
             H('table, propeller, over an earlier one', lambda e: table(e, props=1, twice=True), bounds='4 stations'),
             H('table, wing and propeller', lambda e: table(e, [('right', 1)], props=1), bounds='1 section, 4 stations'), H('table, wing and propeller, json', lambda e: table(e, [('right', 1)], props=1, ext='json', twice=True), bounds='1 section, 4 stations')]
for w in ('derivatives', 'target_lift', 'pitch_trim', 'find_aero_center', 'stall_airspeed'):
    HARNESSES.append(H(w, lambda e, w=w: analysis(e, w), bounds='any model' if w in ('derivatives', 'find_aero_center') else 'affine model'))
    HARNESSES.append(H(w + ', over an earlier result', lambda e, w=w: analysis(e, w, twice=True), bounds='any model' if w in ('derivatives', 'find_aero_center') else 'affine model'))
HARNESSES.append(H('derivatives with propeller', lambda e: analysis(e, 'derivatives', props=True), bounds='any model'))
HARNESSES += [H('error of ' + w, lambda e, w=w: errors(e, w), bounds='') for w in ('derivatives', 'stall_onset', 'stall_airspeed', 'target_lift', 'pitch_trim')]
