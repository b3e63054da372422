from .mulib import *

COVERAGE = 'MachUp built from the API or a file with none, one or both reference lengths, for all dimensions, wings beside and carried by each other: the lengths used (attributes, section_CL_ref, and the coefficients of moments and rates in the derivatives) are the given ones, and derived ones satisfy lateral x longitudinal = area with the lateral length twice the largest semispan.'


def plane_of(env, wings, refs):
    ap = make_airplane(env, [0, 0, 0])
    spans = []
    for k, (side, main) in enumerate(wings):
        d = wing_dims(env, 'w%d' % k, position=[-3 * k, 0, 0], yoffset=0, sweep=0, dihedral=0, mount_angle=0, washout=0, grid=1, is_main=main)
        ap.add_wing('w%d' % k, side=side, **d).airfoil('af', **CONST_AF)
        spans.append(d['semispan'])
    if refs:
        ap.set_reference_lengths(**refs)
    return ap, spans


def expect(env, mu, spans, r, S):
    lat, lon = r.get('lateral'), r.get('longitudinal')
    if lat is None and lon is None:
        big = spans[0]
        for s in spans[1:]:
            big = env.ite(s > big, s, big)
        lat = 2 * big
    if lat is None:
        lat = S / lon
    if lon is None:
        lon = S / lat
    return lat, lon


def attached(env, given=(), sides=('both', 'both')):
    """a wing carried by another one, of any span (longer than the carrier too)"""
    r = {k: env.real('ref_' + k, 0.5, 12) for k in given}
    ap = make_airplane(env, [0, 0, 0])
    spans = []
    for k, side in enumerate(sides):
        d = wing_dims(env, 'w%d' % k, position=[0, 0, 0], yoffset=0, sweep=0, dihedral=0, mount_angle=0, washout=0, grid=1, is_main=k == 0)
        ap.add_wing('w%d' % k, side=side, connect_to=('w0' if k else None, 'tip'), **d).airfoil('af', **CONST_AF)
        spans.append(d['semispan'])
    if r:
        ap.set_reference_lengths(**r)
    mu = env.m.MU.MachUp(inputAirplane=ap)
    S = area(env, list(zip(sides, (True, False))), mu)
    lat, lon = expect(env, mu, spans, r, S)
    env.eq('area', mu.Sw, S)
    env.eq('lateral', mu.lat_ref, lat)
    env.eq('longitudinal', mu.long_ref, lon)


def area(env, wings, W):
    """planform area of the main wings"""
    S = 0
    for k, (side, main) in enumerate(wings):
        if main:
            d = {n: env.real('w%d_%s' % (k, n), a, b) for n, a, b in (('semispan', .5, 10), ('root_chord', .3, 4), ('tip_chord', .2, 4))}
            S = S + d['semispan'] * (d['root_chord'] + d['tip_chord']) / 2 * (2 if side == 'both' else 1)
    return S


def lengths(env, wings, given=(), how='both'):
    r = {k: env.real('ref_' + k, 0.5, 12) for k in given}
    if how == 'one by one':
        ap, spans = plane_of(env, wings, None)
        for k in given:
            ap.set_reference_lengths(**{k: r[k]})
            break
    else:
        ap, spans = plane_of(env, wings, r)
    mu = env.m.MU.MachUp(inputAirplane=ap)
    S = area(env, wings, mu)
    lat, lon = expect(env, mu, spans, r, S)
    env.eq('area', mu.Sw, S)
    env.eq('lateral', mu.lat_ref, lat)
    env.eq('longitudinal', mu.long_ref, lon)


def used(env, given=()):
    """the lengths that enter the coefficients"""
    plant = Plant(env)
    r = {k: env.real('ref_' + k, 0.5, 12) for k in given}
    ap, spans = plane_of(env, [('both', True)], r)
    mu = env.m.MU.MachUp(inputAirplane=ap)
    S = area(env, [('both', True)], mu)
    lat, lon = expect(env, mu, spans, r, S)
    st, ct = full_state(env), full_control(env)
    got = mu.derivatives(aero_state=st, control_state=ct)
    q = st['rho'] * st['V_mag'] * st['V_mag'] / 2 * S
    for group, name, d, suffix in (('stability_derivatives', 'alpha', env.rat(1, 2), 'a'), ('damping_derivatives', 'roll_rate', None, 'pbar'), ('damping_derivatives', 'pitch_rate', None, 'qbar'), ('damping_derivatives', 'yaw_rate', None, 'rbar')):
        ref = lon if name == 'pitch_rate' else lat
        h = env.rad(d) if d is not None else env.rat(1, 200)
        if d is None:
            d = h * 2 * st['V_mag'] / ref
        lo, hi = [plant.result(dict(st, **{name: st[name] + s * d}), ct) for s in (-1, 1)]
        for c, f, l in (('Cl', 'MX', lat), ('Cm', 'MY', lon), ('Cn', 'MZ', lat)):
            env.eq('%s_%s' % (c, suffix), got[group]['%s_%s' % (c, suffix)], (hi[f] - lo[f]) / (2 * h) / q / l)


def section(env, given=()):
    """section_CL_ref of the distributions"""
    cut_grid(env, skip=('get_reference_area',))
    r = {k: env.real('ref_' + k, 0.5, 12) for k in given}
    ap, spans = plane_of(env, [('both', True)], r)
    mu = env.m.MU.MachUp(inputAirplane=ap)
    S = area(env, [('both', True)], mu)
    lat, lon = expect(env, mu, spans, r, S)
    w, _ = mu.distributions(aero_state=dict(V_mag=env.real('V_mag', 5, 50), rho=env.real('rho', 0.1, 1.3), alpha=env.real('alpha', -5, 10)))
    env.eq('section_CL_ref', w['section_CL_ref'], w['section_CL'] * w['chord'] / lon)


def from_file(env, given):
    r = {k: env.real('ref_' + k, 0.5, 12) for k in given}
    d = {n: env.real('w0_' + n, a, b) for n, a, b in (('semispan', .5, 10), ('root_chord', .3, 4), ('tip_chord', .2, 4))}
    j = {'plane': {'name': 'a', 'CGx': 0, 'CGy': 0, 'CGz': 0}, 'reference': {'lateral_length': None, 'longitudinal_length': None}, 'condition': {}, 'wings': {'w0': {
        'ID': 1, 'side': 'both', 'is_main': True, 'connect': {'ID': 0, 'location': 'tip', 'dx': 0, 'dy': 0, 'dz': 0, 'yoffset': 0}, 'span': d['semispan'], 'sweep': 0, 'dihedral': 0, 'mounting_angle': 0, 'washout': 0,
        'root_chord': d['root_chord'], 'tip_chord': d['tip_chord'], 'grid': 1, 'control': {},
        'airfoils': {'af': {'properties': dict(type='linear', alpha_L0=-0.03, CL_alpha=6.2, Cm_L0=-0.05, Cm_alpha=0.02, CD0=0.007, CD0_L=-0.002, CD0_L2=0.006, CL_max=1.4)}}}}}
    for k, v in r.items():
        j['reference'][k + '_length'] = v
    mu = env.m.MU.MachUp(inputfile=env.put_json('in.json', j))
    S = area(env, [('both', True)], mu)
    lat, lon = expect(env, mu, [d['semispan']], r, S)
    env.eq('lateral', mu.lat_ref, lat)
    env.eq('longitudinal', mu.long_ref, lon)


LA, LO = 'lateral', 'longitudinal'
HARNESSES = []
for g in ((), (LA,), (LO,), (LA, LO)):
    n = ' and '.join(g) or 'none'
    HARNESSES += [H('%s given' % n, lambda e, g=g: lengths(e, [('both', True)], g), bounds='1 section per side'),
                  H('%s given, coefficients' % n, lambda e, g=g: used(e, g), bounds='any model'),
                  H('%s given, section_CL_ref' % n, lambda e, g=g: section(e, g), bounds='2 sections'),
                  H('%s in a file' % n, lambda e, g=g: from_file(e, g), bounds='1 section per side')]
HARNESSES += [H('none given, two wings', lambda e: lengths(e, [('both', True), ('both', False)]), bounds='1 section per side'), H('none given, two main wings', lambda e: lengths(e, [('both', True), ('both', True)]), bounds='1 section per side'),
              H('none given, one side', lambda e: lengths(e, [('right', True)]), bounds='1 section'), H('none given, three wings', lambda e: lengths(e, [('both', False), ('left', True), ('right', True)]), bounds='1 section per side'),
              H('none given, one left side', lambda e: lengths(e, [('left', True)]), bounds='1 section'), H('none given, left sides', lambda e: lengths(e, [('left', True), ('left', False)]), bounds='1 section'),
             H('lateral given, two wings', lambda e: lengths(e, [('both', False), ('both', True)], (LA,)), bounds='1 section per side'),
              H('longitudinal given, two wings', lambda e: lengths(e, [('both', False), ('both', True)], (LO,)), bounds='1 section per side'),
              H('lateral given alone', lambda e: lengths(e, [('both', True)], (LA,), 'one by one'), bounds='1 section per side'),
              H('none given, a wing on a wing', attached, bounds='2 sections per side'), H('none given, one side carried', lambda e: attached(e, sides=('both', 'right')), bounds='2 sections, 1 section'),
              H('none given, a winglet on one side', lambda e: attached(e, sides=('left', 'left')), bounds='2 sections'), H('longitudinal given, a wing on a wing', lambda e: attached(e, (LO,)), bounds='2 sections per side')]
