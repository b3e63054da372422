from .lib import *

COVERAGE = 'Airplanes described once by an input file (every number symbolic) and once by the corresponding API calls: identity of segments, airfoils, control surfaces, grid, centre of gravity, reference lengths, units and propellers, for one and two airfoils, connected wings, absent control surfaces, optional entries present and absent; unknown units rejected.'
GRID = ('control_point_pos', 'corner_point_pos', 'cp_spacing', 'lift_slopes', 'max_lifts', 'drag_coefficients', 'moment_slopes', 'chord_length', 'chord_lengths', 'integral_chord2', 'section_areas',
        'reference_area', 'unit_axial_vectors', 'unit_normal_vectors', 'flap_effectiveness', 'zero_lift_alpha', 'left_zero_lift_alpha', 'right_zero_lift_alpha', 'left_lift_slopes', 'right_lift_slopes',
        'left_drag_coeff', 'right_drag_coeff', 'left_moment_slopes', 'right_moment_slopes', 'left_zero_lift_moments', 'right_zero_lift_moments', 'twist', 'sweep', 'dihedral', 'control_mix', 'cg_location')


def file_wing(i, d, side, n, parent, afs, control, is_main):
    w = dict(ID=i, side=side, connect=dict(ID=parent, location='tip', dx=d['position'][0], dy=d['position'][1], dz=d['position'][2], yoffset=d['yoffset']),
             span=d['semispan'], sweep=d['sweep'], dihedral=d['dihedral'], mounting_angle=d['mount_angle'], washout=d['washout'], root_chord=d['root_chord'], tip_chord=d['tip_chord'], grid=n,
             airfoils={name: dict(properties=p) for name, p in afs}, control=control)
    if is_main is not None:
        w['is_main'] = is_main
    return w


def file_plane(env, cg, refs, units, wings, props):
    c = dict(units=units) if units != 'none' else {}
    return dict(plane=dict(name='p', CGx=cg[0], CGy=cg[1], CGz=cg[2]), reference=dict(longitudinal_length=refs[1], lateral_length=refs[0]), condition=c, **(dict(wings=wings) if wings else {}), **(dict(propellers=props) if props else {}))


def same(env, a, b, grid=True):
    env.check('name', a.name == 'p')
    env.eq('cg', a.get_cg_location(), b.get_cg_location())
    env.eq('lateral reference', a.get_lat_ref(), b.get_lat_ref())
    env.eq('longitudinal reference', a.get_long_ref(), b.get_long_ref())
    sa, sb = a.get_wingsegments(), b.get_wingsegments()
    env.check('number of segments', len(sa) == len(sb))
    env.check('number of sections', a.get_num_sections() == b.get_num_sections())
    for x, y in zip(sa, sb):
        n = x.name
        env.check('segment name %s' % n, n == y.name and x.get_side() == y.get_side())
        for k in ('left_tip', 'right_tip'):
            env.eq('%s %s' % (n, k), x.get_position(k), y.get_position(k))
        for k in ('get_span', 'get_mounting_angle', 'get_washout', 'get_dihedral', 'get_sweep', 'get_num_sections'):
            env.eq('%s %s' % (n, k), getattr(x, k)(), getattr(y, k)())
        env.eq('%s chords' % n, list(x.get_chord()), list(y.get_chord()))
        for e, f, g in zip(('root', 'tip'), x.get_airfoils(), y.get_airfoils()):
            env.check('%s %s airfoil name' % (n, e), f.get_name() == g.get_name())
            airfoil_same(env, '%s %s' % (n, e), f, g)
        env.eq('%s control span' % n, list(x.get_control_surface_span()), list(y.get_control_surface_span()))
        env.eq('%s control chord' % n, list(x.get_control_surface_chord()), list(y.get_control_surface_chord()))
        env.eq('%s control mix' % n, list(x.get_control_mix()), list(y.get_control_mix()))
        env.check('%s sealing' % n, bool(x.is_control_surface_sealed()) == bool(y.is_control_surface_sealed()))
    if grid and sa:
        ga, gb = env.m.llgrid.LLGrid(a), env.m.llgrid.LLGrid(b)
        for k in GRID:
            u, v = getattr(ga, 'get_' + k)(), getattr(gb, 'get_' + k)()
            for i, (p, q) in enumerate(zip(u, v) if isinstance(u, tuple) else [(u, v)]):
                env.eq('grid %s %d' % (k, i), p, q)
    pa, pb = a.get_props(), b.get_props()
    env.check('number of propellers', len(pa) == len(pb))
    for x, y in zip(pa, pb):
        env.check('propeller name', x.name == y.name)
        for k in ('get_position', 'get_orientation'):
            env.eq('%s %s' % (x.name, k), list(getattr(x, k)()), list(getattr(y, k)()))
        for k in ('get_number_of_nodes', 'get_diameter', 'get_hub_diameter', 'get_num_of_blades', 'get_rot_dir'):
            env.eq('%s %s' % (x.name, k), getattr(x, k)(), getattr(y, k)())
        for k in ('get_pitch_info', 'get_chord_info', 'get_motor_info'):
            u, v = getattr(x, k)(), getattr(y, k)()
            env.check('%s %s keys' % (x.name, k), sorted(u) == sorted(v))
            for q in sorted(v):
                env.eq('%s %s %s' % (x.name, k, q), u[q], v[q])
        u, v = x.get_airfoils(), y.get_airfoils()
        env.check('%s airfoils' % x.name, list(u) == list(v))
        for q in v:
            airfoil_same(env, '%s airfoil %s' % (x.name, q), u[q], v[q])


def airfoil_same(env, l, f, g):
    for k in ('get_lift_slope', 'get_zero_lift_alpha', 'get_max_lift', 'get_moment_slope', 'get_zero_lift_moment'):
        env.eq('%s %s' % (l, k), getattr(f, k)(), getattr(g, k)())
    env.eq('%s drag' % l, list(f.get_drag_coefficients()), list(g.get_drag_coefficients()))
    env.check('%s span position' % l, f.get_span_position() == g.get_span_position())


def ctl(env, p, keys=CH, sealed=0):
    r = dict(span_root=env.real(p + '_s0', 0, 0.4), span_tip=env.real(p + '_s1', 0.6, 1), chord_root=env.real(p + '_c0', 0.1, 0.5), chord_tip=env.real(p + '_c1', 0.1, 0.5), is_sealed=sealed,
             mix={k: env.real('%s_m%s' % (p, k), -1, 1) for k in keys})
    return r


def wings(env, side, two, control, child, is_main, units='English', sections=1):
    cg = [env.real('cg' + c, -3, 3) for c in 'xyz']
    refs = [env.real('lat', 1, 20), env.real('long', 0.1, 5)]
    W = {}
    b = make_airplane(env, cg, 'p')
    b.set_reference_lengths(lateral=refs[0], longitudinal=refs[1])
    # section membership must not branch on the control-surface limits: sections in the middle are inside, n=1
    for k in range(2 if child else 1):
        p = ('w1', 'w0')[k]         # no order of names or numbers is meant to matter
        d = wing_dims(env, p)
        afs = [(p + 'z', airfoil(env, p + 'r'))] + ([(p + 'a', airfoil(env, p + 't'))] if two else [])
        c = ctl(env, p, CH if k == 0 else ('elevator',), k) if control else {}
        W[p] = file_wing(10 - 3 * k, d, side, sections, 10 if k else 0, afs, c, is_main)
        kw = {} if is_main is None else dict(is_main=is_main)
        w = b.add_wing(p, connect_to=('w1', 'tip') if k else (None, 'tip'), side=side, grid=sections, **d, **kw)
        if two:
            w.airfoil(afs[0][0], 'root', **afs[0][1])
            w.airfoil(afs[1][0], 'tip', **afs[1][1])
        else:
            w.airfoil(afs[0][0], 'both', **afs[0][1])
        if control:
            w.control_surface(percent_span=(c['span_root'], c['span_tip']), percent_chord=(c['chord_root'], c['chord_tip']), mix=c['mix'], sealed=c['is_sealed'])
    fn = env.put_json('plane.json', file_plane(env, cg, refs, units, W, {}))
    a = env.m.geometry.Airplane(inputfile=fn)
    env.check('units', a.get_units() == {'English': 'English', 'english': 'English', 'SI': 'SI', 'si': 'SI', 'none': None}[units])
    same(env, a, b)


def props(env, motor, two, rot, pitch, chord, wing=False):
    cg = [env.real('cg' + c, -3, 3) for c in 'xyz']
    refs = [env.real('lat', 1, 20), env.real('long', 0.1, 5)]
    b = make_airplane(env, cg, 'p')
    b.set_reference_lengths(lateral=refs[0], longitudinal=refs[1])
    PD = {}
    for k in range(2):
        p = 'prop%d' % (1 - k)
        pos = [env.real('%s_%s' % (p, c), -3, 3) for c in 'xyz']
        ori = [env.real(p + '_el', -20, 20), env.real(p + '_he', -20, 20)]
        dia, hub = env.real(p + '_d', 0.5, 3), env.real(p + '_h', 0.05, 0.3)
        pi = dict(type='ratio', value=env.real(p + '_pr', 0.3, 1.5)) if pitch == 'ratio' else dict(type='value', value=env.real(p + '_pv', 0.3, 1.5))
        ci = dict(type='linear', root=env.real(p + '_cr', 0.05, 0.3), tip=env.real(p + '_ct', 0.02, 0.2)) if chord == 'linear' else dict(type='elliptical', root=env.real(p + '_cr', 0.05, 0.3))
        afs = [(p + 'B', airfoil(env, p + 'a'))] + ([(p + 'A', airfoil(env, p + 'b'))] if two else [])
        e = dict(position=dict(dx=pos[0], dy=pos[1], dz=pos[2]), orientation=dict(elevation_angle=ori[0], heading_angle=ori[1]), radial_nodes=5 + k, diameter=dia, hub_diameter=hub, num_of_blades=2 + k,
                 rotation_direction=rot, pitch=pi, chord=ci, airfoils={n: dict(properties=q) for n, q in afs})
        m = dict(motor_kv=env.real(p + '_kv', 100, 900), gear_reduction=env.real(p + '_gr', 1, 3)) if motor else {}
        if motor:
            e['electric_motor'] = m
        PD[p] = e
        x = b.add_prop(p, position=pos, orientation=ori, nodes=5 + k, diameter=dia, hub_diameter=hub, num_of_blades=2 + k, rot_dir=rot, pitch_info=pi, chord_info=ci, electric_motor=m)
        for i, (n, q) in enumerate(afs):
            x.airfoil(n, span_position=(('root', 'tip')[i] if two else None), **q)
    W = {}
    if wing:
        d = wing_dims(env, 'w0')
        af = airfoil(env, 'w0r')
        W['w0'] = file_wing(3, d, 'both', 2, 0, [('af', af)], {}, 1)
        b.add_wing('w0', side='both', grid=2, **d).airfoil('af', **af)
    fn = env.put_json('plane.json', file_plane(env, cg, refs, 'SI', W, PD))
    same(env, env.m.geometry.Airplane(inputfile=fn), b)


def defaults(env):
    """dimensions left out of add_wing take the documented defaults"""
    a, b = make_airplane(env), make_airplane(env)
    a.add_wing('w')
    c = env.real('c', 0.2, 3)
    b.add_wing('w', connect_to=(None, 'tip'), side='both', position=[0, 0, 0], semispan=4, root_chord=1, tip_chord=1, sweep=0, dihedral=0, mount_angle=0, washout=0, grid=40, yoffset=0, is_main=1)
    a.name = b.name = 'p'
    same(env, a, b, grid=False)
    a.add_wing('v', root_chord=c, grid=1)
    b.add_wing('v', root_chord=c, tip_chord=c, grid=1)
    same(env, a, b, grid=False)


def bad_units(env):
    fn = env.put_json('plane.json', file_plane(env, [0, 0, 0], [env.real('lat', 1, 2), 1], 'furlongs', {}, {}))
    try:
        env.m.geometry.Airplane(inputfile=fn)
    except RuntimeError:
        env.check('unknown units are rejected', True)
    else:
        env.fail('unknown units are rejected')


def no_file(env):
    x = env.real('x', 0, 1)
    try:
        env.m.geometry.Airplane(inputfile=env.path('absent.json'))
    except (OSError, IOError):
        env.check('a missing file is reported', x <= 1)
    else:
        env.fail('a missing file is reported')


HARNESSES = [H('both, one airfoil, no control', lambda e: wings(e, 'both', False, False, False, None), bounds='1 wing, 1 section per side'),
             H('both, two airfoils, control', lambda e: wings(e, 'both', True, True, False, 1, 'english'), bounds='1 wing, 1 section per side'),
             H('right, two airfoils, control, child', lambda e: wings(e, 'right', True, True, True, 0, 'SI'), bounds='2 connected wings, 1 section'),
             H('left, one airfoil, child, control', lambda e: wings(e, 'left', False, True, True, None, 'si'), bounds='2 connected wings, 1 section'),
             H('both, child', lambda e: wings(e, 'both', True, False, True, 1, 'none', 3), bounds='2 connected wings, 3 sections per side'),
             H('propellers', lambda e: props(e, False, False, 'CW', 'ratio', 'linear'), bounds='2 propellers'),
             H('propellers, motor, two airfoils', lambda e: props(e, True, True, 'CCW', 'value', 'elliptical'), bounds='2 propellers'),
             H('wing and propellers', lambda e: props(e, False, True, 1, 'ratio', 'elliptical', True), bounds='2 propellers, 1 wing'),
             H('defaults', defaults, bounds='2 wings'),
             H('bad units', bad_units), H('missing file', no_file)]
