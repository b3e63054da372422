from .stllib import *

COVERAGE = 'STL export of wings and blades with any four digits (each any real number from 0 to 9, place of the camber and thickness not zero unless stated) under either spelling of the name: every point of the outline is the four-digit thickness laid off normal to the camber line of the digits, both surfaces from one cosine spacing of the chord, quarter chord at the section; no digits without camber or place of camber: symmetric sections; sections between root and tip blend the two outlines; names that are not four-digit sections are exported as 2412.  Outside: other shapes of names than the listed ones.'


def digits(env, p='', camber=True):
    d = [env.digit(p + 'camber', 1, 9), env.digit(p + 'place', 1, 9)] if camber else [0, 0]
    return d + [env.digit(p + 'tens', 0, 4), env.digit(p + 'units', 0, 9)]


def wing(env, side='right', **names):
    ap = make_airplane(env, [0, 0, 0])
    d = wing_dims(env, 'w', position=[0, 0, 0], yoffset=0, sweep=0, dihedral=0, mount_angle=0, washout=0, grid=2, is_main=True)
    w = ap.add_wing('w', side=side, **d)
    for end, name in names.items():
        w.airfoil(name, end=end, **CONST_AF)
    mu = env.m.MU.MachUp(inputAirplane=ap)
    return mu, d


def export(env, mu):
    if env.symbolic:
        env.abstract = True      # digits are real numbers here
        # what the airplane carries does not matter here
        env.m.llmodel.LLModel.solve = lambda *a, **k: {'total': {}}
    mu.create_stl(filename=env.path('o.stl'))
    return env.stl_triangles('o.stl')


def sections(env, side, root, tip):
    """root and tip outlines given by digits; the two sections of a flat wing without twist"""
    mu, d = wing(env, side, **({'both': root[1]} if tip is None else {'root': root[1], 'tip': tip[1]}))
    T = export(env, mu)
    n = len(T) // 2 + 1
    a = outline(env, root[0], n)
    b = a if tip is None else outline(env, tip[0], n)
    grid = env.m.llgrid.LLGrid(mu.myairplane)
    C = []
    for i in range(2):
        y = grid.get_cp_spacing()[i] if side == 'right' else 1 - grid.get_cp_spacing()[i]
        c = d['root_chord'] + (d['tip_chord'] - d['root_chord']) * y
        p = grid.get_control_point_pos()[i]
        o = mix(a, b, y)
        C.append([[p[0] - (u - env.rat(1, 4)) * c, p[1], p[2] - v * c] for u, v in o])
    strip(env, 'section', T, C[0], C[1])


def cambered(env, prefix, side='right', two=False):
    a = digits(env)
    b = digits(env, 't_') if two else None
    sections(env, side, (a, env.digits(prefix, *a)), (b, env.digits(prefix, *b)) if two else None)


def plain(env, prefix, what):
    """no camber, or no place for it: symmetric"""
    a = digits(env, camber=False)
    a[:2] = dict(both=[0, 0], camber=[0, 4], place=[3, 0])[what]
    name = env.digits(prefix, *a)
    sections(env, 'right', (a, name), None)


def named(env, name, like):
    d = [int(x) for x in like]
    sections(env, 'right', ([env.rat(x) for x in d] if env.symbolic else d, name), None)


def blades(env, where=None, prefix='NACA'):
    """outline of blade sections of a flat blade"""
    env.expand_atan2()
    ap = make_airplane(env, [0, 0, 0])
    p = ap.add_prop('p', position=[0, 0, 0], orientation=[0, 0], nodes=2, diameter=2, hub_diameter=env.rat(1, 2), num_of_blades=1,
                    pitch_info=dict(type='value', value=0))
    a = digits(env)
    p.airfoil(env.digits(prefix, *a), alpha_L0=0, CL_alpha=6, CL_max=env.rat(7, 5), Cm_L0=0, Cm_alpha=0, CD0=env.rat(1, 100), CD0_L=0, CD0_L2=env.rat(1, 100))
    mu = env.m.MU.MachUp(inputAirplane=ap)
    if env.symbolic:
        env.abstract = True
        env.m.propssolver.PropsSolver.solve = lambda *a, **k: ({'total': {}}, None)
    mu.create_stl(filename=env.path('o.stl'))
    T = env.stl_triangles('o.stl')
    n = len(T) // 2 + 1
    o = outline(env, a, n)
    pm = mu.myprops.get_prop_models()[0]
    c, r = pm.get_chord(), pm.get_radial_position()
    # chord line across the axis: leading edge where the top blade goes, upper surface ahead
    C = [[[v * c[i], (env.rat(1, 4) - u) * c[i], -r[i]] for u, v in o] for i in range(2)]
    strip(env, 'blade', T, C[0], C[1])


B = '2 sections, outlines of 50 points'
HARNESSES = [H('cambered, ' + p, lambda e, p=p: cambered(e, p), bounds=B) for p in ('NACA', 'naca')]
HARNESSES += [H('root and tip, ' + s, lambda e, s=s: cambered(e, 'NACA', s, True), bounds=B) for s in ('right', 'left')]
HARNESSES += [H('symmetric, no ' + w, lambda e, w=w: plain(e, 'NACA', w), bounds=B) for w in ('both', 'camber', 'place')]
HARNESSES += [H('name ' + n, lambda e, n=n, k=k: named(e, n, k), bounds=B) for n, k in (('NACA4415', '4415'), ('naca0012', '0012'), ('af', '2412'), ('NACA23012', '2412'), ('NACAroot', '2412'), ('NACA44', '2412'), ('Clark Y4', '2412'), ('NACA 4415', '2412'))]
HARNESSES += [H('blade', blades, bounds=B), H('blade, lower case', lambda e: blades(e, prefix='naca'), bounds=B)]
