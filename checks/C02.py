from .lib import *

COVERAGE = 'Grids of one and two wings (1..4 sections per side, cosine and linear spacing, left/right/both, main and non-main), all dimensions symbolic: vortex corners, control points, chords, areas, chord-squared integrals, reference area.'


def grid(env, n, cosine, side, mains=(1,), nref=None):
    ap = make_airplane(env)
    ds = []
    for k, m in enumerate(mains):
        d = wing_dims(env, 'w%d' % k, grid=n + k, is_main=m)
        ds.append(d)
        ap.add_wing('w%d' % k, side=side, **d)
        seg = d['semispan'] / env.cos(env.rad(d['sweep']))
        cor, cp = spacing(env, n + k, cosine)
        env.hint_root(seg)
        env.hint_root(*[seg * (cor[i + 1] - cor[i]) for i in range(n + k)])
    g = env.m.llgrid.LLGrid(ap, cosine_spacing=cosine)
    r = g.get_control_point_pos()
    r1, r2 = g.get_corner_point_pos()
    c, (c1, c2) = g.get_chord_length(), g.get_chord_lengths()
    dS, ic2 = g.get_section_areas(), g.get_integral_chord2()
    tw, sw, dh, names = g.get_twist(), g.get_sweep(), g.get_dihedral(), g.get_wing_names()
    i = 0
    ref = env.rat(0)
    for k, m in enumerate(mains):
        d = ds[k]
        N = n + k
        cor, cp = spacing(env, N, cosine)
        for sd in (('left', 'right') if side == 'both' else (side,)):
            root, tip = root_tip(env, d, sd, [0, 0, 0])
            (L, R), (cl, cr), (wl, wr) = ((tip, root), (d['tip_chord'], d['root_chord']), (d['washout'], 0)) if sd == 'left' else \
                ((root, tip), (d['root_chord'], d['tip_chord']), (0, d['washout']))
            first = i
            for j in range(N):
                pt = lambda t: env.array([lerp(L[q], R[q], t) for q in range(3)])
                lab = '%s[%d]' % (sd, j)
                env.eq('left corner ' + lab, r1[i], pt(cor[j]))
                env.eq('right corner ' + lab, r2[i], pt(cor[j + 1]))
                env.eq('control point ' + lab, r[i], pt(cp[j]))
                env.lt('control point fraction lies inside its section', cor[j], cp[j])
                env.lt('control point fraction lies inside its section', cp[j], cor[j + 1])
                ca, cb = lerp(cl, cr, cor[j]), lerp(cl, cr, cor[j + 1])
                env.eq('chord ' + lab, c[i], lerp(cl, cr, cp[j]))
                env.eq('corner chords ' + lab, [c1[i], c2[i]], [ca, cb])
                ds_ = d['semispan'] * (cor[j + 1] - cor[j])
                env.eq('section area ' + lab, dS[i], ds_ * (ca + cb) / 2)
                env.eq('chord squared integral ' + lab, ic2[i], ds_ * (ca * ca + ca * cb + cb * cb) / 3)
                env.eq('twist ' + lab, tw[i], d['mount_angle'] - lerp(wl, wr, cp[j]))
                env.eq('sweep, dihedral ' + lab, [sw[i], dh[i]], [d['sweep'], d['dihedral']])
                env.check('name ' + lab, str(names[i]).startswith(sd) and str(names[i]).endswith('w%d' % k))
                if j:
                    env.eq('contiguous ' + lab, r1[i], r2[i - 1])
                i += 1
            env.eq('first corner is the left end', r1[first], env.array(L))
            env.eq('last corner is the right end', r2[i - 1], env.array(R))
            area = d['semispan'] * (d['root_chord'] + d['tip_chord']) / 2
            env.eq('segment areas add up to the trapezoid', sum(dS[first:i]), area)
            if m:
                ref = ref + area
    env.eq('number of sections', len(r), i)
    env.eq('reference area counts the main wings only', g.get_reference_area(), ref)


HARNESSES = [H('cosine both n=%d' % n, lambda e, n=n: grid(e, n, True, 'both'), bounds='%d sections per side' % n) for n in (1, 2, 3)] + [
    H('linear both n=2', lambda e: grid(e, 2, False, 'both'), bounds='2 sections per side'),
    H('linear left n=3', lambda e: grid(e, 3, False, 'left'), bounds='3 sections'),
    H('cosine right n=4', lambda e: grid(e, 4, True, 'right'), bounds='4 sections'),
    H('cosine left n=4', lambda e: grid(e, 4, True, 'left'), bounds='4 sections'),
    H('main and tail', lambda e: grid(e, 2, True, 'both', (1, 0)), bounds='2 wings, 2 and 3 sections per side'),
    H('tail and main', lambda e: grid(e, 1, True, 'both', (0, 1)), bounds='2 wings, 1 and 2 sections per side'),
    H('two mains', lambda e: grid(e, 1, False, 'right', (1, 1)), bounds='2 wings')] + [
    H('cosine both n=%d' % n, lambda e, n=n: grid(e, n, True, 'both'), bounds='%d sections per side' % n, thorough_only=True) for n in (5, 6)] + [
    H('linear both n=20', lambda e: grid(e, 20, False, 'both'), bounds='20 sections per side', thorough_only=True),
]
