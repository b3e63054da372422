from .lib import *

COVERAGE = 'Wing ends of one airplane with a root wing, a wing on its tips and a wing on the tips of that one, every dimension symbolic, sides left/right/both; ends compared with the documented placement; plus the airplane position used as origin.'


def ends(wing, side):
    seg = {s.get_side(): s for s in wing.get_wingsegments()}[side]
    L, R = seg.get_position('left_tip'), seg.get_position('right_tip')
    return (R, L) if side == 'left' else (L, R)


def placement(env, sides):
    ap = make_airplane(env)
    d1, d2 = wing_dims(env, 'w1'), wing_dims(env, 'w2')
    w1 = ap.add_wing('w1', side=sides[0], **d1)
    w2 = ap.add_wing('w2', connect_to=('w1', 'tip'), side=sides[1], **d2)
    for side in ('left', 'right'):
        if sides[0] not in (side, 'both'):
            continue
        r, t = root_tip(env, d1, side, [0, 0, 0])
        er, et = ends(w1, side)
        env.eq('root end of parent, ' + side, er, env.array(r))
        env.eq('tip end of parent, ' + side, et, env.array(t))
        env.eq('tip of parent as connection point, ' + side, w1.get_position(side + '_tip'), env.array(t))
        if sides[1] in (side, 'both'):
            r2, t2 = root_tip(env, d2, side, t)
            er, et = ends(w2, side)
            env.eq('root end of child, ' + side, er, env.array(r2))
            env.eq('tip end of child, ' + side, et, env.array(t2))


def chain(env):
    ap = make_airplane(env)
    p = [0, 0, 0]
    ds = []
    ws = []
    for k in range(3):
        d = wing_dims(env, 'w%d' % k)
        ds.append(d)
        ws.append(ap.add_wing('w%d' % k, connect_to=(('w%d' % (k - 1)) if k else None, 'tip'), side='both', **d))
    for side in ('left', 'right'):
        p = [0, 0, 0]
        for k in range(3):
            r, t = root_tip(env, ds[k], side, p)
            er, et = ends(ws[k], side)
            env.eq('chain root %d %s' % (k, side), er, env.array(r))
            env.eq('chain tip %d %s' % (k, side), et, env.array(t))
            p = t


def origin(env, kind):
    P = [env.real('px', -9, 9), env.real('py', -9, 9), env.real('pz', -9, 9)]
    pos = env.array(P) if kind == 'array' else P
    ap = env.m.geometry.Airplane('a', position=pos)
    d = wing_dims(env, 'w')
    w = ap.add_wing('w', side='both', **d)
    for side in ('left', 'right'):
        r, t = root_tip(env, d, side, P)
        er, et = ends(w, side)
        env.eq('root, %s' % side, er, env.array(r))
        env.eq('tip, %s' % side, et, env.array(t))


def defaults(env):
    """a wing given only a span sits at the airplane's origin, straight and flat, chord tip = root"""
    ap = make_airplane(env)
    b, c = env.real('span', 0.5, 9), env.real('chord', 0.2, 3)
    w = ap.add_wing('w', semispan=b, root_chord=c)
    for side, s in (('left', -1), ('right', 1)):
        er, et = ends(w, side)
        env.eq('default root', er, env.array([0, 0, 0]))
        env.eq('default tip', et, env.array([0, s * b, 0]))
    seg = w.get_wingsegments()[0]
    env.eq('tip chord defaults to root chord', list(seg.get_chord()), [c, c])


HARNESSES = [H('placement/both+both', lambda e: placement(e, ('both', 'both')), bounds='2 wings'),
             H('placement/left+left', lambda e: placement(e, ('left', 'left')), bounds='2 wings'),
             H('placement/right+right', lambda e: placement(e, ('right', 'right')), bounds='2 wings'),
             H('placement/both+right', lambda e: placement(e, ('both', 'right')), bounds='2 wings'),
             H('placement/both+left', lambda e: placement(e, ('both', 'left')), bounds='2 wings'),
             H('chain of three', chain, bounds='3 wings deep'),
             H('airplane position (list)', lambda e: origin(e, 'list'), bounds='1 wing'),
             H('airplane position (array)', lambda e: origin(e, 'array'), bounds='1 wing'),
             H('defaults', defaults, bounds='1 wing')]
