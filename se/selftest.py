"""the stand-ins against the libraries they stand for, on fixed numbers"""
import numpy as np
import math
import scipy.integrate
import scipy.interpolate
from . import facade as F
from . import terms as T
from .terms import Node, SymBool, lift, const


def num(x):
    if isinstance(x, (list, tuple)):
        return [num(e) for e in x]
    a = np.asarray(x)
    if a.dtype != object:
        return a.astype(float)
    return np.array([float(bool(e)) if isinstance(e, (SymBool, bool)) else float(lift(e).sh[0]) for e in a.flat]).reshape(a.shape)


class Decider:
    """comparisons of numbers, decided by their values"""
    def decide(self, b):
        f = {"<": lambda t: t < 0, "<=": lambda t: t <= 0, "==": lambda t: t == 0}
        if b.op in f:
            return f[b.op](b.args[0].sh[0])
        if b.op == "not":
            return not bool(b.args[0])
        r = [bool(x) for x in b.args]
        return all(r) if b.op == "and" else any(r)


def run():
    T.set_engine(T.Engine())
    T.E.path = Decider()
    A = np.array([[0.5, -1.25, 2.], [3., 0.75, -0.125], [1.5, 2.5, 0.25]])
    B = np.array([[1., 2., -0.5], [0.25, -3., 1.], [2., 0.5, 4.]])
    v, w = A[0], B[1]
    T3 = np.stack([A, B])
    x = np.array([0.1, 0.4, 0.5, 0.9, 1.4, 1.5])
    y = np.array([1., -2., 0.5, 3., 2., -1.])
    cases = [
        ('sum', (A,), dict(axis=0)), ('sum', (A,), dict(axis=1, keepdims=True)), ('sum', (T3,), dict(axis=(0, 2))), ('mean', (A,), dict(axis=1)),
        ('mean', (A,), {}), ('prod', (A,), dict(axis=0)), ('cumsum', (A,), dict(axis=0)), ('cumsum', (A,), dict(axis=1)), ('cumsum', (v,), {}),
        ('cumprod', (v,), {}), ('diff', (A,), dict(axis=0)), ('diff', (v,), {}), ('diff', (x,), dict(n=2)), ('diff', (x,), dict(prepend=0.)),
        ('max', (A,), dict(axis=0)), ('min', (A,), dict(axis=1, keepdims=True)), ('argmax', (A,), dict(axis=0)), ('argmin', (A,), {}), ('argsort', (A,), dict(axis=1)),
        ('sort', (v,), {}), ('searchsorted', (x, np.array([0.45, 2., 0.])), {}), ('digitize', (np.array([0.45, 0.4]), x), {}),
        ('std', (A,), dict(axis=0)), ('var', (A,), {}), ('average', (A,), dict(axis=0, weights=np.array([1., 2., 3.]))), ('ptp', (A,), dict(axis=0)),
        ('where', (A > 0, A, B), {}), ('where', (A > 0,), {}), ('select', ([A > 1, A < 0], [A, B], 0.5), {}), ('choose', (np.array([0, 1, 0]), [v, w]), {}),
        ('piecewise', (v, [v < 0, v >= 0], [lambda t: -t, lambda t: t * 2]), {}), ('clip', (A, -1., 1.), {}), ('dot', (A, v), {}), ('dot', (A, B), {}),
        ('matmul', (T3, A), {}), ('matmul', (T3, v), {}), ('inner', (A, B), {}), ('outer', (v, w), {}), ('cross', (A, B), {}), ('cross', (A, w), {}), ('cross', (A, B), dict(axis=0)),
        ('einsum', ('ij,ij->i', A, B), {}), ('einsum', ('ijk,k->ij', T3, v), {}), ('einsum', ('...j,...j', A, B), {}), ('einsum', ('...j,...j->...', T3, A), {}),
        ('einsum', ('ij,jk', A, B), {}), ('einsum', ('ii', A), {}), ('einsum', ('ba', A), {}), ('tensordot', (A, B, 1), {}), ('tensordot', (A, B, ([0], [1])), {}), ('vdot', (v, w), {}), ('trace', (A,), {}),
        ('trapz', (y, x), {}), ('trapz', (A, v), dict(axis=0)), ('interp', (np.array([0.2, 0., 3., 0.9]), x, y), {}), ('interp', (np.array([0.2, 0., 3., 1.5]), x, y), dict(left=0, right=0)),
        ('take', (A, [2, 0]), dict(axis=1)), ('swapaxes', (T3, 0, 2), {}), ('moveaxis', (T3, 0, -1), {}), ('split', (A, 3), {}), ('flipud', (A,), {}), ('dstack', ([A, B],), {}),
        ('atleast_2d', (v,), {}), ('take_along_axis', (A, np.array([[0], [1], [2]]), 1), {}), ('stack', ([A, B],), dict(axis=2)), ('vstack', ([A, B],), {}), ('hstack', ([v, w],), {}),
        ('column_stack', ([v, w],), {}), ('concatenate', ([A, B],), dict(axis=1)), ('tile', (v, (2, 1)), {}), ('repeat', (A, 2), dict(axis=0)), ('roll', (v, 1), {}), ('append', (v, 1.), {}),
        ('insert', (v, 1, 9.), {}), ('delete', (v, 1), {}), ('broadcast_to', (v, (2, 3)), {}), ('triu', (A,), {}), ('diag', (v,), {}), ('diag', (A,), {}), ('eye', (3,), {}),
        ('linspace', (0.2, 1.4, 7), {}), ('arange', (0, 5), {}), ('full', ((2, 2), 3.), {}), ('full_like', (A, 2.), {}), ('hypot', (v, w), {}), ('arctan2', (v, w), {}),
        ('sign', (A,), {}), ('abs', (A,), {}), ('square', (A,), {}), ('power', (np.abs(A), 1.5), {}), ('sqrt', (np.abs(A),), {}), ('mod', (A, 0.375), {}), ('floor', (A,), {}), ('ceil', (A,), {}),
        ('round', (A, 1), {}), ('log10', (np.abs(A),), {}), ('copysign', (A, B), {}), ('heaviside', (A, 0.5), {}), ('maximum', (A, B), {}), ('radians', (A,), {}), ('degrees', (A,), {}),
        ('tanh', (A,), {}), ('exp', (A,), {}), ('cosh', (A,), {}), ('any', (A > 2,), dict(axis=0)), ('all', (A > -2,), dict(axis=1)), ('count_nonzero', (A > 0,), {}),
        ('polyval', ([1., -2., 0.5], v), {}), ('apply_along_axis', (lambda r: r * r, 0, A), {}), ('isclose', (A, A + 1e-9), {}), ('kron', (A, B), {}), ('squeeze', (A[None],), {}),
        ('logical_and', (A > 0, B > 0), {}), ('logical_xor', (A > 0, B > 0), {}), ('nonzero', (A > 0,), {}),
    ]
    bad = []

    def sym(a):
        if isinstance(a, np.ndarray):
            if a.dtype.kind == 'f':
                return F.conv(a)
            return a
        if isinstance(a, (list, tuple)) and a and all(isinstance(e, np.ndarray) for e in a):
            return type(a)(sym(e) for e in a)
        return a

    def same(name, got, want):
        got, want = num(got), num(want)
        if isinstance(want, list) != isinstance(got, list):
            bad.append(name + ' type')
        elif isinstance(want, list):
            if len(got) != len(want):
                bad.append(name + ' length')
            for g, q in zip(got, want):
                same(name, g, q)
        elif np.shape(got) != np.shape(want) or not np.allclose(got, want, rtol=1e-9, atol=1e-12):
            bad.append('%s: %s instead of %s' % (name, np.round(got, 6).tolist(), np.round(want, 6).tolist()))
    n = 0
    for name, args, kw in cases:
        try:
            want = getattr(np, name)(*args, **kw)
            got = getattr(F.NP, name)(*[sym(a) for a in args], **{k: sym(q) for k, q in kw.items()})
            same(name, got, want)
        except Exception as e:
            bad.append('%s raised %s: %s' % (name, type(e).__name__, e))
        n += 1
    for name, args, kw in [('norm', (A,), dict(axis=1)), ('norm', (v,), {}), ('norm', (A,), dict(axis=1, keepdims=True)), ('norm', (v, 1), {}), ('norm', (v, np.inf), {}), ('det', (A,), {}), ('inv', (A,), {}),
                           ('multi_dot', ([A, B, v],), {}), ('matrix_power', (A, 3), {})]:
        try:
            same('linalg.' + name, getattr(F.NP.linalg, name)(*[sym(a) for a in args], **kw), getattr(np.linalg, name)(*args, **kw))
        except Exception as e:
            bad.append('linalg.%s raised %s: %s' % (name, type(e).__name__, e))
        n += 1
    for name, f in [('method cumsum', lambda a: a.cumsum(axis=1)), ('method clip', lambda a: a.clip(-1, 1)), ('method std', lambda a: a.std()), ('method ravel', lambda a: a.ravel()), ('method T', lambda a: a.T @ a),
                    ('method reshape', lambda a: a.reshape(1, -1)), ('mask', lambda a: a[a > 0]), ('row', lambda a: a[1]), ('flatten', lambda a: a.flatten()), ('take', lambda a: a.take([0, 2], axis=1)),
                    ('in place', lambda a: (a.__setitem__((slice(None), 0), 1.), a)[1]), ('mask set', lambda a: (a.__setitem__(a < 0, 0.), a)[1]), ('neg', lambda a: -a), ('pow', lambda a: (a * a) ** 0.5),
                    ('rdiv', lambda a: 2. / a), ('abs', abs), ('mean', lambda a: a.mean(axis=0)), ('trace', lambda a: a.trace()), ('diagonal', lambda a: a.diagonal()), ('sumaxis', lambda a: sum(a)), ('max', lambda a: a.max(axis=1)),
                    ('swap', lambda a: a.swapaxes(0, 1)), ('round', lambda a: a.round(1)), ('floordiv', lambda a: a // 0.3), ('mod', lambda a: a % 0.3)]:
        try:
            same(name, f(F.conv(A.copy())), f(A.copy()))
        except Exception as e:
            bad.append('%s raised %s: %s' % (name, type(e).__name__, e))
        n += 1
    for name, f in [('simps odd', lambda m, c: m.simps(c(y[:5]), x=c(x[:5]))), ('simps even', lambda m, c: m.simps(c(y), x=c(x))), ('simps 2d', lambda m, c: m.simps(c(A), x=c(np.array([0., 1., 1.5])), axis=1)),
                    ('simps dx', lambda m, c: m.simps(c(y[:5]), dx=0.5)), ('cumtrapz', lambda m, c: m.cumulative_trapezoid(c(y), c(x), initial=0))]:
        try:
            same(name, f(F.SCIPY_INTEG, F.conv), f(scipy.integrate, np.array))
        except Exception as e:
            bad.append('%s raised %s: %s' % (name, type(e).__name__, e))
        n += 1
    q = np.array([0.05, 0.3, 1.0, 1.5, 2.])
    for name, f in [('interp1d', lambda m, c: m.interp1d(c(x), c(y), bounds_error=False, fill_value=(1, 2))(c(q))), ('interp1d 2d', lambda m, c: m.interp1d(c(x[:3]), c(A), axis=0, bounds_error=False, fill_value=(A[0], A[-1]))(c(q))),
                    ('cubic', lambda m, c: m.interp1d(c(x), c(y), kind='cubic', fill_value='extrapolate')(c(q)))]:
        try:
            same(name, f(F.SCIPY_INTERP, F.conv), f(scipy.interpolate, np.array))
        except Exception as e:
            bad.append('%s raised %s: %s' % (name, type(e).__name__, e))
        n += 1
    return n, bad
