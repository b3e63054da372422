"""Symbolic stand-ins for numpy / math / scipy / matplotlib / numpy-stl, seen by the code under test.

Arrays are real numpy object arrays (class SArr) whose elements are terms, so shapes, views, broadcasting, slicing and
in-place assignment are numpy's own; only the arithmetic on elements is symbolic.
"""
import builtins
import itertools
import math as _math
import types
from fractions import Fraction
import numpy as np
from . import terms as T
from .terms import Node, SymBool, SymError, lift, const

SCAL = (int, float, Fraction, Node, SymBool, np.generic)


def is_sym(x):
    return isinstance(x, (Node, SymBool))


def nan_junk():
    return T.junk()


def sdiv(a, b):
    """numpy division: x/0 is nan/inf, i.e. an arbitrary marker value"""
    a, b = lift(a), lift(b)
    if T.is_const(b, 0):
        T.note_side('nonzero', b)
        return nan_junk()
    return T.div(a, b)


def _land(a, b):
    return T.band(T.blift(a), T.blift(b))


def _lor(a, b):
    return T.bor(T.blift(a), T.blift(b))


def _eq(a, b):
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        return a == b
    return lift(a) == lift(b)


UF = {
    'add': lambda a, b: lift(a) + lift(b), 'subtract': lambda a, b: lift(a) - lift(b),
    'multiply': lambda a, b: lift(a) * lift(b), 'true_divide': sdiv, 'divide': sdiv,
    'power': lambda a, b: T.power(lift(a), lift(b)), 'float_power': lambda a, b: T.power(lift(a), lift(b)),
    'square': lambda a: lift(a) * lift(a), 'reciprocal': lambda a: sdiv(const(1), a),
    'negative': lambda a: -lift(a), 'positive': lambda a: lift(a), 'absolute': lambda a: T.absolute(lift(a)), 'fabs': lambda a: T.absolute(lift(a)),
    'sqrt': T.sqrt, 'cos': T.cos, 'sin': T.sin, 'tan': T.tan, 'arctan': T.arctan, 'arccos': T.arccos, 'arcsin': T.arcsin,
    'arctan2': T.arctan2, 'exp': T.exp, 'log': T.log, 'tanh': T.tanh, 'radians': T.radians, 'deg2rad': T.radians,
    'degrees': T.degrees, 'rad2deg': T.degrees, 'sign': T.sign, 'minimum': T.minimum, 'maximum': T.maximum,
    'fmin': T.minimum, 'fmax': T.maximum, 'floor': T.floor,
    'less': lambda a, b: lift(a) < lift(b), 'less_equal': lambda a, b: lift(a) <= lift(b),
    'greater': lambda a, b: lift(a) > lift(b), 'greater_equal': lambda a, b: lift(a) >= lift(b),
    'equal': _eq, 'not_equal': lambda a, b: T.bnot(T.blift(_eq(a, b))),
    'logical_and': _land, 'bitwise_and': _land, 'logical_or': _lor, 'bitwise_or': _lor,
    'logical_not': lambda a: T.bnot(T.blift(a)), 'invert': lambda a: T.bnot(T.blift(a)),
    'hypot': lambda a, b: T.sqrt(lift(a) * lift(a) + lift(b) * lift(b)),
    'isfinite': lambda a: T.TRUE, 'isnan': lambda a: T.FALSE, 'isinf': lambda a: T.FALSE,
    'conjugate': lambda a: a, 'rint': lambda a: lift(a).__round__(0),
    'ceil': lambda a: -T.floor(-lift(a)), 'expm1': lambda a: T.exp(lift(a)) - 1, 'log1p': lambda a: T.log(1 + lift(a)),
    'log10': lambda a: T.log(lift(a)) / T.log(const(10)), 'log2': lambda a: T.log(lift(a)) / T.log(const(2)),
    'cbrt': lambda a: T.sign(lift(a)) * T.power(T.absolute(lift(a)), const(Fraction(1, 3))),
    'floor_divide': lambda a, b: T.floor(sdiv(a, b)), 'remainder': lambda a, b: lift(a) - lift(b) * T.floor(sdiv(a, b)),
    'mod': lambda a, b: lift(a) - lift(b) * T.floor(sdiv(a, b)), 'trunc': lambda a: T.ite(lift(a) < 0, -T.floor(-lift(a)), T.floor(lift(a))),
    'copysign': lambda a, b: T.ite(lift(b) < 0, -T.absolute(lift(a)), T.absolute(lift(a))),
    'heaviside': lambda a, b: T.ite(lift(a) < 0, const(0), T.ite(lift(a) > 0, const(1), lift(b))),
    'logical_xor': lambda a, b: _lor(_land(a, T.bnot(T.blift(b))), _land(T.bnot(T.blift(a)), b)),
    'bitwise_xor': lambda a, b: _lor(_land(a, T.bnot(T.blift(b))), _land(T.bnot(T.blift(a)), b)),
    'signbit': lambda a: lift(a) < 0, 'ldexp': lambda a, b: lift(a) * T.power(const(2), lift(b)),
    'sinh': lambda a: (T.exp(lift(a)) - T.exp(-lift(a))) / 2, 'cosh': lambda a: (T.exp(lift(a)) + T.exp(-lift(a))) / 2,
}
BOOLUF = {'less', 'less_equal', 'greater', 'greater_equal', 'equal', 'not_equal', 'logical_and', 'bitwise_and',
          'logical_or', 'bitwise_or', 'logical_not', 'invert', 'isfinite', 'isnan', 'isinf', 'logical_xor', 'bitwise_xor', 'signbit'}


def unbool(a):
    """array of SymBools that are all constant -> real bool array"""
    if isinstance(a, np.ndarray) and a.dtype == object and a.size:
        if all(isinstance(x, (bool, np.bool_)) or (isinstance(x, SymBool) and x.op == 'const') for x in a.flat):
            return np.array([bool(x) for x in a.flat], dtype=bool).reshape(a.shape)
    return a


def wrap(a):
    if isinstance(a, np.ndarray):
        if a.shape == ():
            return a[()]
        if a.dtype == object:
            return a.view(SArr)
    return a


def apply_uf(name, *args):
    f = UF.get(name)
    if f is None:
        raise SymError('ufunc %s' % name)
    arrs = [np.asarray(a) if isinstance(a, np.ndarray) else obj(a) for a in args]
    b = np.broadcast(*arrs) if len(arrs) > 1 else arrs[0]
    out = np.empty(b.shape, dtype=object)
    bs = np.broadcast_arrays(*arrs) if len(arrs) > 1 else arrs
    for i in np.ndindex(out.shape):
        out[i] = f(*[x[i] for x in bs])
    if name in BOOLUF:
        out = unbool(out)
        return out[()] if out.shape == () else (out if out.dtype == bool else out.view(SArr))
    return wrap(out)


def obj(x):
    """plain object ndarray of a scalar / nested sequence / array"""
    if isinstance(x, np.ndarray):
        return np.asarray(x, dtype=object) if x.dtype != object else np.asarray(x)
    if isinstance(x, SCAL) or x is None or isinstance(x, str):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    seq = list(x)
    subs = [obj(e) for e in seq]
    if subs and all(s.shape == subs[0].shape for s in subs):
        out = np.empty((len(subs),) + subs[0].shape, dtype=object)
        for i, s in enumerate(subs):
            out[i] = s[()] if s.shape == () else s
        return out
    out = np.empty(len(seq), dtype=object)
    for i, e in enumerate(seq):
        out[i] = e
    return out


class SArr(np.ndarray):
    def __array_ufunc__(self, ufunc, method, *inputs, out=None, where=True, **kw):
        if method == '__call__':
            if ufunc.__name__ == 'matmul':
                r = matmul(*inputs)
            else:
                r = apply_uf(ufunc.__name__, *inputs)
        elif method == 'reduce':
            op = {'add': 'sum', 'maximum': 'max', 'minimum': 'min', 'multiply': 'prod', 'logical_and': 'all', 'logical_or': 'any'}.get(ufunc.__name__)
            if op is None:
                raise SymError('reduce %s' % ufunc.__name__)
            r = _reduce(op, inputs[0], kw.get('axis', 0), kw.get('keepdims', False))
        elif method == 'accumulate':
            r = NP._accumulate(UF[ufunc.__name__], inputs[0], kw.get('axis', 0))
        elif method == 'outer':
            a, b = obj(inputs[0]), obj(inputs[1])
            r = apply_uf(ufunc.__name__, a.reshape(a.shape + (1,) * b.ndim), b)
        else:
            raise SymError('ufunc method %s.%s' % (ufunc.__name__, method))
        if out is not None:
            o = out[0]
            if o.dtype != object:
                raise SymError('in-place symbolic result into %s array' % o.dtype)
            np.asarray(o)[...] = np.asarray(r) if isinstance(r, np.ndarray) else r
            return o
        return r

    def __array_function__(self, func, types_, args, kwargs):
        f = getattr(NP, func.__name__, None)
        if f is not None and f is not func:
            return f(*args, **kwargs)
        return super().__array_function__(func, types_, args, kwargs)

    def _index(self, k):
        if isinstance(k, tuple):
            return tuple(_real_index(x) for x in k)
        return _real_index(k)

    def __getitem__(self, k):
        r = np.ndarray.__getitem__(self, self._index(k))
        return r

    def __setitem__(self, k, v):
        if isinstance(k, np.ndarray) and k.dtype == object and k.shape == self.shape and \
                any(isinstance(x, SymBool) for x in k.flat) and (not isinstance(v, np.ndarray) or v.shape == ()):
            for i in np.ndindex(self.shape):
                np.ndarray.__setitem__(self, i, T.ite(T.blift(k[i]), lift(v), lift(np.ndarray.__getitem__(self, i))))
            return
        if isinstance(v, np.ndarray) and v.dtype != object:
            v = conv(v)
        elif isinstance(v, (list, tuple)):
            v = obj(v)
        elif isinstance(v, (int, float, np.generic)) and not isinstance(v, (bool, np.bool_)):
            v = const(v)
        if isinstance(v, Node):
            w = np.empty((), dtype=object)
            w[()] = v
            tgt = np.ndarray.__getitem__(self, self._index(k))
            if not isinstance(tgt, np.ndarray):
                np.ndarray.__setitem__(self, self._index(k), v)
                return
            v = w
        np.ndarray.__setitem__(self, self._index(k), v)

    def sum(self, axis=None, keepdims=False, **kw): return _reduce('sum', self, axis, keepdims)
    def mean(self, axis=None, **kw): return NP.mean(self, axis=axis, **kw)
    def max(self, axis=None, keepdims=False, **kw): return _reduce('max', self, axis, keepdims)
    def min(self, axis=None, keepdims=False, **kw): return _reduce('min', self, axis, keepdims)
    def all(self, axis=None, keepdims=False, **kw): return _reduce('all', self, axis, keepdims)
    def any(self, axis=None, keepdims=False, **kw): return _reduce('any', self, axis, keepdims)
    def prod(self, axis=None, keepdims=False, **kw): return _reduce('prod', self, axis, keepdims)
    def cumsum(self, axis=None, **kw): return NP.cumsum(self, axis)
    def cumprod(self, axis=None, **kw): return NP.cumprod(self, axis)
    def clip(self, lo=None, hi=None, **kw): return NP.clip(self, kw.get('min', lo), kw.get('max', hi))
    def std(self, axis=None, **kw): return NP.std(self, axis)
    def var(self, axis=None, **kw): return NP.var(self, axis)
    def ptp(self, axis=None, **kw): return NP.ptp(self, axis)
    def argmax(self, axis=None, **kw): return NP.argmax(self, axis)
    def argmin(self, axis=None, **kw): return NP.argmin(self, axis)
    def argsort(self, *a, **kw): return NP.argsort(self, *a, **kw)
    def sort(self, *a, **kw): self[...] = NP.sort(self, *a, **kw)
    def searchsorted(self, v, side='left', **kw): return NP.searchsorted(self, v, side)
    def nonzero(self): return NP.where(self)
    def trace(self, **kw): return NP.trace(self)
    def round(self, decimals=0, **kw): return NP.round(self, decimals)
    def fill(self, v): self[...] = v
    def conj(self): return self
    def item(self, *a): return np.ndarray.item(self, *a)
    def dot(self, o): return NP.dot(self, o)

    def astype(self, dtype, **kw):
        if dtype in (float, np.float64, 'float', object, np.float32):
            return self.copy()
        return np.asarray(self).astype(dtype, **kw)

    def __matmul__(self, o): return matmul(self, o)
    def __rmatmul__(self, o): return matmul(o, self)

    def __bool__(self):
        if self.size == 1:
            return bool(self.flat[0])
        raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')

    def tolist(self):
        return np.asarray(self).tolist()

    def _inplace(self, name, o):
        r = apply_uf(name, self, o)
        if getattr(r, "shape", ()) != self.shape:
            raise ValueError('in-place result of shape %s in array of shape %s' % (getattr(r, "shape", ()), self.shape))
        np.asarray(self)[...] = np.asarray(r)
        return self

    def __iadd__(self, o): return self._inplace('add', o)
    def __isub__(self, o): return self._inplace('subtract', o)
    def __imul__(self, o): return self._inplace('multiply', o)
    def __itruediv__(self, o): return self._inplace('true_divide', o)
    def __ipow__(self, o): return self._inplace('power', o)


def _real_index(x):
    if isinstance(x, np.ndarray) and x.dtype == object:
        if any(is_sym(e) or isinstance(e, (bool, np.bool_)) for e in x.flat):
            if all(isinstance(e, (SymBool, bool, np.bool_)) for e in x.flat):
                return np.array([bool(e) for e in x.flat], dtype=bool).reshape(x.shape)
            return np.array([int(e) for e in x.flat], dtype=int).reshape(x.shape)
    if isinstance(x, Node):
        return int(x)
    if isinstance(x, SymBool):
        return bool(x)
    return x


def conv(a):
    """real numeric array -> array of constant terms"""
    a = np.asarray(a)
    if a.dtype == object:
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(a.shape):
            v = a[i]
            out[i] = const(v) if isinstance(v, (int, float, np.generic, Fraction)) and not isinstance(v, (bool, np.bool_)) else v
        return out.view(SArr) if out.shape else out
    if a.dtype.kind in 'fiu':
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(a.shape):
            out[i] = const(a[i])
        return out.view(SArr)
    return a


def _reduce(op, a, axis, keepdims=False):
    a = np.asarray(a)
    if axis is None:
        seq = list(a.flat)
        r = _red1(op, seq)
        if keepdims:
            o = np.empty((1,) * a.ndim, dtype=object)
            o[...] = r
            return o.view(SArr)
        return r
    if isinstance(axis, tuple):
        for ax in sorted([x % a.ndim for x in axis], reverse=True):
            a = np.asarray(_reduce(op, a, ax, keepdims), dtype=object)
        return wrap(a)
    axis = axis % a.ndim
    b = np.moveaxis(a, axis, -1)
    out = np.empty(b.shape[:-1], dtype=object)
    for i in np.ndindex(out.shape):
        out[i] = _red1(op, list(b[i]))
    if keepdims:
        out = np.expand_dims(out, axis)
    return wrap(out)


def _red1(op, seq):
    if op == 'sum':
        seq = [lift(s) for s in seq]
        return T.add([(T.F1, s) for s in seq])
    if op == 'prod':
        r = const(1)
        for s in seq:
            r = r * s
        return r
    if op in ('all', 'any'):
        r = T.TRUE if op == 'all' else T.FALSE
        for s in seq:
            r = (T.band if op == 'all' else T.bor)(r, T.blift(s))
        return r if not (isinstance(r, SymBool) and r.op == 'const') else r.args[0]
    if not seq:
        raise ValueError('zero-size array to reduction operation')
    r = lift(seq[0])
    for s in seq[1:]:
        r = (T.maximum if op == 'max' else T.minimum)(r, lift(s))
    return r


def hassym(*xs):
    for x in xs:
        if is_sym(x):
            return True
        if isinstance(x, np.ndarray):
            if x.dtype == object:
                return True
        elif isinstance(x, (list, tuple)):
            if hassym(*x):
                return True
    return False


def matmul(a, b):
    if getattr(a, 'of', None) is not None and hooks.known is not None and obj(b).ndim == 1:
        x = hooks.known(a.of, obj(b))
        if x is not None:
            return x
    a, b = obj(a), obj(b)
    if a.ndim == 1 and b.ndim == 1:
        return _red1('sum', [lift(x) * y for x, y in zip(a, b)])
    if a.ndim > 2 or b.ndim > 2:
        if a.ndim == 1 or b.ndim == 1:
            v = a.ndim == 1
            r = matmul(a[None, :] if v else a, b if v else b[:, None])
            return wrap(np.asarray(r)[..., 0, :] if v else np.asarray(r)[..., 0])
        sh = np.broadcast_shapes(a.shape[:-2], b.shape[:-2])
        A, B = np.broadcast_to(a, sh + a.shape[-2:]), np.broadcast_to(b, sh + b.shape[-2:])
        out = np.empty(sh + (a.shape[-2], b.shape[-1]), dtype=object)
        for i in np.ndindex(sh):
            out[i] = matmul(A[i], B[i])
        return out.view(SArr)
    A = a if a.ndim == 2 else a[None, :]
    B = b if b.ndim == 2 else b[:, None]
    if A.shape[1] != B.shape[0]:
        raise ValueError('matmul: shape mismatch')
    out = np.empty((A.shape[0], B.shape[1]), dtype=object)
    for i in range(A.shape[0]):
        for j in range(B.shape[1]):
            out[i, j] = _red1('sum', [lift(A[i, k]) * B[k, j] for k in range(A.shape[1])])
    if a.ndim == 1:
        out = out[0]
    elif b.ndim == 1:
        out = out[:, 0]
    return out.view(SArr)


class Inverse(SArr):
    """an inverse that knows what it is the inverse of"""
    of = None


class NPModule(types.ModuleType):
    """numpy as seen by the code under test"""
    def __init__(self):
        super().__init__('numpy')
        self.ndarray = np.ndarray
        self.generic = np.generic
        self.newaxis = None
        self.s_ = np.s_
        self.inf = _math.inf
        self.nan = _math.nan
        self.float64 = float
        self.float32 = float
        self.float_ = float
        self.int64 = int
        self.int32 = int
        self.bool_ = bool
        self.integer = np.integer
        self.floating = np.floating
        self.number = np.number
        self.linalg = LA()
        self.r_, self.c_ = _RC('r_'), _RC('c_')
        for n in UF:
            setattr(self, n, self._uf(n))
        self.abs = self.absolute

    @property
    def pi(self):
        return T.pi()

    @property
    def e(self):
        return T.exp(const(1))

    def __getattr__(self, name):
        if name in STRUCT:
            return structural(name)
        if name in ('finfo', 'iinfo', 'ndindex', 'ndenumerate', 'index_exp', 'dtype', 'issubdtype', 'inexact', 'signedinteger', 'intp', 'object_', 'str_',
                    'ix_', 'indices', 'tri', 'triu_indices', 'tril_indices', 'unravel_index', 'ravel_multi_index', 'iterable', 'result_type', 'can_cast',
                    'VisibleDeprecationWarning', 'broadcast_shapes', 'isrealobj', 'iscomplexobj'):
            return getattr(np, name)
        raise SymError('numpy.%s has no symbolic encoding' % name)

    @staticmethod
    def _uf(name):
        real = getattr(np, name)

        def f(*args, out=None, where=True, **kw):
            if isinstance(out, tuple):
                out = out[0]
            if where is not True:
                # entries left out keep what is in the output array
                r = apply_uf(name, *args)
                base = out if out is not None else NP.empty(np.shape(r))
                base[...] = NP.where(where, r, base)
                return base
            if not hassym(*args) and name in ('logical_and', 'logical_or', 'logical_not', 'equal', 'not_equal', 'bitwise_and', 'bitwise_or', 'invert'):
                return real(*args)
            r = apply_uf(name, *args)
            if out is not None:
                out[...] = r
                return out
            return r
        f.__name__ = name
        f.reduce = lambda a, axis=0, **kw: SArr.__array_ufunc__(conv(obj(a)), real, 'reduce', obj(a), axis=axis, **kw)
        f.accumulate = lambda a, axis=0, **kw: SArr.__array_ufunc__(conv(obj(a)), real, 'accumulate', obj(a), axis=axis, **kw)
        f.outer = lambda a, b, **kw: SArr.__array_ufunc__(conv(obj(a)), real, 'outer', a, b, **kw)
        return f

    # -- construction
    def _fill(self, shape, dtype, mk):
        if dtype is not None and not isinstance(dtype, list):
            if dtype in (object, 'object') or dtype is str:
                return np.empty(shape, dtype=object)
            if dtype in (bool, np.bool_, 'bool'):
                return np.zeros(shape, dtype=bool)
            if dtype in (int, np.int64, 'int'):
                a = np.empty(shape, dtype=object)
                for i in np.ndindex(a.shape):
                    a[i] = mk()
                return a.view(SArr)
        if isinstance(dtype, list):
            d = [(n, object) for n, t, *r in dtype]
            a = np.zeros(shape, dtype=d)
            for n, t, *r in dtype:
                for i in np.ndindex(a.shape):
                    a[n][i] = '' if str(t).startswith('U') else mk()
            return a
        if isinstance(shape, Node):
            shape = int(shape)
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(a.shape):
            a[i] = mk()
        return a.view(SArr)

    def zeros(self, shape, dtype=None, **kw): return self._fill(shape, dtype, lambda: const(0))
    def ones(self, shape, dtype=None, **kw): return self._fill(shape, dtype, lambda: const(1))

    def empty(self, shape, dtype=None, **kw):
        return self._fill(shape, dtype, T.junk)

    def full(self, shape, v, dtype=None, **kw): return self._fill(shape, None, lambda: lift(v))
    def zeros_like(self, a, **kw): return self.zeros(np.shape(a))
    def ones_like(self, a, **kw): return self.ones(np.shape(a))
    def empty_like(self, a, **kw): return self.empty(np.shape(a))

    def full_like(self, a, v, **kw):
        v = obj(v)
        out = np.empty(np.shape(a), dtype=object)
        out[...] = v if v.shape else v[()]
        return conv(out)

    def array(self, x, dtype=None, copy=True, **kw):
        if isinstance(x, np.ndarray):
            if x.dtype == object:
                return x.copy()
            return conv(x) if x.dtype.kind in 'fiu' else x.copy()
        o = obj(x)
        flat = list(o.flat)
        if flat and all(isinstance(e, str) for e in flat):
            return np.array(x)
        if flat and all(isinstance(e, (bool, np.bool_)) for e in flat):
            return np.array(x, dtype=bool)
        if o.shape == ():
            return lift(o[()]) if not isinstance(o[()], str) else o[()]
        return conv(o)

    def asarray(self, x, dtype=None, **kw):
        return x if isinstance(x, np.ndarray) and (x.dtype == object or x.dtype.kind in 'Ub') else self.array(x)

    asfarray = ascontiguousarray = asanyarray = asarray

    def fromiter(self, it, dtype=None, count=-1, **kw): return self.array(list(it))
    def fromfunction(self, f, shape, **kw): return conv(obj(f(*np.indices(shape))))

    def atleast_1d(self, x):
        a = obj(x)
        return conv(a if a.ndim else a[None])

    def arange(self, *a, **kw):
        r = np.arange(*[int(x) if isinstance(x, Node) else x for x in a], **kw)
        # a harness may bound the length of long ranges (stated in its bounds)
        return r if hooks.thin is None or len(r) <= 50 else np.array([round(float(x), 6) for x in r[hooks.thin]])

    def linspace(self, a, b, num=50, endpoint=True, **kw):
        n = int(num)
        a, b = lift(a), lift(b)
        d = n - 1 if endpoint else n
        out = np.empty(n, dtype=object)
        for i in range(n):
            out[i] = b if (endpoint and i == n - 1 and n > 1) else a + (b - a) * Fraction(i, d or 1)
        if hooks.thin is not None and n > 50:
            out = out[hooks.thin]
        return out.view(SArr)

    def copy(self, a, **kw):
        return a.copy() if isinstance(a, np.ndarray) else self.array(a)

    def eye(self, n, **kw):
        a = self.zeros((n, n))
        for i in range(n):
            a[i, i] = const(1)
        return a
    identity = eye

    # -- structure
    def transpose(self, a, axes=None): return np.transpose(np.asarray(a), axes).view(SArr)
    def reshape(self, a, s, **kw): return np.asarray(obj(a)).reshape(s).view(SArr)
    def ravel(self, a): return np.asarray(obj(a)).ravel().view(SArr)

    def concatenate(self, seq, axis=0, **kw):
        return wrap(np.concatenate([np.asarray(conv(obj(s))) for s in seq], axis=axis))

    def stack(self, seq, axis=0, **kw): return wrap(np.stack([np.asarray(conv(obj(s))) for s in seq], axis=axis))
    def vstack(self, seq): return wrap(np.vstack([np.asarray(conv(obj(s))) for s in seq]))
    def hstack(self, seq): return wrap(np.hstack([np.asarray(conv(obj(s))) for s in seq]))
    def column_stack(self, seq): return wrap(np.column_stack([np.asarray(conv(obj(s))) for s in seq]))
    def tile(self, a, r): return wrap(np.tile(np.asarray(obj(a)), r))
    def repeat(self, a, r, axis=None): return wrap(np.repeat(np.asarray(obj(a)), r, axis))
    def flip(self, a, axis=None): return wrap(np.flip(np.asarray(a), axis))
    def roll(self, a, s, axis=None): return wrap(np.roll(np.asarray(a), s, axis))

    def delete(self, a, i, axis=None):
        return wrap(np.delete(np.asarray(a), _real_index(i) if not isinstance(i, tuple) else i, axis))

    def append(self, a, v, axis=None):
        a, v = obj(a), obj(v)
        if axis is None:
            return wrap(np.concatenate([a.ravel(), v.ravel()]))
        return wrap(np.concatenate([a, v], axis=axis))

    def insert(self, a, i, v, axis=None): return wrap(np.insert(np.asarray(a), i, v, axis))
    def broadcast_to(self, a, s): return wrap(np.broadcast_to(np.asarray(obj(a)), s))
    def expand_dims(self, a, ax): return wrap(np.expand_dims(np.asarray(a), ax))
    def squeeze(self, a, **kw): return wrap(np.squeeze(np.asarray(a), **kw))
    def size(self, a): return np.size(a)
    def shape(self, a): return a.shape if hasattr(a, "shape") else np.shape(obj(a))
    def ndim(self, a): return obj(a).ndim
    def meshgrid(self, *a, **kw): return [wrap(x) for x in np.meshgrid(*[np.asarray(obj(y)) for y in a], **kw)]
    def diag_indices(self, n, ndim=2): return np.diag_indices(n, ndim)
    def isscalar(self, x): return isinstance(x, SCAL)

    def fill_diagonal(self, a, v, **kw):
        v = obj(v)
        for i in range(builtins.min(a.shape)):
            a[i, i] = v[()] if v.shape == () else v[i % len(v)]

    def diagonal(self, a): return wrap(np.diagonal(np.asarray(a)).copy())
    def diag(self, a):
        a = np.asarray(a)
        if a.ndim == 2:
            return self.diagonal(a)
        o = self.zeros((len(a), len(a)))
        for i in range(len(a)):
            o[i, i] = a[i]
        return o

    def errstate(self, **kw):
        import contextlib
        return contextlib.nullcontext()

    def seterr(self, **kw): return {}

    def unique(self, a, return_index=False, **kw):
        if isinstance(a, np.ndarray) and a.dtype == object and any(is_sym(x) for x in a.flat):
            raise SymError('unique of symbolic array')
        if isinstance(a, np.ndarray) and a.dtype == object:
            a = np.array(list(a.flat), dtype=str)
        return np.unique(a, return_index=return_index, **kw)

    # -- reductions
    def sum(self, a, axis=None, keepdims=False, **kw): return _reduce('sum', obj(a), axis, keepdims)
    nansum = sum
    def prod(self, a, axis=None, keepdims=False, **kw): return _reduce('prod', obj(a), axis, keepdims)
    def amax(self, a, axis=None, keepdims=False, **kw): return _reduce('max', obj(a), axis, keepdims)
    max = nanmax = amax
    def amin(self, a, axis=None, keepdims=False, **kw): return _reduce('min', obj(a), axis, keepdims)
    min = nanmin = amin
    def all(self, a, axis=None, keepdims=False, **kw): return _reduce('all', obj(a), axis, keepdims)
    def any(self, a, axis=None, keepdims=False, **kw): return _reduce('any', obj(a), axis, keepdims)
    alltrue, sometrue = all, any

    def mean(self, a, axis=None, keepdims=False, **kw):
        a = obj(a)
        n = a.size if axis is None else int(np.prod([a.shape[x] for x in (axis if isinstance(axis, tuple) else (axis,))]))
        return apply_uf('multiply', _reduce('sum', a, axis, keepdims), const(Fraction(1, n)))

    def average(self, a, axis=None, weights=None, **kw):
        if weights is None:
            return self.mean(a, axis)
        w = obj(weights)
        if w.ndim == 1 and obj(a).ndim > 1:
            w = np.moveaxis(np.broadcast_to(w, np.moveaxis(obj(a), axis, -1).shape), -1, axis)
        return apply_uf('divide', _reduce('sum', apply_uf('multiply', a, w), axis), _reduce('sum', np.broadcast_to(w, obj(a).shape), axis))

    def var(self, a, axis=None, **kw):
        m = self.mean(a, axis, keepdims=True)
        return self.mean(apply_uf('square', apply_uf('subtract', a, m)), axis)

    def std(self, a, axis=None, **kw): return apply_uf('sqrt', self.var(a, axis))
    def ptp(self, a, axis=None, **kw): return apply_uf('subtract', _reduce('max', obj(a), axis), _reduce('min', obj(a), axis))
    def count_nonzero(self, a, axis=None, **kw): return np.count_nonzero(np.array([bool(x) for x in obj(a).flat], dtype=bool).reshape(np.shape(obj(a))), axis=axis)

    def _accumulate(self, f, a, axis):
        a = obj(a)
        if axis is None:
            a, axis = a.ravel(), 0
        b = np.moveaxis(a, axis, 0)
        out = np.empty(b.shape, dtype=object)
        for j in np.ndindex(b.shape[1:]):
            for i in range(len(b)):
                x = b[(i,) + j]
                out[(i,) + j] = f(out[(i - 1,) + j], x) if i else (x if isinstance(x, (SymBool, bool)) else lift(x))
        return wrap(np.moveaxis(out, 0, axis))

    def cumsum(self, a, axis=None, **kw): return self._accumulate(UF['add'], a, axis)
    def cumprod(self, a, axis=None, **kw): return self._accumulate(UF['multiply'], a, axis)

    def _argbest(self, a, axis, better):
        a = obj(a)
        if axis is not None and a.ndim > 1:
            b = np.moveaxis(a, axis, -1)
            return np.array([self._argbest(b[i], None, better) for i in np.ndindex(b.shape[:-1])], dtype=int).reshape(b.shape[:-1])
        a = list(a.flat)
        best = 0
        for i in range(1, len(a)):
            if bool(better(lift(a[i]), lift(a[best]))):
                best = i
        return best

    def argmax(self, a, axis=None, **kw): return self._argbest(a, axis, lambda x, y: x > y)
    def argmin(self, a, axis=None, **kw): return self._argbest(a, axis, lambda x, y: x < y)

    def argsort(self, a, axis=-1, **kw):
        import functools
        a = obj(a)
        b = np.moveaxis(a, axis, -1)
        out = np.empty(b.shape, dtype=int)
        for i in np.ndindex(b.shape[:-1]):
            v = [lift(x) for x in b[i]]
            out[i] = sorted(range(len(v)), key=functools.cmp_to_key(lambda p, q: -1 if bool(v[p] < v[q]) else (1 if bool(v[q] < v[p]) else 0)))
        return np.moveaxis(out, -1, axis)

    def sort(self, a, axis=-1, **kw): return wrap(np.take_along_axis(obj(a), self.argsort(a, axis), axis))

    def searchsorted(self, a, v, side='left', **kw):
        a = [lift(x) for x in obj(a)]
        vs = obj(v)
        out = np.empty(vs.shape, dtype=int)
        for i in np.ndindex(vs.shape):
            k, x = 0, lift(vs[i])
            while k < len(a) and bool(a[k] < x if side == 'left' else a[k] <= x):
                k += 1
            out[i] = k
        return out if out.shape else int(out[()])

    def digitize(self, x, bins, right=False): return self.searchsorted(bins, x, 'left' if right else 'right')

    def diff(self, a, n=1, axis=-1, prepend=None, append=None, **kw):
        a = conv(obj(a))
        for v, first in ((prepend, True), (append, False)):
            if v is not None:
                v = obj(v)
                if v.ndim == 0:
                    sh = list(a.shape)
                    sh[axis] = 1
                    v = np.broadcast_to(v, sh)
                a = np.concatenate([v, a] if first else [a, v], axis=axis)
        for _ in range(n):
            b = np.moveaxis(np.asarray(a), axis, 0)
            a = np.moveaxis(np.asarray(apply_uf('subtract', b[1:], b[:-1])), 0, axis)
        return wrap(conv(a))

    def ediff1d(self, a, **kw): return self.diff(obj(a).ravel())

    def select(self, conds, choices, default=0):
        r = default
        for c, v in zip(reversed(list(conds)), reversed(list(choices))):
            r = self.where(c, v, r)
        return r

    def choose(self, k, choices, **kw):
        r = choices[0]
        for i in range(1, len(choices)):
            r = self.where(apply_uf('equal', k, const(i)), choices[i], r)
        return r

    def piecewise(self, x, conds, funcs, *a, **kw):
        conds = list(conds)
        val = lambda f: f(x, *a, **kw) if callable(f) else f
        r = val(funcs[len(conds)]) if len(funcs) > len(conds) else 0
        for c, f in zip(conds, funcs):         # later conditions win
            r = self.where(c, val(f), r)
        return r

    def apply_along_axis(self, f, axis, a, *args, **kw):
        b = np.moveaxis(obj(a), axis, -1)
        res = [obj(f(b[i].view(SArr), *args, **kw)) for i in np.ndindex(b.shape[:-1])]
        out = np.empty(b.shape[:-1] + res[0].shape, dtype=object)
        for i, v in zip(np.ndindex(b.shape[:-1]), res):
            out[i] = v if v.shape else v[()]
        return wrap(np.moveaxis(out, -1, axis) if res[0].shape else out)

    def trace(self, a, **kw): return _red1('sum', list(np.diagonal(obj(a))))
    def polyval(self, p, x):
        r = const(0)
        for c in obj(p):
            r = apply_uf('add', apply_uf('multiply', r, x), c)
        return r

    def tensordot(self, a, b, axes=2):
        a, b = obj(a), obj(b)
        if isinstance(axes, (int, np.integer)):
            ia, ib = list(range(a.ndim - axes, a.ndim)), list(range(axes))
        else:
            ia, ib = [[x] if isinstance(x, int) else list(x) for x in axes]
        L = 'abcdefghijklmnopqrstuvwxyz'
        sa = list(L[:a.ndim])
        sb = list(L[a.ndim:a.ndim + b.ndim])
        for p, q in zip(ia, ib):
            sb[q] = sa[p]
        red = {sa[p] for p in ia}
        return self.einsum(''.join(sa) + ',' + ''.join(sb) + '->' + ''.join(c for c in sa + sb if c not in red), a, b)

    def kron(self, a, b):
        a, b = obj(a), obj(b)
        return apply_uf('multiply', a[:, None, :, None], b[None, :, None, :]).reshape(a.shape[0] * b.shape[0], -1)

    def round(self, a, decimals=0, **kw):
        q = const(10 ** decimals)
        return apply_uf('divide', apply_uf('rint', apply_uf('multiply', a, q)), q)

    around = round_ = round
    def isreal(self, a): return np.ones(np.shape(a), dtype=bool) if np.shape(a) else True
    def real(self, a): return a
    def triu(self, a, k=0): return wrap(np.where(np.triu(np.ones(np.shape(a)), k) > 0, obj(a), const(0)))
    def tril(self, a, k=0): return wrap(np.where(np.tril(np.ones(np.shape(a)), k) > 0, obj(a), const(0)))
    def trim_zeros(self, a, **kw): raise SymError('trim_zeros')

    def gradient(self, *a, **kw): raise SymError('numpy.gradient has no symbolic encoding')

    def geomspace(self, *a, **kw): return conv(np.geomspace(*[float(x) for x in a], **kw))

    def where(self, c, *ab):
        if not ab:
            c = np.asarray(c) if isinstance(c, np.ndarray) else obj(c)
            b = np.array([bool(x) for x in c.flat], dtype=bool).reshape(c.shape)
            return np.where(b)
        a, b = ab
        cc, a, b = np.broadcast_arrays(obj(c), obj(a), obj(b))
        out = np.empty(cc.shape, dtype=object)
        for i in np.ndindex(out.shape):
            x = cc[i]
            if isinstance(a[i], str):
                out[i] = a[i] if bool(x) else b[i]
            elif hooks.branch_where:
                out[i] = lift(a[i] if bool(T.blift(x)) else b[i])
            else:
                out[i] = T.ite(T.blift(x), lift(a[i]), lift(b[i]))
        return wrap(out)

    def nonzero(self, c): return self.where(c)
    def flatnonzero(self, c): return self.where(c)[0]

    def clip(self, a, lo, hi, **kw):
        r = a
        if lo is not None:
            r = self.maximum(r, lo)
        if hi is not None:
            r = self.minimum(r, hi)
        return r

    def isclose(self, a, b, rtol=1e-05, atol=1e-08, **kw):
        return apply_uf('less_equal', self.absolute(apply_uf('subtract', a, b)), apply_uf('add', const(Fraction(1, 10 ** 8)), apply_uf('multiply', const(Fraction(1, 10 ** 5)), self.absolute(b))))

    def allclose(self, a, b, **kw): return self.all(self.isclose(a, b))
    def array_equal(self, a, b): return np.shape(a) == np.shape(b) and bool(self.all(apply_uf('equal', a, b)))
    def nan_to_num(self, a, **kw): return self.array(a)

    # -- products
    def dot(self, a, b):
        a, b = obj(a), obj(b)
        if a.ndim == 0 or b.ndim == 0:
            return apply_uf('multiply', a, b)
        return matmul(a, b)

    def matmul(self, a, b, **kw): return matmul(a, b)

    def inner(self, a, b):
        a, b = obj(a), obj(b)
        if a.ndim == 0 or b.ndim == 0:
            return apply_uf('multiply', a, b)
        out = np.empty(a.shape[:-1] + b.shape[:-1], dtype=object)
        for i in np.ndindex(a.shape[:-1]):
            for j in np.ndindex(b.shape[:-1]):
                out[i + j] = _red1('sum', [lift(x) * y for x, y in zip(a[i], b[j])])
        return wrap(out)

    def outer(self, a, b): return apply_uf('multiply', obj(a).ravel()[:, None], obj(b).ravel()[None, :])
    def vdot(self, a, b): return matmul(obj(a).ravel(), obj(b).ravel())

    def cross(self, a, b, axisa=-1, axisb=-1, axisc=-1, axis=None):
        a, b = obj(a), obj(b)
        if axis is not None:
            axisa = axisb = axisc = axis
        if (axisa, axisb, axisc) != (-1, -1, -1):
            r = self.cross(np.moveaxis(a, axisa, -1), np.moveaxis(b, axisb, -1))
            return wrap(np.moveaxis(np.asarray(r), -1, axisc))
        if a.shape[-1] != 3 or b.shape[-1] != 3:
            raise ValueError('incompatible dimensions for cross product')
        sh = np.broadcast_shapes(a.shape, b.shape)
        a, b = np.broadcast_to(a, sh), np.broadcast_to(b, sh)
        out = np.empty(sh, dtype=object)
        for i in np.ndindex(sh[:-1]):
            a0, a1, a2 = [lift(x) for x in a[i]]
            b0, b1, b2 = [lift(x) for x in b[i]]
            out[i + (0,)] = a1 * b2 - a2 * b1
            out[i + (1,)] = a2 * b0 - a0 * b2
            out[i + (2,)] = a0 * b1 - a1 * b0
        return out.view(SArr)

    def einsum(self, spec, *ops, **kw):
        ins, arrow, outs = spec.replace(' ', '').partition('->')
        ins = ins.split(',')
        ops = [obj(o) for o in ops]
        if '...' in spec:
            nd = [o.ndim - len(s.replace('...', '')) if '...' in s else 0 for s, o in zip(ins, ops)]
            dots = 'ABCDEFGH'[:builtins.max(nd)]
            ins = [s.replace('...', dots[len(dots) - n:]) for s, n in zip(ins, nd)]
            outs = outs.replace('...', dots) if arrow else outs
        else:
            dots = ''
        if not arrow:
            al = ''.join(ins)
            outs = dots + ''.join(sorted(c for c in set(al) if al.count(c) == 1 and c not in dots))
        dims = {}
        for s, o in zip(ins, ops):
            if len(s) != o.ndim:
                raise ValueError('einsum: operand has wrong number of dimensions')
            for c, d in zip(s, o.shape):
                if dims.get(c, 1) == 1:
                    dims[c] = d
                elif d not in (1, dims[c]):
                    raise ValueError('einsum: shape mismatch')
        red = [c for c in dims if c not in outs]
        out = np.empty(tuple(dims[c] for c in outs), dtype=object)
        for i in np.ndindex(out.shape):
            env = dict(zip(outs, i))
            acc = []
            for r in itertools.product(*[range(dims[c]) for c in red]):
                env.update(zip(red, r))
                t = const(1)
                for s, o in zip(ins, ops):
                    t = t * o[tuple(env[c] if o.shape[k] > 1 else 0 for k, c in enumerate(s))]
                acc.append(t)
            out[i] = _red1('sum', acc)
        return wrap(out)

    def trapz(self, y, x=None, dx=1.0, axis=-1): return trapz(y, x, dx, axis)
    trapezoid = trapz

    def interp(self, x, xp, fp, left=None, right=None, **kw):
        xs = obj(x)
        xp, fp = [lift(v) for v in obj(xp)], [lift(v) for v in obj(fp)]
        out = np.empty(xs.shape, dtype=object)
        for i in np.ndindex(xs.shape):
            v = lift(xs[i])
            r = lift(right) if right is not None else fp[-1]
            if hooks.branch_interp:
                k = 0
                while k < len(xp) and not bool(v < xp[k]):
                    k += 1
                if k == 0:
                    out[i] = lift(left) if left is not None else fp[0]
                elif k == len(xp):
                    out[i] = fp[-1] if right is None or bool(v == xp[-1]) else r
                else:
                    out[i] = fp[k - 1] + (fp[k] - fp[k - 1]) * (v - xp[k - 1]) / (xp[k] - xp[k - 1])
                continue
            for k in range(len(xp) - 1, 0, -1):
                seg = fp[k - 1] + (fp[k] - fp[k - 1]) * (v - xp[k - 1]) / (xp[k] - xp[k - 1]) if xp[k] is not xp[k - 1] else fp[k]
                r = T.ite(v < xp[k], seg, r if k < len(xp) - 1 else (T.ite(v == xp[k], fp[k], r) if right is not None else r))
            out[i] = T.ite(v < xp[0], lift(left) if left is not None else fp[0], r)
        return wrap(out)

    # -- files
    def savetxt(self, fname, X, fmt='%.18e', delimiter=' ', newline='\n', header='', footer='', comments='# ', **kw):
        hooks.vfs.savetxt(fname, X, fmt, header, comments, newline)

    def loadtxt(self, fname, **kw): return hooks.vfs.loadtxt(fname, **kw)

    def vectorize(self, f, **kw):
        return lambda *a: conv(np.vectorize(f, otypes=[object])(*[obj(x) for x in a]))

    def array_repr(self, a): return '<array>'
    def set_printoptions(self, **kw): return None


class LA(types.ModuleType):
    def __init__(self):
        super().__init__('numpy.linalg')
        self.LinAlgError = np.linalg.LinAlgError

    def __getattr__(self, name):
        raise SymError('numpy.linalg.%s has no symbolic encoding' % name)

    def norm(self, x, ord=None, axis=None, keepdims=False):
        x = obj(x)
        if ord is not None and not (ord == 2 and (x.ndim == 1 or axis is not None)) and ord != 'fro':
            if ord == 1 and (x.ndim == 1 or axis is not None):
                return _reduce('sum', apply_uf('absolute', x), axis, keepdims)
            if ord == _math.inf and (x.ndim == 1 or axis is not None):
                return _reduce('max', apply_uf('absolute', x), axis, keepdims)
            raise SymError('norm ord=%s' % ord)
        if isinstance(axis, tuple):
            return apply_uf('sqrt', _reduce('sum', apply_uf('square', x), axis, keepdims))
        if axis is None and keepdims:
            return apply_uf('sqrt', _reduce('sum', apply_uf('square', x), None, True))
        if axis is None:
            return T.sqrt(_red1('sum', [lift(v) * lift(v) for v in x.flat]))
        b = np.moveaxis(x, axis, -1)
        out = np.empty(b.shape[:-1], dtype=object)
        for i in np.ndindex(out.shape):
            out[i] = T.sqrt(_red1('sum', [lift(v) * lift(v) for v in b[i]]))
        if keepdims:
            out = np.expand_dims(out, axis)
        return wrap(out)

    def det(self, a):
        a = obj(a)
        n = len(a)
        if n == 1:
            return lift(a[0, 0])
        if n == 2:
            return lift(a[0, 0]) * a[1, 1] - lift(a[0, 1]) * a[1, 0]
        r = const(0)
        for j in range(n):
            m = np.delete(np.delete(a, 0, 0), j, 1)
            r = r + (-1) ** j * lift(a[0, j]) * self.det(m)
        return r

    def inv(self, a):
        a = obj(a)
        r = self._inv(a).view(Inverse)
        r.of = a
        return r

    def _inv(self, a):
        n = len(a)
        if n > 3:
            raise SymError('inverse of a %dx%d matrix' % (n, n))
        d = self.det(a)
        out = np.empty((n, n), dtype=object)
        if n == 1:
            out[0, 0] = 1 / d
        else:
            for i in range(n):
                for j in range(n):
                    m = np.delete(np.delete(a, i, 0), j, 1)
                    out[j, i] = (-1) ** (i + j) * self.det(m) / d
        return out.view(SArr)

    def solve(self, a, b):
        return hooks.solve(obj(a), obj(b))

    def lstsq(self, a, b, rcond=None):
        if obj(a).shape[0] != obj(a).shape[1]:
            raise SymError('lstsq of a rectangular system')
        return hooks.solve(obj(a), obj(b)), obj([]), len(obj(a)), None

    def multi_dot(self, arrs):
        r = arrs[0]
        for a in arrs[1:]:
            r = matmul(r, a)
        return r

    def matrix_power(self, a, n):
        r = NP.eye(len(a))
        for _ in range(n):
            r = matmul(r, a)
        return r


class Hooks:
    """session-level services used by the stand-ins (set by the harness)"""
    def __init__(self):
        self.vfs = None
        self.thin = None
        self.known = None
        self.root = None
        self.branch_interp = self.branch_where = False
        self.solve = None
        self.stl = []


hooks = Hooks()


STRUCT = {'take', 'swapaxes', 'moveaxis', 'rollaxis', 'split', 'array_split', 'hsplit', 'vsplit', 'flipud', 'fliplr', 'rot90', 'dstack', 'row_stack',
          'atleast_2d', 'atleast_3d', 'take_along_axis', 'put_along_axis', 'pad', 'resize', 'extract', 'compress', 'broadcast_arrays', 'block',
          'copyto', 'put', 'place', 'putmask', 'diagflat', 'isin', 'lexsort', 'msort', 'vander'} - {'isin', 'lexsort', 'msort', 'vander'}


def structural(name):
    """a numpy function that only moves elements: numpy's own, on the arrays of terms"""
    real = getattr(np, name)

    def plain(x):
        if isinstance(x, np.ndarray):
            return np.asarray(_real_index(x)) if x.dtype == object and x.size and all(isinstance(e, (SymBool, bool)) for e in x.flat) else np.asarray(x)
        if is_sym(x):
            return _real_index(x) if isinstance(x, SymBool) else obj(x)
        if isinstance(x, (list, tuple)) and hassym(x):
            if any(isinstance(e, np.ndarray) for e in x):
                return type(x)(plain(e) for e in x)
            return np.asarray(conv(obj(x)))
        return x

    def back(r):
        if isinstance(r, (list, tuple)):
            return type(r)(back(e) for e in r)
        return wrap(r)

    def f(*a, **kw):
        return back(real(*[plain(x) for x in a], **{k: plain(v) for k, v in kw.items()}))
    return f


class _RC:
    def __init__(self, name):
        self.name = name

    def __getitem__(self, k):
        real = getattr(np, self.name)
        if not isinstance(k, tuple):
            k = (k,)
        return wrap(real[tuple(conv(obj(x)) if hassym(x) or isinstance(x, (int, float)) else x for x in k)])


def trapz(y, x=None, dx=1.0, axis=-1):
    y = conv(obj(y))
    if y.ndim != 1:
        y = np.moveaxis(y, axis, 0)
        if x is not None and obj(x).ndim > 1:
            x = np.moveaxis(obj(x), axis, 0)
    if x is None:
        d = [lift(dx)] * (len(y) - 1)
    else:
        x = conv(obj(x))
        d = [x[i + 1] - x[i] for i in range(len(y) - 1)]
    r = const(0)
    for i in range(len(y) - 1):
        r = r + (y[i] + y[i + 1]) * d[i] / 2
    return r


def _basic_simpson(y, x):
    """composite Simpson over an odd number of points with arbitrary spacing (scipy's formula)"""
    r = const(0)
    for i in range(0, len(y) - 2, 2):
        h0, h1 = x[i + 1] - x[i], x[i + 2] - x[i + 1]
        hs, hp, hd = h0 + h1, h0 * h1, h0 / h1
        r = r + hs / 6 * (y[i] * (2 - 1 / hd) + y[i + 1] * (hs * hs / hp) + y[i + 2] * (2 - hd))
    return r


def cumtrapz(y, x=None, dx=1.0, axis=-1, initial=None):
    y = conv(obj(y))
    if y.ndim != 1:
        raise SymError('cumulative_trapezoid nd')
    x = conv(obj(x)) if x is not None else conv(np.arange(len(y))) * dx
    out, r = ([] if initial is None else [lift(initial)]), const(0)
    for i in range(len(y) - 1):
        r = r + (y[i] + y[i + 1]) * (x[i + 1] - x[i]) / 2
        out.append(r)
    return conv(obj(out))


def simps(y, x=None, dx=1.0, axis=-1, even='avg'):
    y = conv(obj(y))
    if y.ndim > 1:
        b = np.moveaxis(np.asarray(y), axis, -1)
        xs = np.broadcast_to(np.moveaxis(obj(x), axis, -1), b.shape) if x is not None and obj(x).ndim > 1 else None
        out = np.empty(b.shape[:-1], dtype=object)
        for i in np.ndindex(out.shape):
            out[i] = simps(b[i], xs[i] if xs is not None else x, dx)
        return wrap(out)
    n = len(y)
    x = conv(obj(x)) if x is not None else conv(np.arange(n)) * dx
    if n % 2:
        return _basic_simpson(y, x)
    # scipy 1.13, even='simpson': Simpson on the first N-1 points, Cartwright's correction for the last interval
    if n == 2:
        return (x[1] - x[0]) * (y[1] + y[0]) / 2
    h0, h1 = x[-2] - x[-3], x[-1] - x[-2]
    al = (2 * h1 * h1 + 3 * h0 * h1) / (6 * (h0 + h1))
    be = (h1 * h1 + 3 * h0 * h1) / (6 * h0)
    et = h1 * h1 * h1 / (6 * h0 * (h0 + h1))
    return _basic_simpson(y[:-1], x[:-1]) + al * y[-1] + be * y[-2] - et * y[-3]


class Interp1d:
    def __init__(self, x, y, kind='linear', axis=0, bounds_error=None, fill_value=None, **kw):
        if kind not in ('linear', 'slinear', 'cubic', 3):
            raise SymError('interp1d kind=%s' % kind)
        x = conv(obj(x))
        y = conv(obj(y))
        order = list(range(len(x)))
        # interp1d sorts by x
        if any(T.cmp('<', x[i + 1] - x[i]) is T.TRUE or not (x[i] <= x[i + 1]) for i in range(len(x) - 1)):
            import functools
            order.sort(key=functools.cmp_to_key(lambda i, j: -1 if bool(x[i] < x[j]) else 1))
        self.x = [x[i] for i in order]
        self.y = [y[i] for i in order]
        self.fill = fill_value
        self.be = bounds_error
        self.cubic = kind in ('cubic', 3)
        if self.cubic:
            self._spline()

    def _spline(self):
        """not-a-knot cubic spline through points at constant places: polynomial plus truncated powers, solved in rationals"""
        n = len(self.x)
        if n < 4 or not all(v.kind == 'const' for v in map(lift, self.x)):
            raise SymError('interp1d cubic needs 4 constant places')
        xs = [Fraction(lift(v).data) for v in self.x]
        self.knots = xs[2:-2]
        row = lambda t: [t ** 0, t, t * t, t * t * t] + [max(t - k, 0) ** 3 for k in self.knots]
        A = [row(t) + [Fraction(int(i == j)) for j in range(n)] for i, t in enumerate(xs)]
        for c in range(n):
            p = next(r for r in range(c, n) if A[r][c] != 0)
            A[c], A[p] = A[p], A[c]
            A[c] = [v / A[c][c] for v in A[c]]
            for r in range(n):
                if r != c and A[r][c] != 0:
                    A[r] = [u - A[r][c] * v for u, v in zip(A[r], A[c])]
        self.co = [sum((lift(y) * const(q) for y, q in zip(self.y, A[i][n:])), const(0)) for i in range(n)]

    def _cubic(self, v):
        c = self.co
        r = c[0] + v * (c[1] + v * (c[2] + v * c[3]))
        for k, b in zip(self.knots, c[4:]):
            d = v - const(k)
            r = r + NP.where(d > 0, b * d * d * d, const(0))
        return r

    def _lin(self, k, v):
        x, y = self.x, self.y
        t = (v - x[k - 1]) / (x[k] - x[k - 1])
        return y[k - 1] + (y[k] - y[k - 1]) * t

    def __call__(self, v):
        vs = obj(v)
        res = []
        for i in np.ndindex(vs.shape):
            res.append(self._one(lift(vs[i])))
        r = np.empty(vs.shape + np.shape(res[0]), dtype=object)
        for i, e in zip(np.ndindex(vs.shape), res):
            r[i] = e
        return wrap(r)

    def _one(self, v):
        x, y = self.x, self.y
        r = self._cubic(v) if self.cubic else self._lin(len(x) - 1, v)
        for k in range(len(x) - 2, 0, -1) if not self.cubic else ():
            r = NP.where(v <= x[k], self._lin(k, v), r)
        if isinstance(self.fill, str):
            return r
        if self.fill is None or self.be:
            raise SymError('interp1d bounds')
        lo, hi = self.fill if isinstance(self.fill, tuple) else (self.fill, self.fill)
        r = NP.where(v < x[0], lo, r)
        r = NP.where(v > x[-1], hi, r)
        return r


class MathModule(types.ModuleType):
    def __init__(self):
        super().__init__('math')
        self.inf = _math.inf
        self.nan = _math.nan

    @property
    def pi(self): return T.pi()

    @property
    def e(self): return T.exp(const(1))

    def __getattr__(self, n):
        alias = {'acos': 'arccos', 'asin': 'arcsin', 'atan': 'arctan', 'atan2': 'arctan2', 'pow': 'power', 'fabs': 'absolute'}
        n2 = alias.get(n, n)
        if n == 'hypot':
            return lambda *a: T.sqrt(_red1('sum', [lift(x) * x for x in a]))
        if n == 'log':
            return lambda a, *b: UF['log'](a) / UF['log'](lift(b[0])) if b else UF['log'](a)
        if n2 in UF and n2 not in ('trunc',):
            return lambda *a: UF[n2](*a)
        if n == 'isclose':
            return lambda a, b, rel_tol=1e-9, abs_tol=0.0: T.absolute(lift(a) - b) <= T.maximum(const(rel_tol) * T.maximum(T.absolute(lift(a)), T.absolute(lift(b))), const(abs_tol))
        if n in ('isnan', 'isinf'):
            return lambda a: False
        if n == 'isfinite':
            return lambda a: True
        if n == 'ceil':
            return lambda a: -T.floor(-lift(a))
        if n == 'trunc':
            return UF['trunc']
        if n == 'prod':
            return lambda a, start=1: const(start) * _red1('prod', list(a))
        if n == 'dist':
            return lambda p, q: T.sqrt(_red1('sum', [(lift(x) - y) ** 2 for x, y in zip(p, q)]))
        if n == 'tau':
            return 2 * T.pi()
        if n == 'fsum':
            return lambda a: _red1('sum', list(a))
        if n == 'copysign':
            return lambda a, b: T.ite(lift(b) < 0, -T.absolute(lift(a)), T.absolute(lift(a)))
        raise SymError('math.%s has no symbolic encoding' % n)


class Dummy(types.ModuleType):
    """plotting etc.: any call is accepted and ignored"""
    def __init__(self, name='dummy'):
        super().__init__(name)

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return Dummy(n)

    def __call__(self, *a, **k):
        return Dummy()

    def __iter__(self):
        return iter((Dummy(), Dummy()))


class NoEncoding(types.ModuleType):
    """a library without encoding: using it makes the path undecided"""
    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        return NoEncoding(self.__name__ + '.' + n)

    def __call__(self, *a, **k):
        raise SymError('%s has no symbolic encoding' % self.__name__)


class StlMesh:
    """numpy-stl Mesh stand-in: a record array of triangles, recorded at save()"""
    dtype = object()

    class Mesh:
        def __init__(self, data, **kw):
            self.data = data
            self.vectors = data['vectors']

        dtype = 'STLDTYPE'

        def save(self, fname, **kw):
            hooks.stl.append((fname, np.array(np.asarray(self.vectors), dtype=object)))

        def update_normals(self, *a, **k):
            return None


NP = NPModule()
_orig_zeros = NPModule.zeros


def _zeros(self, shape, dtype=None, **kw):
    if dtype == 'STLDTYPE':
        a = _orig_zeros(self, (shape, 3, 3) if not isinstance(shape, tuple) else shape + (3, 3))
        return {'vectors': a}
    return _orig_zeros(self, shape, dtype, **kw)


NPModule.zeros = _zeros


def _mod(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    return m


def no_encoding(what):
    def f(*a, **k):
        raise SymError('%s has no symbolic encoding' % what)
    return f


MATH = MathModule()
SCIPY_INTERP = _mod('scipy.interpolate', interp1d=Interp1d)
SCIPY_INTEG = _mod('scipy.integrate', simps=simps, simpson=simps, trapz=trapz, trapezoid=trapz, ode=no_encoding('scipy ode'),
                   cumulative_trapezoid=cumtrapz, cumtrapz=cumtrapz, quad=no_encoding('quad'))
def brentq(f, a, b, *k, **kw):
    if hooks.root is None:
        raise SymError('brentq has no symbolic encoding')
    return hooks.root(f, a, b)


def root_scalar(f, args=(), method=None, bracket=None, **kw):
    if bracket is None:
        raise SymError('root_scalar without a bracket has no symbolic encoding')
    return _mod('root', root=brentq((lambda v: f(v, *args)) if args else f, *bracket), converged=True)


SCIPY_OPT = _mod('scipy.optimize', minimize=no_encoding('scipy minimize'), root=no_encoding('scipy root'), fsolve=no_encoding('fsolve'),
                 newton=no_encoding('newton'), brentq=brentq, brenth=brentq, bisect=brentq, ridder=brentq, toms748=brentq, root_scalar=root_scalar,
                 minimize_scalar=no_encoding('minimize_scalar'), least_squares=no_encoding('least_squares'))
STUBS = {
    'numpy': NP, 'numpy.linalg': NP.linalg, 'math': MATH, 'scipy': _mod('scipy', interpolate=SCIPY_INTERP, integrate=SCIPY_INTEG, optimize=SCIPY_OPT),
    'scipy.interpolate': SCIPY_INTERP, 'scipy.integrate': SCIPY_INTEG, 'scipy.optimize': SCIPY_OPT,
    'matplotlib': Dummy('matplotlib'), 'matplotlib.pyplot': Dummy('plt'), 'mpl_toolkits': Dummy('mpl'), 'mpl_toolkits.mplot3d': Dummy('m3'),
    'stl': _mod('stl', mesh=StlMesh), 'stl.mesh': StlMesh,
}
