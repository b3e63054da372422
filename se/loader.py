"""Executes the machup package from /repo's working tree, either with the symbolic stand-ins or with the real libraries.

Nothing is cached: the sources are read and compiled again in every run.
"""
import builtins
import os
import sys
import types
from fractions import Fraction
from . import facade as F
from .terms import Node, SymBool, SymError, const

REPO = os.environ.get('VERIF_REPO', '/repo')


class Digits(str):
    """a name whose last characters are digits with unknown values; text is an example of it"""
    def __new__(cls, text, digits):
        self = str.__new__(cls, text)
        self.digits = digits          # one per character, None for letters
        return self

    def __getitem__(self, k):
        t = str.__getitem__(self, k)
        d = self.digits[k] if isinstance(k, slice) else [self.digits[k]]
        return t if all(x is None for x in d) else Digits(t, d)

    def value(self):
        r = 0
        for x in self.digits:
            if x is None:
                raise ValueError('could not convert string to float: %r' % str(self))
            r = r * 10 + x
        return r

    def __iter__(self):
        return iter(self[i] for i in range(len(self)))

    def __add__(self, o):
        return Digits(str(self) + o, list(self.digits) + list(o.digits if isinstance(o, Digits) else [None] * len(o)))


class _SymIntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int)


class symint(builtins.int, metaclass=_SymIntMeta):
    def __new__(cls, *a):
        if len(a) == 1 and isinstance(a[0], Digits):
            return a[0].value()
        return builtins.int(*a)


class _SymFloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.float, Node))


class symfloat(builtins.float, metaclass=_SymFloatMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, (Node, SymBool)):
            return x
        if isinstance(x, F.SArr) and x.size == 1:
            return x.flat[0]
        if isinstance(x, Digits):
            return x.value()
        if type(x) is str:
            try:
                return const(Fraction(x.strip()))      # exact, as written
            except ValueError:
                pass
        return builtins.float(x)


def _quiet(*a, **k):
    return None


def symabs(x):
    return builtins.abs(x)


class Mods:
    pass


def load(symbolic, vfs=None):
    """returns an object with attributes machup, MU, geometry, llgrid, llmodel, propmodel, propssolver, outputstl"""
    reg = {}
    pkgdir = os.path.join(REPO, 'machup')
    names = ['machup'] + ['machup.' + f[:-3] for f in sorted(os.listdir(pkgdir)) if f.endswith('.py') and f != '__init__.py']
    for f in sorted(os.listdir(pkgdir)):
        if os.path.exists(os.path.join(pkgdir, f, '__init__.py')):
            names.append('machup.' + f)
    bd = dict(builtins.__dict__)

    def getmod(full):
        if full in reg:
            return reg[full]
        path = pkgdir if full == 'machup' else os.path.join(pkgdir, *full.split('.')[1:])
        if os.path.isdir(path):
            fn = os.path.join(path, '__init__.py')
            pkg = full
        else:
            fn = path + '.py'
            pkg = full.rpartition('.')[0]
        if not os.path.exists(fn):
            raise ImportError('No module named %r' % full)
        if full != 'machup':
            getmod(full.rpartition('.')[0])
            if full in reg:
                return reg[full]
        m = types.ModuleType(full)
        m.__file__ = fn
        m.__package__ = pkg
        if pkg == full:
            m.__path__ = [os.path.dirname(fn)]
        m.__builtins__ = bd
        reg[full] = m
        with open(fn) as f:
            code = compile(f.read(), fn, 'exec', dont_inherit=True)
        exec(code, m.__dict__)
        par, _, leaf = full.rpartition('.')
        if par and par in reg:
            setattr(reg[par], leaf, m)
        return m

    def imp(name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__']
            for _ in range(level - 1):
                pkg = pkg.rpartition('.')[0]
            name = pkg + ('.' + name if name else '')
        if name == 'machup' or name.startswith('machup.'):
            m = getmod(name)
            if not fromlist:
                return getmod('machup')
            for f in fromlist:
                if f != '*' and not hasattr(m, f):
                    try:
                        getmod(name + '.' + f)
                    except ImportError:
                        pass
            return m
        stubs = F.STUBS if symbolic else {'matplotlib': F.Dummy('matplotlib'), 'matplotlib.pyplot': F.Dummy('plt'),
                                          'mpl_toolkits': F.Dummy('m'), 'mpl_toolkits.mplot3d': F.Dummy('m3')}
        if symbolic and name in ('json', 'os', 'os.path', 'copy'):
            st = vfs.stub(name)
            if st is not None:
                return st if fromlist or '.' not in name else vfs.stub(name.split('.')[0])
        if name in stubs:
            if fromlist:
                return stubs[name]
            return stubs[name.split('.')[0]]
        if symbolic and name.split('.')[0] in ('matplotlib', 'mpl_toolkits', 'pylab'):
            return F.Dummy(name)
        if symbolic and name.split('.')[0] in ('numpy', 'scipy', 'stl', 'cmath', 'statistics', 'numba'):
            return F.NoEncoding(name)
        return builtins.__import__(name, globals, locals, fromlist, 0)

    bd['__import__'] = imp
    bd['print'] = _quiet
    if symbolic:
        bd['float'] = symfloat
        bd['int'] = symint
        bd['open'] = vfs.open
    m = Mods()
    m.machup = getmod('machup')
    for n in names[1:]:
        getmod(n)
    for n in names[1:]:
        setattr(m, n.split('.')[-1], reg[n])
    m.registry = reg
    return m
