"""Hash-consed symbolic real terms.

A term is a Node.  Kinds:
  const            exact rational
  var              free real input / cut variable / uninitialised-memory value
  atom fn args     application of a non-polynomial function (sqrt, sin, cos, arctan, ...)
  ite c a b        conditional
  sum              rational constant + sum of rational * (product or factor)
  prod             product of integer powers of factors (negative power = division)

Light normalisation only (flattening, constant folding, like terms, sqrt(e)^2 -> e, sin^2 -> 1-cos^2 is NOT
applied here); everything else is left to the prover.
Each node carries `sh`, its value at a few sample points (floats).  Shadows only PROPOSE merges of equal atoms
and sample replay candidates; they never decide anything.
"""
from fractions import Fraction
import math

NSH = 3
F0, F1 = Fraction(0), Fraction(1)


def rat(x):
    """Exact rational meant by a Python/numpy number (float literals are read as the short decimal/fraction)."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if hasattr(x, 'dtype') and x.dtype.kind in 'iub':
        return Fraction(int(x))
    x = float(x)
    if x != x or x in (math.inf, -math.inf):
        raise ValueError('non-finite constant %r' % x)
    f = Fraction(x)
    if f.denominator == 1:
        return f
    g = f.limit_denominator(10 ** 5)
    if float(g) == x:
        return g
    return Fraction(repr(x))


class SymError(Exception):
    """The code did something this symbolic executor has no encoding for."""


class Engine:
    """Global state of one symbolic session (one harness)."""
    def __init__(self):
        self.table = {}
        self.nodes = []
        self.vars = {}
        self.expand_atan2 = False
        self.trig = {}          # canonical argument id -> (cos node, sin node)
        self.axioms = {}        # node id -> list of Bool thunks (z3 level), see prove.py
        self.atoms = {}         # fn -> list of atom nodes
        self.side = []          # definedness side conditions of the current path: (kind, node)
        self.side_seen = set()
        self.rootmemo = {}
        self.steps = {}         # arithmetic steps of term construction, confirmed by the solver afterwards
        self.factors = {}       # variables drawn out of sums all of whose terms carry them
        self.roots = []         # nonnegative terms proposed as square roots
        self.hints = []         # scale factors for sweeping
        self.prover = None
        self.path = None
        self.junk = 0
        self.merges = []
        self.stat = dict(nodes=0, atoms=0, merged=0, merged_sums=0)
        self.merge_sums = False
        self.sums = {}


E = None


def set_engine(e):
    global E
    E = e


def _shfn(f, *shs):
    out = []
    for vals in zip(*shs):
        try:
            v = f(*vals)
            out.append(float(v) if not isinstance(v, complex) else math.nan)
        except (ValueError, ZeroDivisionError, OverflowError):
            out.append(math.nan)
    return tuple(out)


class Node:
    __slots__ = ('kind', 'fn', 'args', 'data', 'id', 'sh', 'z', 'info', '__weakref__')
    __array_ufunc__ = None
    __array_priority__ = 1000

    # -- arithmetic -------------------------------------------------------
    def __add__(self, o):
        r = lift(o)
        if r is NotImplemented:
            return _arr(o, lambda x: self + x)
        return add([(F1, self), (F1, r)])
    __radd__ = __add__

    def __sub__(self, o):
        r = lift(o)
        if r is NotImplemented:
            return _arr(o, lambda x: self - x)
        return add([(F1, self), (-F1, r)])

    def __rsub__(self, o):
        r = lift(o)
        if r is NotImplemented:
            return _arr(o, lambda x: x - self)
        return add([(F1, r), (-F1, self)])

    def __mul__(self, o):
        r = lift(o)
        if r is NotImplemented:
            return _arr(o, lambda x: self * x)
        return mul([(self, 1), (r, 1)])
    __rmul__ = __mul__

    def __truediv__(self, o):
        r = lift(o)
        if r is NotImplemented:
            return _arr(o, lambda x: self / x)
        return div(self, r)

    def __rtruediv__(self, o):
        r = lift(o)
        if r is NotImplemented:
            return _arr(o, lambda x: x / self)
        return div(r, self)

    def __neg__(self):
        return add([(-F1, self)])

    def __pos__(self):
        return self

    def __pow__(self, o):
        r = lift(o)
        if r is NotImplemented:
            return _arr(o, lambda x: self ** x)
        return power(self, r)

    def __rpow__(self, o):
        return power(lift(o), self)

    def __abs__(self):
        return absolute(self)

    # -- comparisons ------------------------------------------------------
    def __lt__(self, o):
        r = lift(o)
        return _arr(o, lambda x: self < x) if r is NotImplemented else cmp('<', self - r)

    def __le__(self, o):
        r = lift(o)
        return _arr(o, lambda x: self <= x) if r is NotImplemented else cmp('<=', self - r)

    def __gt__(self, o):
        r = lift(o)
        return _arr(o, lambda x: self > x) if r is NotImplemented else cmp('<', r - self)

    def __ge__(self, o):
        r = lift(o)
        return _arr(o, lambda x: self >= x) if r is NotImplemented else cmp('<=', r - self)

    def __eq__(self, o):
        r = lift(o) if not (o is None or isinstance(o, str)) else None
        if r is None:
            return False
        return _arr(o, lambda x: self == x) if r is NotImplemented else cmp('==', self - r)

    def __ne__(self, o):
        r = self.__eq__(o)
        return bnot(r) if isinstance(r, SymBool) else (not r)

    def __hash__(self):
        return hash(('Node', self.id))

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        if self.kind == 'const':
            return float(self.data)
        raise SymError('symbolic value forced to float')

    def __int__(self):
        if self.kind == 'const' and self.data.denominator == 1:
            return int(self.data)
        raise SymError('symbolic value forced to int')
    __index__ = None

    def __round__(self, n=0):
        if self.kind == 'const':
            return const(rat(round(float(self.data), n)))
        return atom('round%d' % (n or 0), (self,))

    def __complex__(self):
        raise SymError('symbolic value forced to complex')

    # numpy object-ufunc protocol
    def sqrt(self): return sqrt(self)
    def cos(self): return cos(self)
    def sin(self): return sin(self)
    def tan(self): return tan(self)
    def arctan(self): return arctan(self)
    def arccos(self): return arccos(self)
    def arcsin(self): return arcsin(self)
    def arctan2(self, o): return arctan2(self, lift(o))
    def exp(self): return exp(self)
    def log(self): return log(self)
    def tanh(self): return tanh(self)
    def radians(self): return radians(self)
    def degrees(self): return degrees(self)
    def conjugate(self): return self
    def item(self): return self
    def copy(self): return self
    def __copy__(self): return self
    def __deepcopy__(self, memo): return self
    def __reduce__(self): raise SymError('symbolic value pickled')
    @property
    def real(self): return self
    @property
    def shape(self): return ()
    @property
    def ndim(self): return 0
    @property
    def size(self): return 1

    def __format__(self, spec): return repr(self)

    def __repr__(self):
        return show(self)


class SymBool:
    """Symbolic truth value.  op in  cmp(op,node) | and | or | not | const"""
    __slots__ = ('op', 'args', 'key')
    __array_ufunc__ = None

    def __init__(self, op, args):
        self.op, self.args = op, args
        self.key = (op,) + tuple(a.key if isinstance(a, SymBool) else (a.id if isinstance(a, Node) else a) for a in args)

    def __and__(self, o):
        o = blift(o)
        return _arr(o, lambda x: self & x) if o is NotImplemented else band(self, o)
    __rand__ = __and__

    def __or__(self, o):
        o = blift(o)
        return _arr(o, lambda x: self | x) if o is NotImplemented else bor(self, o)
    __ror__ = __or__

    def __invert__(self):
        return bnot(self)

    def __bool__(self):
        if self.op == 'const':
            return self.args[0]
        return E.path.decide(self)

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        o = blift(o)
        return bor(band(self, o), band(bnot(self), bnot(o)))

    def __mul__(self, o):
        return ite(self, lift(o), const(0))
    __rmul__ = __mul__

    def __add__(self, o):
        return ite(self, const(1), const(0)) + o
    __radd__ = __add__

    def logical_and(self, o): return self & o
    def logical_or(self, o): return self | o
    def logical_not(self): return ~self

    def sh(self):
        if self.op == 'const':
            return [self.args[0]] * NSH
        if self.op in ('<', '<=', '=='):
            s = self.args[0].sh
            if self.op == '<': return [v < 0 for v in s]
            if self.op == '<=': return [v <= 0 for v in s]
            return [v == 0 for v in s]
        if self.op == 'not': return [not v for v in self.args[0].sh()]
        a, b = self.args[0].sh(), self.args[1].sh()
        return [x and y for x, y in zip(a, b)] if self.op == 'and' else [x or y for x, y in zip(a, b)]

    def __repr__(self):
        return 'B(%s %s)' % (self.op, ', '.join(map(repr, self.args)))


def _arr(o, f):
    import numpy as np
    if isinstance(o, (list, tuple)):
        o = np.array(o, dtype=object)
    if isinstance(o, np.ndarray):
        from . import facade
        out = np.empty(o.shape, dtype=object)
        for i in np.ndindex(o.shape):
            out[i] = f(o[i])
        return out.view(facade.SArr) if o.shape != () else out[()]
    return NotImplemented


# ---------------------------------------------------------------- construction
def _mk(key, kind, fn, args, data, sh):
    n = E.table.get(key)
    if n is None:
        n = Node()
        n.kind, n.fn, n.args, n.data, n.sh, n.z, n.info = kind, fn, args, data, sh, None, None
        n.id = len(E.nodes)
        E.nodes.append(n)
        E.table[key] = n
    return n


def const(x):
    q = rat(x)
    return _mk(('c', q), 'const', None, (), q, (float(q),) * NSH)


def lift(x):
    if isinstance(x, Node):
        return x
    if isinstance(x, SymBool):
        return ite(x, const(1), const(0))
    if isinstance(x, (int, float, Fraction)):
        return const(x)
    import numpy as np
    if isinstance(x, np.generic):
        return const(x)
    if isinstance(x, np.ndarray) and x.shape == ():
        return lift(x[()])
    return NotImplemented


def var(name, sh, tag=None):
    n = _mk(('v', name), 'var', name, (), None, tuple(float(s) for s in sh))
    if tag is not None:
        n.info = tag
    E.vars[name] = n
    return n


def junk():
    """Contents of uninitialised memory: any value whatsoever."""
    E.junk += 1
    return var('junk!%d' % E.junk, [(E.junk * 37 + 11 * k) % 97 + 0.123 * k + 3.7 for k in range(NSH)], 'junk')


PI_SH = (math.pi,) * NSH


def pi():
    return _mk(('v', 'pi'), 'var', 'pi', (), None, PI_SH)


def is_const(n, q=None):
    return n.kind == 'const' and (q is None or n.data == q)


def _terms(n):
    """node -> (const, {factor-or-prod id: (node, coef)})"""
    if n.kind == 'const':
        return n.data, ()
    if n.kind == 'sum':
        return n.data, n.args
    return F0, ((n, F1),)


def _step(op, pairs, c, items):
    k = (op, tuple((q, n.id) if op == '+' else (n.id, q) for q, n in (pairs if op == '+' else [(e, n) for n, e in pairs])))
    if len(k[1]) > 1 and len(E.steps) < 40000 and k not in E.steps:
        E.steps[k] = (pairs, c, tuple(items))


def add(pairs):
    pairs = list(pairs)
    c = F0
    acc = {}
    for q, n in pairs:
        k, ts = _terms(n)
        c += q * k
        for t, tc in ts:
            v = acc.get(t.id)
            acc[t.id] = (t, q * tc + (v[1] if v else F0))
    items = [tc for tc in acc.values() if tc[1] != 0]
    _step('+', pairs, c, items)
    if not items:
        return const(c)
    if c == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    if len(items) > 1 and sum(t.kind == 'ite' for t, q in items) > 1:
        r = _same_condition(c, items)
        if r is not None:
            return r
    if E.factors and c == 0 and len(items) > 1:
        r = _draw_out(items)
        if r is not None:
            return r
    items.sort(key=lambda t: t[0].id)
    key = ('s', c, tuple((t.id, q) for t, q in items))
    n = E.table.get(key)
    if n is not None:
        return n
    cf = float(c)
    sh = tuple(math.fsum([cf] + [float(q) * t.sh[k] for t, q in items]) if all(
        abs(t.sh[k]) < 1e300 for t, q in items) else math.nan for k in range(NSH))
    if E.merge_sums and E.prover is not None:
        r = _merge_sum(key, c, items, sh)
        if r is not None:
            return r
    return _mk(key, 'sum', None, tuple(items), c, sh)


def _same_condition(c, items):
    """p*ite(b, x, y) + q*ite(b, u, v) -> w where p*x + q*u and p*y + q*v are one term w"""
    groups = {}
    for t, q in items:
        if t.kind == 'ite':
            groups.setdefault(t.fn.key, []).append((t, q))
    for g in groups.values():
        if len(g) > 1:
            x = add([(q, t.args[0]) for t, q in g])
            if x is add([(q, t.args[1]) for t, q in g]):
                gone = {t.id for t, q in g}
                return add([(c, const(1)), (F1, x)] + [(q, t) for t, q in items if t.id not in gone])
    return None


def _exps(t):
    if t.kind == 'prod':
        return {f.id: e for f, e in t.args if f.id in E.factors}
    return {t.id: 1} if t.id in E.factors else {}


def _draw_out(items):
    """v^k a + v^k b -> v^k (a + b) for the hinted variables v"""
    ex = [_exps(t) for t, q in items]
    common = {i: e for i, e in ex[0].items() if all(x.get(i) == e for x in ex[1:])}
    if not common:
        return None
    inv = [(E.factors[i], -e) for i, e in common.items()]
    return mul([(E.factors[i], e) for i, e in common.items()] + [(add([(q, mul([(t, 1)] + inv)) for t, q in items]), 1)])


def _merge_sum(key, c, items, sh):
    """an existing sum (or its negative, or 0) this one provably equals; the new one is entered in the table of sums otherwise"""
    if not all(s == s for s in sh):
        return None
    mag = [abs(float(c)) + sum(abs(float(q) * t.sh[k]) for t, q in items) for k in range(NSH)]
    zero = all(abs(s) <= 1e-11 * m for s, m in zip(sh, mag))
    k2 = 0 if zero else '%.7e' % abs(sh[0])
    cands = E.sums.setdefault(k2, [])
    if not zero and not cands:
        n = _mk(key, 'sum', None, tuple(items), c, sh)
        cands.append(n)
        return n
    n = _mk(key, 'sum', None, tuple(items), c, sh)
    E.merge_sums = False
    E.prover.small_limit = 2000
    try:
        if zero:
            r = const(0) if E.prover.equal(n, const(0), sweep=True) else None
        else:
            r = None
            for m in cands[:4]:
                for s in (1, -1):
                    if all(abs(a - s * b) <= 1e-10 * (abs(a) + abs(b)) for a, b in zip(sh, m.sh)):
                        t = m if s == 1 else add([(-F1, m)])
                        if E.prover.equal(n, t, sweep=True):
                            r = t
                            break
                if r is not None:
                    break
            else:
                if len(cands) < 4:
                    cands.append(n)
    finally:
        E.merge_sums = True
        E.prover.small_limit = None
    if r is not None:
        E.table[key] = r
        E.stat['merged_sums'] += 1
        return r
    return n


def _split(n):
    """node -> (rational coefficient, [(factor, exp)])"""
    if n.kind == 'const':
        return n.data, []
    if n.kind == 'prod':
        return F1, list(n.args)
    if n.kind == 'sum':
        if n.data == 0 and len(n.args) == 1:
            t, q = n.args[0]
            c, fs = _split(t)
            return q * c, fs
        q = n.args[0][1]          # make the leading coefficient 1
        if q != 1:
            return q, [(add([(1 / q, n)]), 1)]
        return F1, [(n, 1)]
    return F1, [(n, 1)]


def mul(pairs):
    c = F1
    acc = {}
    pairs = list(pairs)
    stack = list(pairs)
    while stack:
        n, e = stack.pop()
        if e == 0:
            continue
        q, fs = _split(n)
        if q == 0:
            if e < 0:
                E.side.append(('nonzero', n))
                raise ZeroDivisionError('symbolic division by zero')
            return const(0)
        c *= q ** e
        for f, fe in fs:
            v = acc.get(f.id)
            acc[f.id] = (f, fe * e + (v[1] if v else 0))
    _step('*', pairs, c, [fe for fe in acc.values() if fe[1] != 0])
    # sqrt(e)^(2k) -> e^k
    for fid in list(acc):
        f, e = acc[fid]
        if f.kind == 'atom' and f.fn == 'sqrt' and abs(e) >= 2:
            k = int(e / 2)      # towards zero
            r = e - 2 * k
            if r:
                acc[fid] = (f, r)
            else:
                del acc[fid]
            rest = [(const(c), 1)] + [fe for fe in acc.values()] + [(f.args[0], k)]
            return mul(rest)
    items = [fe for fe in acc.values() if fe[1] != 0]
    if not items:
        return const(c)
    if len(items) == 1 and items[0][1] == 1:
        core = items[0][0]
    else:
        items.sort(key=lambda t: t[0].id)
        key = ('p', tuple((f.id, e) for f, e in items))
        core = E.table.get(key)
        if core is None:
            def val(k):
                try:
                    r = 1.0
                    for f, e in items:
                        r *= f.sh[k] ** e
                    return r
                except (ZeroDivisionError, OverflowError):
                    return math.nan
            core = _mk(key, 'prod', None, tuple(items), None, tuple(val(k) for k in range(NSH)))
    if c == 1:
        return core
    return add([(c, core)])


def note_side(kind, n):
    k = (kind, n.id)
    if k not in E.side_seen:
        E.side_seen.add(k)
        E.side.append((kind, n))


def div(a, b):
    if b.kind == 'const':
        if b.data == 0:
            note_side('nonzero', b)
            raise ZeroDivisionError('division by constant zero')
        return mul([(a, 1), (b, -1)])
    note_side('nonzero', b)
    return mul([(a, 1), (b, -1)])


def power(b, e):
    if e.kind == 'const':
        q = e.data
        if q.denominator == 1:
            k = int(q)
            if k < 0:
                note_side('nonzero', b)
            return mul([(b, k)])
        if q.denominator == 2:
            s = sqrt(b)
            if q < 0:
                note_side('nonzero', s)
            return mul([(s, int(q * 2))])
    return atom('pow', (b, e))


# ---------------------------------------------------------------- conditions
TRUE = SymBool('const', (True,))
FALSE = SymBool('const', (False,))


def blift(x):
    if isinstance(x, SymBool):
        return x
    import numpy as np
    if isinstance(x, (bool, np.bool_)):
        return TRUE if x else FALSE
    if isinstance(x, Node):
        return bnot(cmp('==', x))
    if isinstance(x, np.ndarray):
        return NotImplemented
    if x is NotImplemented:
        return x
    return TRUE if x else FALSE


_CLOSED = {'sin': (math.sin, lambda v: 1.0), 'cos': (math.cos, lambda v: 1.0), 'arctan': (math.atan, lambda v: 1.0), 'exp': (math.exp, lambda v: 2 * math.exp(v)),
           'tanh': (math.tanh, lambda v: 1.0), 'abs': (abs, lambda v: 1.0), 'sqrt': (math.sqrt, lambda v: 1 / math.sqrt(v)), 'log': (math.log, lambda v: 2 / v)}


def closed(n):
    """(value, error bound) of a term without unknowns (numbers, pi, functions of them), None for any other"""
    memo = E.__dict__.setdefault('closed_memo', {})
    if n.id in memo:
        return memo[n.id]
    r = None
    if n.kind == 'const':
        r = (float(n.data), 1e-15 * abs(float(n.data)))
    elif n.kind == 'var':
        r = (math.pi, 1e-15) if n.fn == 'pi' else None
    elif n.kind == 'sum':
        v, e = float(n.data), 1e-15 * abs(float(n.data))
        for t, q in n.args:
            c = closed(t)
            if c is None:
                break
            v += float(q) * c[0]
            e += abs(float(q)) * (c[1] + 1e-15 * abs(c[0])) + 1e-15 * abs(v)
        else:
            r = (v, e)
    elif n.kind == 'prod':
        v, e = 1.0, 1e-15
        for t, k in n.args:
            c = closed(t)
            if c is None or abs(c[0]) < 1e3 * c[1] or c[0] == 0 or (k != int(k) and c[0] < 0):
                break
            v *= c[0] ** float(k)
            e += 2 * abs(float(k)) * c[1] / abs(c[0]) + 1e-15
        else:
            r = (v, abs(v) * e)
    elif n.kind == 'atom' and n.fn in _CLOSED and len(n.args) == 1:
        c = closed(n.args[0])
        if c is not None and not (n.fn in ('sqrt', 'log') and c[0] < 1e3 * c[1] + 1e-12):
            f, d = _CLOSED[n.fn]
            r = (f(c[0]), d(c[0]) * c[1] + 1e-15 * (1 + abs(f(c[0]))))
    if r is not None and not (abs(r[0]) < 1e100 and r[1] == r[1]):
        r = None
    memo[n.id] = r
    return r


def cmp(op, n):
    if n.kind == 'const':
        d = n.data
        return TRUE if (d < 0 if op == '<' else d <= 0 if op == '<=' else d == 0) else FALSE
    c = closed(n)
    if c is not None and abs(c[0]) > 1e3 * c[1] + 1e-9:
        return FALSE if op == '==' or c[0] > 0 else TRUE
    if n.kind == 'sum':            # scale leading coefficient to +-1
        q = abs(n.args[0][1])
        if q != 1:
            n = add([(1 / q, n)])
    if op == '==' :
        q, fs = _split(n)
        if n.kind == 'sum' and n.args[0][1] < 0:
            n = -n
    return SymBool(op, (n,))


def bnot(b):
    b = blift(b)
    if b.op == 'const':
        return FALSE if b.args[0] else TRUE
    if b.op == 'not':
        return b.args[0]
    if b.op == '<':
        return cmp('<=', -b.args[0])
    if b.op == '<=':
        return cmp('<', -b.args[0])
    return SymBool('not', (b,))


def band(a, b):
    a, b = blift(a), blift(b)
    if a.op == 'const':
        return b if a.args[0] else a
    if b.op == 'const':
        return a if b.args[0] else b
    if a.key == b.key:
        return a
    return SymBool('and', (a, b))


def bor(a, b):
    a, b = blift(a), blift(b)
    if a.op == 'const':
        return a if a.args[0] else b
    if b.op == 'const':
        return b if b.args[0] else a
    if a.key == b.key:
        return a
    return SymBool('or', (a, b))


def resolve(b):
    """truth values already decided on the current path"""
    known = getattr(E.path, 'known', None)
    if not known or b.op == 'const':
        return b
    v = known.get(b.key)
    if v is not None:
        return TRUE if v else FALSE
    if b.op in ('and', 'or'):
        x, y = resolve(b.args[0]), resolve(b.args[1])
        if x is not b.args[0] or y is not b.args[1]:
            return (band if b.op == 'and' else bor)(x, y)
    elif b.op == 'not':
        x = resolve(b.args[0])
        if x is not b.args[0]:
            return bnot(x)
    return b


def ite(c, a, b):
    c = resolve(blift(c))
    a, b = lift(a), lift(b)
    if c.op == 'const':
        return a if c.args[0] else b
    if a is b:
        return a
    if c.op == 'not':
        return ite(c.args[0], b, a)
    cs = c.sh()
    sh = tuple(x if k else y for k, x, y in zip(cs, a.sh, b.sh))
    return _mk(('ite', c.key, a.id, b.id), 'ite', c, (a, b), None, sh)


# ---------------------------------------------------------------- atoms
def close(a, b):
    return abs(a - b) <= 1e-9 * (abs(a) + abs(b)) + 1e-13


def shclose(s, t, f=1.0):
    return all(x == x and y == y and close(x, y * f) for x, y in zip(s, t))


def shnan(s, t):
    """equal sample values, also where a sample lies outside the function's domain"""
    return all((x != x and y != y) or (x == x and y == y and close(x, y)) for x, y in zip(s, t))


SHF = dict(sqrt=math.sqrt, arctan=math.atan, arccos=math.acos, arcsin=math.asin, exp=math.exp, log=math.log,
           tanh=math.tanh, abs=abs, arctan2=math.atan2, pow=lambda a, b: a ** b, floor=math.floor, sign=lambda x: (x > 0) - (x < 0),
           round2=lambda x: round(x, 2), round0=round)
UFIMPL = {}


def ufun(name, impl):
    """Declare an uninterpreted function symbol with a concrete shadow implementation."""
    UFIMPL[name] = impl

    def f(*args):
        return atom(name, tuple(lift(a) for a in args))
    return f


def atom(fn, args):
    key = ('a', fn, tuple(a.id for a in args))
    n = E.table.get(key)
    if n is not None:
        return n
    f = SHF.get(fn) or UFIMPL[fn]
    sh = _shfn(f, *[a.sh for a in args])
    # sweeping: is there an atom of the same function with provably equal arguments?
    if E.prover is not None:
        for m in reversed(E.atoms.get(fn, ())):
            if shnan(sh, m.sh) and all(shnan(x.sh, y.sh) for x, y in zip(args, m.args)):
                if all(E.prover.equal(x, y, sweep=True) for x, y in zip(args, m.args)):
                    E.table[key] = m
                    E.stat['merged'] += 1
                    return m
            elif fn == 'arctan2' and shclose(sh, m.sh):
                y1, x1 = args
                y2, x2 = m.args
                if E.prover.equal(y1 * x2, y2 * x1, sweep=True) and E.prover.valid(cmp('<', -(x1 * x2 + y1 * y2)), sweep=True):
                    E.table[key] = m
                    E.stat['merged'] += 1
                    return m
    n = _mk(key, 'atom', fn, args, None, sh)
    E.atoms.setdefault(fn, []).append(n)
    E.stat['atoms'] += 1
    return n


def sqrt(n):
    n = lift(n)
    if n.kind == 'const':
        if n.data < 0:
            note_side('nonneg', n)
            raise SymError('sqrt of a negative constant')
        p, q = math.isqrt(n.data.numerator), math.isqrt(n.data.denominator)
        if p * p == n.data.numerator and q * q == n.data.denominator:
            return const(Fraction(p, q))
        return atom('sqrt', (n,))
    note_side('nonneg', n)
    if E.roots and E.prover is not None:
        h = E.rootmemo.get(n.id)
        if h is not None:
            return h
        shm = _shfn(math.sqrt, n.sh)
        for h in E.roots:
            if shclose(shm, h.sh) and E.prover.equal(n, h * h, sweep=True):
                if E.prover.interval(h)[0] >= 0 or E.prover.valid(cmp('<=', -h), sweep=True) is True:
                    E.rootmemo[n.id] = h
                    return h
    c, fs = _split(n)
    out = []
    # pull out even powers of factors known to be >= 0 (positive inputs, sqrt atoms)
    keep = []
    for f, e in fs:
        if known_nonneg(f) and abs(e) >= 2:
            k = int(e / 2)
            out.append((f, k))
            if e - 2 * k:
                keep.append((f, e - 2 * k))
        elif not known_nonneg(f) and e % 2 == 0 and len(fs) == 1 and abs(e) == 2:
            out.append((absolute(f), e // 2))
        else:
            keep.append((f, e))
    if c > 0:
        p, q = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if p * p == c.numerator and q * q == c.denominator:
            out.append((const(Fraction(p, q)), 1))
        else:
            keep.append((const(c), 1))
    else:
        keep.append((const(c), 1))
    m = mul(keep) if keep else const(1)
    if is_const(m, 1):
        return mul(out)
    # try declared scale hints: e = h^2 * e0 with e0's root already known
    r = None
    if E.hints and E.prover is not None:
        key = ('a', 'sqrt', (m.id,))
        if key not in E.table:
            shm = _shfn(math.sqrt, m.sh)
            for a in reversed(E.atoms.get('sqrt', ())):
                for h in E.hints:
                    if all(x == x and close(x, y * z) for x, y, z in zip(shm, a.sh, h.sh)) and not shclose(shm, a.sh):
                        if E.prover.equal(m, h * h * a.args[0], sweep=True):
                            r = h * a
                            break
                if r is not None:
                    break
    if r is None:
        r = atom('sqrt', (m,))
    return mul(out + [(r, 1)])


def known_nonneg(f):
    if f.kind == 'atom' and f.fn in ('sqrt', 'abs', 'exp', 'arccos'):
        return True
    if f.kind == 'var':
        if f.fn == 'pi':
            return True
        return isinstance(f.info, dict) and f.info.get('lo') is not None and f.info['lo'] >= 0
    if f.kind == 'const':
        return f.data >= 0
    return False


def absolute(n):
    n = lift(n)
    if n.kind == 'const':
        return const(abs(n.data))
    c, fs = _split(n)
    if len(fs) > 1 or (fs and fs[0][1] != 1):
        # |a^i b^j| = product, dropping abs on known-nonnegative factors
        out = [(const(abs(c)), 1)]
        rest = []
        for f, e in fs:
            if known_nonneg(f):
                out.append((f, e))
            elif e % 2 == 0:
                out.append((f, e))
            else:
                rest.append((f, e))
        if not rest:
            return mul(out)
        if len(rest) < len(fs) or abs(c) != 1:
            return mul(out + [(absolute(mul(rest)), 1)])
        m = mul(rest)
    else:
        f = fs[0][0]
        if known_nonneg(f):
            return mul([(const(abs(c)), 1), (f, 1)])
        if c != 1:
            return mul([(const(abs(c)), 1), (absolute(f), 1)])
        m = f
    # canonical sign: sweep |m| against existing |x| with x == -m
    if E.prover is not None:
        key = ('a', 'abs', (m.id,))
        if key not in E.table:
            for a in reversed(E.atoms.get('abs', ())):
                if shclose(_shfn(abs, m.sh), a.sh) and shclose(m.sh, a.args[0].sh, -1.0):
                    if E.prover.equal(m, -a.args[0], sweep=True):
                        E.table[key] = a
                        return a
    return atom('abs', (m,))


def _pi_split(n):
    """n = q*pi + rest"""
    if n.kind == 'const':
        return F0, n
    p = pi()
    if n is p:
        return F1, const(0)
    if n.kind == 'sum':
        for t, q in n.args:
            if t is p:
                return q, add([(F1, n), (-q, p)])
    return F0, n


def _sweep_key(fn, n):
    """existing registered argument provably equal to +-n"""
    for m, sgn in [(n, 1), (-n, -1)]:
        k = E.trig.get(m.id)
        if k is not None:
            return k, sgn
    if E.prover is not None:
        for aid, k in list(E.trig.items()):
            a = E.nodes[aid]
            for sgn in (1, -1):
                if shnan(n.sh, [sgn * v for v in a.sh]) and E.prover.equal(n, a if sgn == 1 else -a, sweep=True):
                    E.trig[n.id if sgn == 1 else (-n).id] = k
                    return k, sgn
    return None, 1


def trig(n):
    """(cos n, sin n)"""
    n = lift(n)
    q, rest = _pi_split(n)
    if rest.kind == 'const' and rest.data == 0:
        return _trig_pi(q)
    if q != 0:
        h = math.floor(q * 2 + Fraction(1, 2))      # nearest quarter turns
        r = q - Fraction(h, 2)
        base = add([(F1, rest), (r, pi())]) if r else rest
        c, s = trig(base)
        for _ in range(h % 4):
            c, s = -s, c
        return c, s
    if rest.kind == 'atom' and rest.fn == 'arccos':
        u = rest.args[0]
        return u, sqrt(1 - u * u)
    if rest.kind == 'atom' and rest.fn == 'arctan':
        u = rest.args[0]
        r = sqrt(1 + u * u)
        return 1 / r, u / r
    if E.expand_atan2 and rest.kind == 'atom' and rest.fn == 'arctan2' and E.prover is not None and all(v > 0 for v in rest.args[1].sh) and E.prover.valid(cmp('<', -rest.args[1]), sweep=True) is True:
        y, x = rest.args
        r = sqrt(x * x + y * y)
        return x / r, y / r
    lead = rest.args[0][1] if rest.kind == 'sum' else F1
    if lead < 0:
        c, s = trig(-rest)
        return c, -s
    k, sgn = _sweep_key('trig', rest)
    if k is None:
        half = add([(Fraction(1, 2), rest)])
        hk = E.trig.get(half.id)
        if hk is None and (-half).id in E.trig:
            hc, hs = E.trig[(-half).id]
            hk = (hc, -hs)
        if hk is not None:
            hc, hs = hk
            k = (2 * hc * hc - 1, 2 * hc * hs)
        else:
            cs = _shfn(math.cos, rest.sh)
            ss = _shfn(math.sin, rest.sh)
            c = _mk(('a', 'cos', (rest.id,)), 'atom', 'cos', (rest,), None, cs)
            s = _mk(('a', 'sin', (rest.id,)), 'atom', 'sin', (rest,), None, ss)
            c.info = ('trig', s)
            s.info = ('trig', c)
            k = (c, s)
            E.stat['atoms'] += 2
        E.trig[rest.id] = k
    c, s = k
    return (c, s) if sgn == 1 else (c, -s)


def _trig_pi(q):
    q = q % 2
    if q >= 1:
        c, s = _trig_pi(q - 1)
        return -c, -s
    if q > Fraction(1, 2):
        c, s = _trig_pi(1 - q)
        return -c, s
    # 0 <= q <= 1/2
    if q > Fraction(1, 4):
        c, s = _trig_pi(Fraction(1, 2) - q)
        return s, c
    tab = {F0: (1, 0), }
    if q in tab:
        return const(tab[q][0]), const(tab[q][1])
    if q == Fraction(1, 6):
        return sqrt(const(3)) / 2, const(Fraction(1, 2))
    if q == Fraction(1, 4):
        r = sqrt(const(2)) / 2
        return r, r
    if q == Fraction(1, 8):
        r = sqrt(const(2))
        c = sqrt(2 + r) / 2
        return c, c * (r - 1)
    if q == Fraction(1, 12):
        a, b = sqrt(const(3)), sqrt(const(2))
        return b * (a + 1) / 4, b * (a - 1) / 4
    if q == Fraction(1, 5):
        r5 = sqrt(const(5))
        return (1 + r5) / 4, sqrt(10 + 2 * r5) * (r5 - 1) / 8
    if q == Fraction(1, 10):
        r5 = sqrt(const(5))
        return sqrt(10 + 2 * r5) / 4, (r5 - 1) / 4
    key = ('cospi', q)
    c = E.table.get(key)
    if c is None:
        n = add([(q, pi())])
        c = _mk(key, 'atom', 'cos', (n,), None, (math.cos(math.pi * q),) * NSH)
        s = _mk(('sinpi', q), 'atom', 'sin', (n,), None, (math.sin(math.pi * q),) * NSH)
        c.info = ('trig', s)
        s.info = ('trig', c)
    return c, E.table[('sinpi', q)]


def cos(n): return trig(n)[0]
def sin(n): return trig(n)[1]


def tan(n):
    c, s = trig(n)
    return div(s, c)


def arctan(n):
    n = lift(n)
    if n.kind == 'const' and n.data == 0:
        return n
    c, fs = _split(n)
    if c < 0 or (n.kind == 'sum' and n.args[0][1] < 0):
        return -arctan(-n)
    if E.prover is not None:
        key = ('a', 'arctan', (n.id,))
        if key not in E.table:
            sh = _shfn(math.atan, n.sh)
            for a in reversed(E.atoms.get('arctan', ())):
                if shclose(sh, a.sh, -1.0) and E.prover.equal(n, -a.args[0], sweep=True):
                    return -a
    return atom('arctan', (n,))


def _split_core(n):
    return n.args[0][0] if n.kind == 'sum' and n.data == 0 and len(n.args) == 1 else n


def _positive_var(v):
    return v.kind == 'var' and isinstance(v.info, dict) and v.info.get('lo') is not None and (v.info['lo'] > 0 or (v.info['lo'] == 0 and v.info.get('slo')))


def arctan2(y, x):
    y, x = lift(y), lift(x)
    if y.kind == 'const' and y.data == 0 and cmp('<', -x) is TRUE:
        return y
    if E.factors:
        ey, ex = _exps(_split_core(y)), _exps(_split_core(x))
        inv = [(E.factors[i], -e) for i, e in ey.items() if ex.get(i) == e and _positive_var(E.factors[i])]
        if inv:         # atan2(k y, k x) = atan2(y, x) for k > 0
            y, x = mul([(y, 1)] + inv), mul([(x, 1)] + inv)
    if E.prover is not None:
        key = ('a', 'arctan2', (y.id, x.id))
        if key not in E.table:
            sh = _shfn(math.atan2, y.sh, x.sh)
            for a in reversed(E.atoms.get('arctan2', ())):
                y2, x2 = a.args
                if shclose(sh, a.sh, -1.0) and E.prover.equal(y, -y2, sweep=True) and E.prover.equal(x, x2, sweep=True):
                    return -a
    return atom('arctan2', (y, x))


def arccos(n):
    n = lift(n)
    note_side('unit', n)
    if n.kind == 'const':
        if n.data == 1: return const(0)
        if n.data == -1: return pi()
        if n.data == 0: return pi() / 2
    return atom('arccos', (n,))


def arcsin(n):
    return pi() / 2 - arccos(n)


def exp(n):
    n = lift(n)
    if is_const(n, 0):
        return const(1)
    return atom('exp', (n,))


def log(n):
    n = lift(n)
    if is_const(n, 1):
        return const(0)
    return atom('log', (n,))


def tanh(n):
    n = lift(n)
    if is_const(n, 0):
        return n
    c, fs = _split(n)
    if c < 0:
        return -tanh(-n)
    return atom('tanh', (n,))


def radians(n):
    return lift(n) * pi() / 180


def degrees(n):
    return lift(n) * 180 / pi()


def sign(n):
    n = lift(n)
    return ite(cmp('<', -n), const(1), ite(cmp('<', n), const(-1), const(0)))


def minimum(a, b):
    a, b = lift(a), lift(b)
    return ite(a <= b, a, b)


def maximum(a, b):
    a, b = lift(a), lift(b)
    return ite(a >= b, a, b)


def floor(n):
    n = lift(n)
    if n.kind == 'const':
        return const(math.floor(n.data))
    return atom('floor', (n,))


# ---------------------------------------------------------------- printing
def show(n, depth=4):
    if n.kind == 'const':
        return str(n.data)
    if n.kind == 'var':
        return n.fn
    if depth == 0:
        return '#%d' % n.id
    if n.kind == 'atom':
        return '%s(%s)' % (n.fn, ', '.join(show(a, depth - 1) for a in n.args))
    if n.kind == 'ite':
        return 'ite(%r)' % (n.fn.op,)
    if n.kind == 'sum':
        s = ' + '.join(('%s*%s' % (q, show(t, depth - 1)) if q != 1 else show(t, depth - 1)) for t, q in n.args[:6])
        if len(n.args) > 6:
            s += ' + ...%d' % len(n.args)
        return '(%s%s)' % (s, ' + %s' % n.data if n.data else '')
    return '*'.join(show(f, depth - 1) + ('^%d' % e if e != 1 else '') for f, e in n.args)


def walk(roots, stop=None):
    """all nodes reachable from roots (through conditions too)"""
    seen = {}
    st = [r for r in roots]
    while st:
        x = st.pop()
        if isinstance(x, SymBool):
            st.extend(a for a in x.args if isinstance(a, (Node, SymBool)))
            continue
        if x.id in seen:
            continue
        seen[x.id] = x
        if stop is not None and stop(x):
            continue
        if x.kind in ('sum', 'prod'):
            st.extend(a for a, _ in x.args)
        elif x.kind == 'ite':
            st.append(x.fn)
            st.extend(x.args)
        else:
            st.extend(x.args)
    return seen
