"""Validity checking for terms: translation to z3, axioms for non-polynomial atoms, algebraic preprocessing.

A goal is valid when  assumptions & path & axioms & not(goal)  is unsatisfiable.  Every atom (sqrt, cos, ...) is a
z3 Real constrained by facts that are true of the function; so `unsat` is a sound verdict for the real function.
"""
import math
import os
import time
from fractions import Fraction
import z3
from . import terms as T
from .terms import F0, F1, Node, SymBool

z3.set_param('model.completion', True)


class TooBig(Exception):
    pass


class Poly:
    """Laurent polynomials over node symbols, with s^2 -> e, sin^2 -> 1-cos^2, |x|^2 -> x^2."""
    def __init__(self, limit=60000):
        self.memo = {}
        self.limit = limit
        self.opaque = frozenset()       # ids of sums that stay symbols

    def padd(self, a, b, k=F1):
        if len(a) < len(b) and k == 1:
            a, b = b, a
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, F0) + k * c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def pmul(self, a, b):
        if len(a) * len(b) > 40 * self.limit:
            raise TooBig()
        if len(a) > len(b):
            a, b = b, a
        r = {}
        todo = []
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m, red = self.mmul(m1, m2)
                c = c1 * c2
                if red:
                    todo.append((m, c))
                    continue
                v = r.get(m, F0) + c
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
            if len(r) > self.limit:
                raise TooBig()
        for m, c in todo:
            r = self.padd(r, self.reduce(m), c)
            if len(r) > self.limit:
                raise TooBig()
        return r

    def mmul(self, m1, m2):
        if not m1:
            return m2, False
        if not m2:
            return m1, False
        d = dict(m1)
        red = False
        for s, e in m2:
            v = d.get(s, 0) + e
            if v:
                d[s] = v
                if (v > 1 or v < 0) and self.reducible(s, v):
                    red = True
            else:
                del d[s]
        return tuple(sorted(d.items())), red

    def reducible(self, s, e):
        n = T.E.nodes[s]
        if n.kind == 'atom':
            if n.fn in ('sqrt', 'abs'):
                return e >= 2 or e < 0
            if n.fn == 'sin':
                return e >= 2
        if n.kind == 'sum':
            return e > 0 and s not in self.opaque
        return False

    def reduce(self, m):
        r = {(): F1}
        plain = []
        for s, e in m:
            n = T.E.nodes[s]
            if not ((e > 1 or e < 0 or n.kind == 'sum') and self.reducible(s, e)):
                plain.append((s, e))
                continue
            if n.kind == 'atom' and n.fn in ('sqrt', 'abs'):
                k, rr = divmod(e, 2)          # e = 2k + rr, rr in {0,1}
                if n.fn == 'sqrt':
                    f = self.ppow(n.args[0], k)
                else:
                    f = self.ppow(n.args[0], 2 * k)
                r = self.pmul(r, f)
                if rr:
                    plain.append((s, 1))
            elif n.kind == 'atom' and n.fn == 'sin':
                k, rr = divmod(e, 2)
                c = n.info[1]
                base = {(): F1, ((c.id, 2),): -F1}
                for _ in range(k):
                    r = self.pmul(r, base)
                if rr:
                    plain.append((s, 1))
            else:
                r = self.pmul(r, self.ppow(n, e))
        if plain:
            r = self.pmul(r, {tuple(sorted(plain)): F1})
        return r

    def ppow(self, n, k):
        """n**k as a polynomial; negative powers of sums stay symbols"""
        if k == 0:
            return {(): F1}
        if n.kind == 'const':
            return {(): n.data ** k}
        if n.id in self.opaque:
            return {((n.id, k),): F1}
        if k > 0:
            p = self.poly(n)
            r = p
            for _ in range(k - 1):
                r = self.pmul(r, p)
            return r
        c, fs = T._split(n)
        r = {(): c ** k}
        for f, e in fs:
            e2 = e * k
            if f.id in self.opaque:
                r = self.pmul(r, {((f.id, e2),): F1})
            elif e2 > 0:
                r = self.pmul(r, self.ppow(f, e2))
            elif f.kind == 'atom' and f.fn in ('sqrt', 'abs'):
                r = self.pmul(r, self.reduce(((f.id, e2),)))
            else:
                r = self.pmul(r, {((f.id, e2),): F1})
        return r

    def poly(self, n):
        p = self.memo.get(n.id)
        if p is not None:
            return p
        if n.kind == 'const':
            p = {(): n.data} if n.data else {}
        elif n.id in self.opaque:
            p = {((n.id, 1),): F1}
        elif n.kind == 'sum':
            p = {(): n.data} if n.data else {}
            for t, q in n.args:
                p = self.padd(p, self.poly(t), q)
                if len(p) > self.limit:
                    raise TooBig()
        elif n.kind == 'prod':
            p = {(): F1}
            for f, e in n.args:
                p = self.pmul(p, self.ppow(f, e))
        else:
            p = {((n.id, 1),): F1}
        self.memo[n.id] = p
        return p

    def numerator(self, n):
        """polynomial P such that n == 0 iff P == 0 wherever n is defined; P has no negative powers"""
        p = self.poly(n)
        for _ in range(40):
            neg = {}
            for m in p:
                for s, e in m:
                    if e < 0:
                        neg[s] = min(neg.get(s, 0), e)
            if not neg:
                return p
            s = max(neg)        # outermost denominators first
            k = -neg[s]
            node = T.E.nodes[s]
            out = {}
            powers = {0: {(): F1}}
            groups = {}
            for m, c in p.items():
                d = dict(m)
                e = d.pop(s, 0) + k
                groups.setdefault(e, {})[tuple(sorted(d.items()))] = c
            for e, g in sorted(groups.items()):
                if node.kind == 'sum' and s not in self.opaque:
                    f = self.ppow(node, e)
                    out = self.padd(out, self.pmul(g, f))
                else:
                    out = self.padd(out, self.pmul(g, self.reduce(((s, e),)) if self.reducible(s, e) else ({((s, e),): F1} if e else {(): F1})))
            p = out
        raise TooBig()


class Prover:
    def __init__(self, timeout=10.0):
        self.timeout = timeout
        self.small_limit = None
        self.sweep_timeout = 1.0
        self.assume = []            # SymBools (global assumptions + path condition)
        self.z3_assume_cache = {}
        self.cache = {}
        self.stats = dict(queries=0, unsat=0, sat=0, unknown=0, solver_s=0.0, raw=0, normalised=0, sweeps=0, splits=0, max_query_s=0.0)
        self.P = Poly()
        self.bounds = {}
        self.extra_axioms = {}      # node id -> list of SymBool lemmas to add when the node is in the cone
        self.last_model = None
        self._closed = {}
        self.nf = []

    # ---------------------------------------------------------------- z3 translation
    def z(self, n):
        """z3 term of a node (iterative)"""
        if n.z is not None:
            return n.z
        st = [n]
        while st:
            x = st[-1]
            if x.z is not None:
                st.pop()
                continue
            if x.kind in ('sum', 'prod'):
                kids = [a for a, _ in x.args]
            elif x.kind == 'ite':
                kids = list(x.args) + self._bnodes(x.fn)
            else:
                kids = []
            miss = [k for k in kids if k.z is None]
            if miss:
                st.extend(miss)
                continue
            st.pop()
            if x.kind == 'const':
                x.z = z3.RealVal(str(x.data))
            elif x.kind == 'var':
                x.z = z3.Real(x.fn)
            elif x.kind == 'atom':
                x.z = z3.Real('%s#%d' % (x.fn, x.id))
            elif x.kind == 'ite':
                x.z = z3.If(self.zb(x.fn), x.args[0].z, x.args[1].z)
            elif x.kind == 'sum':
                ts = [] if x.data == 0 else [z3.RealVal(str(x.data))]
                for t, q in x.args:
                    ts.append(t.z if q == 1 else z3.RealVal(str(q)) * t.z)
                x.z = z3.Sum(ts) if len(ts) > 1 else ts[0]
            else:
                fs = []
                for f, e in x.args:
                    b = f.z if e > 0 else self.inv(f)
                    fs.extend([b] * abs(e))
                x.z = z3.Product(fs) if len(fs) > 1 else fs[0]
        return n.z

    def inv(self, f):
        return z3.Real('inv#%d' % f.id)

    def _bnodes(self, b):
        out = []
        st = [b]
        while st:
            x = st.pop()
            if isinstance(x, SymBool):
                if x.op != 'const':
                    st.extend(x.args)
            else:
                out.append(x)
        return out

    def zb(self, b):
        if b.op == 'const':
            return z3.BoolVal(b.args[0])
        if b.op == '<':
            return self.z(b.args[0]) < 0
        if b.op == '<=':
            return self.z(b.args[0]) <= 0
        if b.op == '==':
            return self.z(b.args[0]) == 0
        if b.op == 'not':
            return z3.Not(self.zb(b.args[0]))
        f = z3.And if b.op == 'and' else z3.Or
        return f(*[self.zb(a) for a in b.args])

    # ---------------------------------------------------------------- intervals (only used to add true facts)
    def interval(self, n, depth=60):
        r = self.bounds.get(n.id)
        if r is None:
            r = self._interval(n, depth)
            self.bounds[n.id] = r
        return r

    def _interval(self, n, depth):
        inf = math.inf
        if n.kind == 'const':
            v = float(n.data)
            return (_dn(v), _up(v))
        if n.kind == 'var':
            if n.fn == 'pi':
                return (3.14159265, 3.14159266)
            i = n.info if isinstance(n.info, dict) else {}
            lo, hi = i.get('lo'), i.get('hi')
            return (-inf if lo is None else _dn(float(lo)), inf if hi is None else _up(float(hi)))
        if depth == 0:
            return (-inf, inf)
        if n.kind == 'ite':
            a, b = self.interval(n.args[0], depth - 1), self.interval(n.args[1], depth - 1)
            return (min(a[0], b[0]), max(a[1], b[1]))
        if n.kind == 'sum':
            lo = hi = float(n.data)
            for t, q in n.args:
                a, b = self.interval(t, depth - 1)
                q = float(q)
                if q < 0:
                    a, b = b, a
                lo += q * a
                hi += q * b
                if lo != lo:
                    lo = -inf
                if hi != hi:
                    hi = inf
                lo, hi = _dn(lo), _up(hi)
            return (lo, hi)
        if n.kind == 'prod':
            r = (1.0, 1.0)
            for f, e in n.args:
                a, b = self.interval(f, depth - 1)
                if e < 0:
                    if a > 0 or b < 0:
                        a, b = _dn(1 / b) if math.isfinite(b) else (0.0 if b > 0 else 0.0), _up(1 / a) if math.isfinite(a) else 0.0
                    else:
                        return (-inf, inf)
                p = (a, b)
                if abs(e) % 2 == 0:
                    m = max(abs(a), abs(b))
                    l = 0.0 if a <= 0 <= b else min(abs(a), abs(b))
                    p = (_dn(l ** abs(e)) if l else 0.0, _up(m ** abs(e)))
                elif abs(e) > 1:
                    p = (_dn(a ** abs(e)), _up(b ** abs(e)))
                c = [x * y if (x and y) else 0.0 for x in r for y in p]
                r = (_dn(min(c)), _up(max(c)))
            return r
        fn = n.fn
        if fn == 'sqrt':
            a, b = self.interval(n.args[0], depth - 1)
            return (_dn(math.sqrt(a)) if a > 0 else 0.0, _up(math.sqrt(b)) if 0 <= b < inf else inf)
        if fn == 'abs':
            a, b = self.interval(n.args[0], depth - 1)
            return (0.0 if a <= 0 <= b else min(abs(a), abs(b)), max(abs(a), abs(b)))
        if fn in ('cos', 'sin'):
            a, b = self.interval(n.args[0], depth - 1)
            lo, hi = -1.0, 1.0
            if b - a < 6.2:
                sh = 0.0 if fn == 'cos' else math.pi / 2
                # extrema of cos(x - sh) at sh + k pi
                k0, k1 = math.ceil((a - sh) / math.pi - 1e-9), math.floor((b - sh) / math.pi + 1e-9)
                vals = [math.cos(a - sh), math.cos(b - sh)]
                for k in range(k0, k1 + 1):
                    vals.append(1.0 if k % 2 == 0 else -1.0)
                lo, hi = max(-1.0, min(vals) - 1e-12), min(1.0, max(vals) + 1e-12)
            return (lo, hi)
        if fn == 'arccos':
            return (0.0, 3.14159266)
        if fn == 'arctan':
            a, b = self.interval(n.args[0], depth - 1)
            return (_dn(math.atan(a)) - 1e-15, _up(math.atan(b)) + 1e-15)
        if fn == 'arctan2':
            (a, b), (c, d) = [self.interval(x, depth - 1) for x in n.args]
            if c > 0:
                q = [y / x for y in (a, b) for x in (c, d)]
                if all(v == v for v in q):
                    return (_dn(math.atan(_dn(min(q)))) - 1e-15, _up(math.atan(_up(max(q)))) + 1e-15)
            return (-3.14159266, 3.14159266)
        if fn == 'exp':
            a, b = self.interval(n.args[0], depth - 1)
            try:
                return (max(0.0, math.exp(a) * (1 - 1e-12)), math.exp(b) * (1 + 1e-12))
            except OverflowError:
                return (0.0, inf)
        if fn == 'tanh':
            return (-1.0, 1.0)
        return (-inf, inf)

    # ---------------------------------------------------------------- axioms
    def axioms(self, roots, light=False):
        """facts about every atom, bounded variable and division reachable from roots"""
        out = []
        seen = set()
        st = list(roots)
        nodes = 0
        while st:
            x = st.pop()
            if isinstance(x, SymBool):
                st.extend(a for a in x.args if isinstance(a, (Node, SymBool)))
                continue
            if x.id in seen:
                continue
            seen.add(x.id)
            nodes += 1
            for b in self.extra_axioms.get(x.id, ()):
                out.append(self.zb(b))
                st.append(b)
            if x.kind == 'var':
                if x.fn == 'pi':
                    out.append(z3.And(self.z(x) > z3.RealVal('3.14159265'), self.z(x) < z3.RealVal('3.14159266')))
                elif isinstance(x.info, dict):
                    i = x.info
                    if i.get('lo') is not None:
                        out.append(self.z(x) > z3.RealVal(str(i['lo'])) if i.get('slo') else self.z(x) >= z3.RealVal(str(i['lo'])))
                    if i.get('hi') is not None:
                        out.append(self.z(x) < z3.RealVal(str(i['hi'])) if i.get('shi') else self.z(x) <= z3.RealVal(str(i['hi'])))
            elif x.kind == 'sum':
                st.extend(a for a, _ in x.args)
            elif x.kind == 'prod':
                for f, e in x.args:
                    st.append(f)
                    if e < 0:
                        out.append(self.z(f) * self.inv(f) == 1)
                        a, b = self.interval(f)
                        if a > 0:
                            out.append(self.inv(f) > 0)
                        elif b < 0:
                            out.append(self.inv(f) < 0)
            elif x.kind == 'ite':
                st.append(x.fn)
                st.extend(x.args)
            elif x.kind == 'atom':
                v = self.z(x)
                if x.fn == 'sqrt' and light and self.closed(x):
                    pass                # a constant: its numerical bounds below are enough most of the time
                elif x.fn == 'sqrt':
                    out += [v >= 0, v * v == self.z(x.args[0])]
                    st.extend(x.args)
                elif x.fn == 'abs':
                    e = self.z(x.args[0])
                    out += [v >= 0, v == z3.If(e >= 0, e, -e)]
                    st.extend(x.args)
                elif x.fn in ('cos', 'sin') and light and self.closed(x):
                    pass
                elif x.fn in ('cos', 'sin'):
                    o = x.info[1]
                    out.append(v * v + self.z(o) * self.z(o) == 1)
                    st.append(o)
                elif x.fn == 'arccos':
                    out += [v >= 0, v < z3.RealVal('3.14159266')]
                elif x.fn == 'arctan':
                    e = self.z(x.args[0])
                    out += [z3.Implies(e > 0, v > 0), z3.Implies(e < 0, v < 0), z3.Implies(e == 0, v == 0)]
                    st.extend(x.args)
                elif x.fn == 'exp':
                    e = self.z(x.args[0])
                    out += [v > 0, z3.Implies(e <= 0, v <= 1), z3.Implies(e >= 0, v >= 1), v >= 1 + e]
                    st.extend(x.args)
                elif x.fn == 'tanh':
                    e = self.z(x.args[0])
                    out += [v < 1, v > -1, z3.Implies(e >= 0, z3.And(v >= 0, v <= e)), z3.Implies(e <= 0, z3.And(v <= 0, v >= e))]
                    st.extend(x.args)
                a, b = self.interval(x)
                if x.fn in ('cos', 'sin', 'arccos', 'arctan', 'exp', 'sqrt', 'arctan2'):
                    if a > -math.inf:
                        out.append(v >= z3.RealVal(repr(_dn(a))))
                    if b < math.inf:
                        out.append(v <= z3.RealVal(repr(_up(b))))
        return out, nodes

    def closed(self, n):
        r = self._closed.get(n.id)
        if r is None:
            r = self._closed[n.id] = not any(x.kind == 'var' and x.fn != 'pi' for x in T.walk([n]).values())
        return r

    def ask(self, fs, roots, timeout, tactic=None):
        """check fs + axioms(roots); constants such as sqrt(2) first by their bounds only"""
        if any(n.kind == 'atom' and n.fn in ('sqrt', 'cos', 'sin') and self.closed(n) for n in T.walk(roots).values()):
            r = self.check(fs + self.axioms(roots, True)[0], timeout, tactic)
            if r == z3.unsat:
                return r
        return self.check(fs + self.axioms(roots)[0], timeout, tactic)

    # ---------------------------------------------------------------- queries
    def check(self, fs, timeout, tactic=None):
        s = z3.Solver() if tactic is None else z3.Tactic(tactic).solver()
        s.set('timeout', max(1, int(timeout * 1000)))
        for f in fs:
            s.add(f)
        t = time.time()
        try:
            r = s.check()
        except z3.Z3Exception:
            r = z3.unknown
        dt = time.time() - t
        st = self.stats
        st['queries'] += 1
        st['solver_s'] += dt
        st['max_query_s'] = max(st['max_query_s'], dt)
        st[str(r)] += 1
        if r == z3.sat:
            self.last_model = s.model()
        return r

    def nonzero_query(self, p):
        """z3 formula  p != 0  for a polynomial dict"""
        ts = []
        for m, c in p.items():
            fs = []
            for s, e in m:
                fs.extend([self.z(T.E.nodes[s])] * e)
            t = z3.RealVal(str(c))
            ts.append(z3.Product([t] + fs) if fs else t)
        return (z3.Sum(ts) if ts else z3.RealVal(0)) != 0

    def abstract_query(self, d, opq, to):
        """ask z3 for d != 0 with the sums in opq as free unknowns"""
        memo = {i: z3.Real('sum#%d' % i) for i in opq}
        P = Poly(self.P.limit)
        P.opaque = opq
        try:
            p = P.poly(d)
            if p:
                p = P.numerator(d)
        except TooBig:
            return z3.unknown
        ts = []
        for m, c in p.items():
            fs = []
            for s, e in m:
                fs.extend([memo[s] if s in memo else self.z(T.E.nodes[s])] * e)
            ts.append(z3.Product([z3.RealVal(str(c))] + fs) if fs else z3.RealVal(str(c)))
        return self.check([(z3.Sum(ts) if ts else z3.RealVal(0)) != 0], to)

    def relevant(self, roots):
        """assumptions connected to the roots (through shared variables / atoms)"""
        def leafs(r):
            return {i for i, n in T.walk([r]).items() if n.kind in ('var', 'atom') and n.fn != 'pi'}
        cur = set()
        for r in roots:
            cur |= leafs(r)
        todo = []
        for b in self.assume:
            l = self._lf.get(b.key) if hasattr(self, '_lf') else None
            if l is None:
                if not hasattr(self, '_lf'):
                    self._lf = {}
                l = self._lf[b.key] = leafs(b)
            todo.append((b, l))
        out = []
        changed = True
        while changed:
            changed = False
            rest = []
            for b, l in todo:
                if l & cur or not l:
                    out.append(b)
                    cur |= l
                    changed = True
                else:
                    rest.append((b, l))
            todo = rest
        return out

    def equal(self, x, y, sweep=False):
        if x is y:
            return True
        d = x - y
        if d.kind == 'const':
            return d.data == 0
        if sweep and not all(s != s or a != a or abs(s) <= 1e-7 * (abs(a) + abs(b)) + 1e-12 for s, a, b in zip(d.sh, x.sh, y.sh)):
            return False
        key = ('eq', d.id)
        if sweep and key in self.cache:
            return self.cache[key]
        if sweep:
            self.stats['sweeps'] += 1
            r = self._eq_nf(d)
            self.cache[key] = r
            return r
        return self.valid(T.cmp('==', d))

    def opaque_set(self, d, depth):
        """sums nested more than `depth` deep in d (they become symbols)"""
        level = {d.id: 0}
        st = [d]
        while st:
            x = st.pop(0)
            l = level[x.id]
            kids = []
            if x.kind in ('sum', 'prod'):
                kids = [a for a, _ in x.args]
            elif x.kind == 'atom' and x.fn in ('sqrt', 'abs'):
                kids = list(x.args)
            for k in kids:
                kl = l + 1 if k.kind == 'sum' else l
                if k.id not in level or level[k.id] > kl:
                    level[k.id] = kl
                    st.append(k)
        return frozenset(i for i, l in level.items() if l > depth and T.E.nodes[i].kind == 'sum'), max(level.values())

    def lazy(self, d, limit=3000):
        """is d identically 0 already when its deeper sums are read as unknowns?  returns the set of sums kept as unknowns"""
        for depth in (1, 2, 3, 4, 6):
            opq, top = self.opaque_set(d, depth)
            if not opq and depth > 1:
                return None
            P = Poly(min(limit, self.P.limit))
            P.opaque = opq
            try:
                p = P.poly(d)
                if p:
                    p = P.numerator(d)
                if not p:
                    return opq
            except TooBig:
                pass
        return None

    def _eq_nf(self, d):
        opq = self.lazy(d)
        if opq is not None:
            self.nf.append((d, opq))
            return True
        try:
            P = self.P
            if self.small_limit:
                P = Poly(self.small_limit)
            p = P.numerator(d)
        except TooBig:
            return False
        if not p:
            self.nf.append((d, frozenset()))
        return not p

    # ---------------------------------------------------------------- solver confirmation of the normaliser's merges
    def ratio(self, n, opq, memo, used):
        """(numerator, {denominator factor: exponent}) of a node as z3 terms, written as the code computed it (nothing expanded)"""
        if n.id in memo:
            return memo[n.id]
        if n.id in opq:
            r = (z3.Real('sum#%d' % n.id), {})
        elif n.kind == 'const':
            r = (z3.RealVal(str(n.data)), {})
        elif n.kind == 'sum':
            parts = [(q, self.ratio(t, opq, memo, used)) for t, q in n.args]
            lcm = {}
            for _, (_, den) in parts:
                for k, e in den.items():
                    lcm[k] = max(lcm.get(k, 0), e)
            def full(num, den, q=None):
                fs = [] if q is None or q == 1 else [z3.RealVal(str(q))]
                fs.append(num)
                for k, e in lcm.items():
                    fs.extend([self._den[k]] * (e - den.get(k, 0)))
                return z3.Product(fs) if len(fs) > 1 else fs[0]
            ts = [full(num, den, q) for q, (num, den) in parts]
            if n.data != 0:
                ts.append(full(z3.RealVal(str(n.data)), {}))
            r = (z3.Sum(ts) if len(ts) > 1 else ts[0], lcm)
        elif n.kind == 'prod':
            num, den = [], {}
            for f, e in n.args:
                fn, fd = self.ratio(f, opq, memo, used)
                if e > 0:
                    num.extend([fn] * e)
                    for k, x in fd.items():
                        den[k] = den.get(k, 0) + x * e
                else:
                    self._den[f.id] = fn
                    den[f.id] = den.get(f.id, 0) - e
                    for k, x in fd.items():
                        num.extend([self._den[k]] * (-e * x))
            r = (z3.Product(num) if len(num) > 1 else (num[0] if num else z3.RealVal(1)), den)
        else:
            used[n.id] = n
            r = (self.z(n), {})
        memo[n.id] = r
        return r

    def confirm(self, budget, each=0.5):
        """hands every equality the normaliser used to z3: returns (confirmed, refuted, unknown, not asked)"""
        t0 = time.time()
        yes = no = unk = 0
        todo = {}
        for d, opq in self.nf:
            todo.setdefault(d.id, (d, opq))
        todo = sorted(todo.values(), key=lambda t: t[0].id)
        for i, (d, opq) in enumerate(todo):
            if time.time() - t0 > budget:
                return yes, no, unk, len(todo) - i
            self._den = {}
            memo, used, ax, done = {}, {}, [], set()
            try:
                num, _ = self.ratio(d, opq, memo, used)
                while set(used) - done:
                    k = min(set(used) - done)
                    done.add(k)
                    n = used[k]
                    if n.kind == 'atom' and n.fn == 'sqrt':
                        an, ad = self.ratio(n.args[0], opq, memo, used)
                        fs = [n.z, n.z] + [self._den[q] for q, e in ad.items() for _ in range(e)]
                        ax.append(z3.Product(fs) == an)
                    elif n.kind == 'atom' and n.fn == 'abs':
                        an, ad = self.ratio(n.args[0], opq, memo, used)
                        ds = [self._den[q] for q, e in ad.items() for _ in range(2 * e)]
                        ax.append(z3.Product([n.z, n.z] + ds) == an * an)
                    elif n.kind == 'atom' and n.fn in ('cos', 'sin'):
                        m = n.info[1] if n.info and len(n.info) > 1 else None
                        if m is not None and m.id not in done:
                            ax.append(self.z(n) * self.z(n) + self.z(m) * self.z(m) == 1)
                            done.add(m.id)
                        elif m is not None:
                            ax.append(self.z(n) * self.z(n) + self.z(m) * self.z(m) == 1)
                    if len(memo) > 4000:
                        raise TooBig()
                r = self.check([num != 0] + ax, each)
                if r != z3.unsat:
                    r = self.check([num != 0] + ax + [f != 0 for f in self._den.values()], each)
                if r == z3.sat and os.environ.get('VSE_DEBUG'):
                    print('REJECTED', str(d)[:300], len(opq), ax, self._den)
            except (TooBig, RecursionError, z3.Z3Exception):
                r = z3.unknown
            if r == z3.unsat:
                yes += 1
            elif r == z3.sat:
                no += 1
            else:
                unk += 1
        return yes, no, unk, 0

    def confirm_steps(self, budget, size=300):
        """hands the arithmetic of term construction (flattening of sums, collecting of factors) to z3, subterms opaque:
        every step an identity over arbitrary reals, quotients cleared.  Returns (confirmed, rejected, not asked)"""
        t0 = time.time()
        V = {}
        rv = lambda q: z3.RealVal('%d/%d' % (q.numerator, q.denominator)) if q.denominator != 1 else z3.RealVal(q.numerator)

        def v(n):
            if n.id not in V:
                V[n.id] = z3.Real('n%d' % n.id)
            return V[n.id]

        def prod(fs):
            fs = [v(f) for f, e in fs for _ in range(abs(e))]
            return z3.Product(fs) if len(fs) > 1 else (fs[0] if fs else z3.RealVal(1))
        todo = list(T.E.steps.items())
        yes = no = 0
        for lo in range(0, len(todo), size):
            if time.time() - t0 > budget:
                return yes, no, len(todo) - lo
            fs = []
            for (op, _), (pairs, c, items) in todo[lo:lo + size]:
                if op == '+':
                    ls = []
                    for q, n in pairs:
                        k, ts = T._terms(n)
                        ls += [rv(q * k)] + [rv(q * tc) * v(t) for t, tc in ts]
                    rs = [rv(c)] + [rv(q) * v(t) for t, q in items]
                    fs.append(z3.Sum(ls) != z3.Sum(rs))
                else:
                    q, fa = T.F1, []
                    for n, e in pairs:
                        if e == 0:
                            continue
                        k, f = T._split(n)
                        q *= k ** e
                        fa += [(g, ge * e) for g, ge in f]
                    if sum(abs(e) for _, e in fa) > 40:
                        continue
                    l = [f for f in fa if f[1] > 0] + [f for f in items if f[1] < 0]
                    r = [f for f in items if f[1] > 0] + [f for f in fa if f[1] < 0]
                    fs.append(rv(q) * prod(l) != rv(c) * prod(r))
            if not fs:
                continue
            r = self.check([z3.Or(*fs)], 10)
            if r == z3.unsat:
                yes += len(fs)
            elif r == z3.sat:
                no += 1
        return yes, no, 0

    def valid(self, b, sweep=False, split=6):
        """True / False(sat) / None(unknown)"""
        if b.op == 'const':
            if b.args[0]:
                return True
            r = self.check([self.zb(a) for a in self.assume] + self.axioms(self.assume)[0], self.timeout)
            return True if r == z3.unsat else (False if r == z3.sat else None)
        key = (b.key, len(self.assume), sweep)
        k2 = (b.key, tuple(a.key for a in self.assume), sweep)
        if k2 in self.cache:
            return self.cache[k2]
        r = True if self._assumed(b) else self._valid(b, sweep, split)
        self.cache[k2] = r
        return r

    def _assumed(self, b):
        """b is one of the assumptions, or the weak form of one"""
        keys = {b.key}
        if b.op == '<=':
            keys.add(('<',) + b.key[1:])
        todo = list(self.assume)
        while todo:
            a = todo.pop()
            if a.key in keys:
                return True
            if a.op == 'and':
                todo += a.args
        return False

    def _valid(self, b, sweep, split):
        to = self.sweep_timeout if sweep else self.timeout
        neg = z3.Not(self.zb(b))
        nodes = T.walk([b])
        small = len(nodes) < 1500
        r = z3.unknown
        self.last_model = None
        if b.op == '==' :
            d = b.args[0]
            # 1. raw goal, atoms opaque: z3's own arithmetic normaliser
            if small:
                ax = [self.z(f) * self.inv(f) == 1 for n in nodes.values() if n.kind == 'prod' for f, e in n.args if e < 0]
                if not ax:
                    r = self.check([neg], min(to, 1.0), 'qfnra-nlsat' if False else None)
                    if r == z3.unsat:
                        self.stats['raw'] += 1
                        return True
            opq = self.lazy(d)
            if opq is None and not sweep:
                opq = self.lazy(d, 40000)
            if opq is not None and self.abstract_query(d, opq, to) == z3.unsat:
                self.stats['raw'] += 1
                return True
            # 2. clear denominators and reduce roots / sin^2, then ask z3
            try:
                p = self.P.numerator(d)
                if len(p) <= 4000:
                    if not p:
                        r = self.check([self.nonzero_query(p)], to)
                        if r == z3.unsat:
                            self.stats['normalised'] += 1
                            return True
                    rel = self.relevant([b])
                    syms = [T.E.nodes[s] for m in p for s, _ in m]
                    r = self.ask([self.nonzero_query(p)] + [self.zb(a) for a in rel], syms + rel, to)
                    if r == z3.unsat:
                        self.stats['normalised'] += 1
                        return True
            except TooBig:
                pass
        else:
            rel = self.relevant([b])
            fs = [neg] + [self.zb(a) for a in rel]
            r = self.ask(fs, [b] + rel, to)
            if r == z3.unsat:
                self.stats['raw'] += 1
                return True
            if r == z3.unknown and not sweep:
                r = self.ask(fs, [b] + rel, to, 'qfnra-nlsat')
                if r == z3.unsat:
                    self.stats['raw'] += 1
                    return True
        # 3. case split on conditionals / absolute values
        if split and not sweep:
            c = self._pick_case(nodes)
            if c is not None:
                self.stats['splits'] += 1
                model = self.last_model
                ok = True
                for pol in (True, False):
                    cond = c if pol else T.bnot(c)
                    save = list(self.assume)
                    self.assume.append(cond)
                    try:
                        if not self.feasible():
                            continue
                        try:
                            g = subst_case(b, c, pol)
                        except ZeroDivisionError:       # the goal has no value in this case
                            return None
                        r = self.valid(g, split=split - 1)
                    finally:
                        self.assume = save
                    if r is not True:
                        ok = r
                        break
                return ok
        return False if r == z3.sat else None

    def _pick_case(self, nodes):
        best = None
        for n in nodes.values():
            if n.kind == 'ite':
                c = n.fn
            elif n.kind == 'atom' and n.fn == 'abs':
                c = T.cmp('<=', -n.args[0])
            else:
                continue
            if c.op == 'const':
                continue
            if c.op in ('and', 'or'):
                c = c.args[0]
            size = len(T.walk([c]))
            if best is None or size < best[0]:
                best = (size, c)
        return best[1] if best else None

    def feasible(self, extra=()):
        fs = list(self.assume) + list(extra)
        if not fs:
            return True
        rel = self.relevant(list(extra)) if extra else self.assume
        r = self.ask([self.zb(a) for a in list(rel) + list(extra)], list(rel) + list(extra), self.sweep_timeout)
        return r != z3.unsat


def _dn(x):
    return math.nextafter(x, -math.inf) if math.isfinite(x) else x


def _up(x):
    return math.nextafter(x, math.inf) if math.isfinite(x) else x


def subst_case(b, c, pol):
    """rewrite b under the assumption that c has truth value pol"""
    nc = T.bnot(c)
    memo = {}

    def sb(x):
        if x.op == 'const':
            return x
        if x.key == c.key:
            return T.TRUE if pol else T.FALSE
        if x.key == nc.key:
            return T.FALSE if pol else T.TRUE
        if x.op in ('<', '<=', '=='):
            return T.cmp(x.op, sn(x.args[0]))
        if x.op == 'not':
            return T.bnot(sb(x.args[0]))
        return (T.band if x.op == 'and' else T.bor)(sb(x.args[0]), sb(x.args[1]))

    def sn(n):
        st = [n]
        while st:
            x = st[-1]
            if x.id in memo:
                st.pop()
                continue
            if x.kind in ('const', 'var'):
                memo[x.id] = x
                st.pop()
                continue
            kids = [a for a, _ in x.args] if x.kind in ('sum', 'prod') else list(x.args)
            miss = [k for k in kids if k.id not in memo]
            if miss:
                st.extend(miss)
                continue
            st.pop()
            if x.kind == 'sum':
                r = T.add([(x.data, T.const(1))] + [(q, memo[a.id]) for a, q in x.args])
            elif x.kind == 'prod':
                r = T.mul([(memo[a.id], e) for a, e in x.args])
            elif x.kind == 'ite':
                r = T.ite(sb(x.fn), memo[x.args[0].id], memo[x.args[1].id])
            else:
                args = tuple(memo[a.id] for a in x.args)
                if x.fn == 'abs':
                    cc = T.cmp('<=', -x.args[0])
                    if cc.key == c.key:
                        r = args[0] if pol else -args[0]
                    else:
                        r = T.absolute(args[0])
                elif all(a is o for a, o in zip(args, x.args)):
                    r = x
                elif x.fn == 'sqrt':
                    r = T.sqrt(args[0])
                elif x.fn == 'cos':
                    r = T.cos(args[0])
                elif x.fn == 'sin':
                    r = T.sin(args[0])
                elif x.fn == 'arctan':
                    r = T.arctan(args[0])
                elif x.fn == 'arctan2':
                    r = T.arctan2(*args)
                else:
                    r = T.atom(x.fn, args)
            memo[x.id] = r
        return memo[n.id]

    return sb(b)
