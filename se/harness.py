"""Runs one harness symbolically (all paths, obligations decided by the prover) or concretely (replay on the real code)."""
import copy
import json
import math
import os
import random
import shutil
import sys
import tempfile
import time
import traceback
import numpy as np
from fractions import Fraction

NS = None


class PathInfeasible(Exception):
    pass


class OutOfBudget(Exception):
    pass


class Assumed(Exception):
    """concrete values outside the harness's assumptions"""


class Solve:
    def __init__(self, A, b, x):
        self.A, self.b, self.x = A, b, x


def _iter(a, b):
    a = np.asarray(a, dtype=object) if not isinstance(a, np.ndarray) else a
    b = np.asarray(b, dtype=object) if not isinstance(b, np.ndarray) else b
    return a, b


# ------------------------------------------------------------------------------------------------ concrete mode
class CEnv:
    symbolic = False

    def __init__(self, values, tmp, seed=0):
        from . import loader
        self.values, self.tmp = values, tmp
        self.fails = []
        self.trace = []          # (label, lhs values, rhs values)
        self.solves = []
        self.used = {}
        self.np = np
        self.rng = random.Random(seed)
        self.pi = math.pi
        np.seterr(all='ignore')
        self.m = loader.load(False)
        env = self
        real = np.linalg.solve

        def rec(A, b, *a, **k):
            x = real(A, b, *a, **k)
            env.solves.append(Solve(np.array(A), np.array(b), np.array(x)))
            return x
        self._real_solve = real
        np.linalg.solve = rec

    def close(self):
        np.linalg.solve = self._real_solve

    # inputs
    def real(self, name, lo=-2, hi=2, slo=False, shi=False, near=None):
        if name in self.used:           # declared before: the first range counts, as in the symbolic run
            return self.used[name]
        v = float(self.values[name]) if name in self.values else self.rng.uniform(lo, hi)
        self.used[name] = v
        if not (lo <= v <= hi):
            raise Assumed(name)
        return v

    def assume(self, c):
        if not bool(np.all(c)):
            raise Assumed('assume')

    def hint_scale(self, *a): pass
    def hint_factor(self, *a): pass
    def hint_root(self, *a): pass
    def hint_solve_scale(self, *a): pass
    def hint_solution(self, *a): pass
    def hint_zero(self, *a): pass
    def expand_atan2(self): pass
    def thin(self, step): pass
    def branch_interp(self): pass
    def branch_where(self): pass

    def digits(self, prefix, *d):
        """name that ends in the given digits"""
        return prefix + ''.join(str(int(x)) for x in d)

    def digit(self, name, lo=0, hi=9):
        return float(round(self.real(name, lo, hi)))
    def hint_perm(self, *a, **k): pass
    def cut(self, x, name=None, keep=None): return x
    def generic(self, name, f): return f
    def cut_all(self, x, name=None): return x

    def ufun(self, name, f):
        return f

    def lemma(self, cond, label='lemma'):
        pass

    # functions for specs
    def sqrt(self, x): return np.sqrt(x)
    def cos(self, x): return np.cos(x)
    def sin(self, x): return np.sin(x)
    def tan(self, x): return np.tan(x)
    def atan(self, x): return np.arctan(x)
    def atan2(self, y, x): return np.arctan2(y, x)
    def acos(self, x): return np.arccos(x)
    def exp(self, x): return np.exp(x)
    def log(self, x): return np.log(x)
    def rad(self, x): return np.radians(x)
    def deg(self, x): return np.degrees(x)
    def abs(self, x): return abs(x)
    def ite(self, c, a, b): return np.where(c, a, b) if isinstance(c, np.ndarray) and c.shape else (a if c else b)
    def And(self, *a):
        r = True
        for x in a:
            r = r & bool(x)
        return r
    def Or(self, *a):
        r = False
        for x in a:
            r = r | bool(x)
        return r
    def Not(self, a): return not a
    def implies(self, a, b): return (not a) or bool(b)
    def rat(self, p, q=1): return p / q

    def array(self, x): return np.array(x, dtype=float)

    # obligations
    def eq(self, label, a, b, scale=None, tol=1e-6):
        try:
            av, bv = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        except (TypeError, ValueError):
            if not _same(a, b):
                self.fails.append((label, 'got %r, expected %r' % (a, b)))
            return
        if av.shape != bv.shape:
            try:
                av, bv = np.broadcast_arrays(av, bv)
            except ValueError:
                self.fails.append((label, 'shape %s != %s' % (av.shape, bv.shape)))
                return
        self.trace.append((label, av, bv))
        if av.size == 0:
            return
        with np.errstate(all='ignore'):
            fin = np.abs(bv[np.isfinite(bv)])
            sc = max(float(np.max(fin)) if fin.size else 1.0, 1e-3 * (scale if scale is not None else 0.0))
            if scale is not None:
                sc = max(sc, scale)
            # where the specified value itself is not defined there is nothing to compare (definedness has its own checks)
            bad = ~(np.abs(av - bv) <= tol * sc + 1e-12) & np.isfinite(bv)
        if bad.any():
            i = tuple(np.argwhere(bad)[0])
            self.fails.append((label, 'at %s: got %.12g, expected %.12g' % (list(map(int, i)), av[i], bv[i])))

    def check(self, label, c, slack=None):
        if not bool(np.all(c)):
            self.fails.append((label, 'condition is false'))

    def le(self, label, a, b, tol=1e-9):
        av, bv = np.broadcast_arrays(np.asarray(a, dtype=float), np.asarray(b, dtype=float))
        bad = ~(av <= bv + tol * (np.abs(av) + np.abs(bv)) + 1e-12)
        if bad.any():
            i = tuple(np.argwhere(bad)[0])
            self.fails.append((label, 'at %s: %.12g > %.12g' % (list(map(int, i)), av[i], bv[i])))

    def lt(self, label, a, b):
        av, bv = np.broadcast_arrays(np.asarray(a, dtype=float), np.asarray(b, dtype=float))
        bad = ~(av < bv)
        if bad.any():
            i = tuple(np.argwhere(bad)[0])
            self.fails.append((label, 'at %s: %.12g >= %.12g' % (list(map(int, i)), av[i], bv[i])))

    def fail(self, label, msg=''):
        self.fails.append((label, msg))

    def row_solves(self, label, A, b, solve=None):
        """the unknowns of the linear system the code solved satisfy A x = b"""
        if not self.solves:
            return self.fail(label, 'no linear system was solved')
        s = solve or self.solves[-1]
        A, b, x = np.array(A, dtype=float), np.array(b, dtype=float), s.x
        if len(x) != len(b):
            return self.fail(label, '%d unknowns for %d equations' % (len(x), len(b)))
        if not (np.all(np.isfinite(A)) and np.all(np.isfinite(b))):
            return      # the equations themselves are not defined here
        r = np.abs(A @ x - b)
        bad = ~(r <= 1e-6 * (np.abs(A) @ np.abs(x) + np.abs(b)) + 1e-12)
        if bad.any():
            i = int(np.argwhere(bad)[0][0])
            self.fails.append((label, 'equation %d: residual %.6g with right-hand side %.6g' % (i, r[i], b[i])))

    # files
    def path(self, name): return os.path.join(self.tmp, name)

    def put_json(self, name, data):
        p = self.path(name)
        with open(p, 'w') as f:
            json.dump(data, f)
        return p

    def get_json(self, name):
        with open(self.path(name)) as f:
            return json.load(f)

    def put_table(self, name, rows):
        p = self.path(name)
        np.savetxt(p, np.array(rows, dtype=float), fmt='%.17g')
        return p

    def get_text(self, name):
        with open(self.path(name)) as f:
            return f.read()

    def exists(self, name): return os.path.exists(self.path(name))

    def table_rows(self, name):
        """numeric rows of a saved text table -> list of (word list)"""
        out = []
        for line in self.get_text(name).splitlines():
            if line.startswith('#') or not line.strip():
                continue
            w = line.split()
            row = []
            for x in w:
                try:
                    row.append(float(x))
                except ValueError:
                    row.append(x)
            out.append(row)
        return out

    def stl_triangles(self, name):
        from stl import mesh
        return np.array(mesh.Mesh.from_file(self.path(name)).vectors, dtype=float)


def _same(a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(_same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(_same(a[k], b[k]) for k in a)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        a, b = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
        return a.shape == b.shape and all(_same(x, y) for x, y in zip(a.flat, b.flat))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b or abs(a - b) <= 1e-6 * max(abs(a), abs(b)) + 1e-12
    return a == b


# ------------------------------------------------------------------------------------------------ symbolic mode
class Path:
    def __init__(self, forced, prover, env):
        self.forced, self.prover, self.env = forced, prover, env
        self.taken = []          # (bool, alternative feasible)
        self.known = {}

    def decide(self, b):
        from . import terms as T
        b = T.resolve(b)
        if b.op == 'const':
            return b.args[0]
        k = b.key
        nb = T.bnot(b)
        if k in self.known:
            return self.known[k]
        i = len(self.taken)
        if i < len(self.forced):
            v = self.forced[i]
            self.taken.append((v, False))
        else:
            self.env.budget()
            P = self.prover
            r = P.valid(b, sweep=True)
            if r is True:
                self.known[k] = True
                self.known[nb.key] = False
                self.taken.append((True, False))
                return True
            if P.valid(nb, sweep=True) is True:
                self.known[k] = False
                self.known[nb.key] = True
                self.taken.append((False, False))
                return False
            v = self.prefer(b)
            self.taken.append((v, True))
            if sum(1 for _, alt in self.taken if alt) > self.env.opts.get('max_depth', 40):
                raise OutOfBudget('path depth')
        self.known[k] = v
        self.known[nb.key] = not v
        P = self.prover
        P.assume.append(b if v else nb)
        return v

    def prefer(self, b):
        """branch taken by the first sample point that satisfies everything assumed so far"""
        sh = b.sh()
        for k in range(len(sh)):
            if all(_ok(a.sh()[k], a) for a in self.prover.assume):
                return bool(sh[k])
        return True



class SEnv:
    symbolic = True

    def __init__(self, name, forced, opts, deadline, seed):
        from . import terms as T, prove, facade, loader, vfs
        self.T, self.F = T, facade
        self.opts, self.deadline = opts, deadline
        e = T.Engine()
        T.set_engine(e)
        e.hints = []
        e.merge_sums = bool(opts.get('merge_sums', True))
        self.E = e
        self.P = prove.Prover(timeout=opts.get('timeout', 10.0))
        self.P.sweep_timeout = opts.get('sweep_timeout', 1.0)
        self.P.P.limit = opts.get('poly_limit', 60000)
        e.prover = self.P
        e.path = Path(forced, self.P, self)
        self.path_obj = e.path
        self.obl = []            # (label, SymBool or ('fail', msg))
        self.trace = []
        self.solves = []
        self.perms = []
        self.scales = []
        self.known = []
        self.zeros = []
        self.pairs = {}
        self.rngs = [random.Random('%s/%s/%d' % (seed, name, k)) for k in range(T.NSH)]
        self.inputs = {}
        self.np = facade.NP
        self.vfs = vfs.VFS()
        facade.hooks.vfs = self.vfs
        facade.hooks.solve = self._solve
        facade.hooks.stl = []
        facade.hooks.thin = facade.hooks.known = facade.hooks.root = None
        facade.hooks.branch_interp = False
        self.pi = T.pi()
        self.m = loader.load(True, self.vfs)
        self.ncut = 0
        self.abstract = False

    def close(self): pass

    def budget(self):
        if time.time() > self.deadline:
            raise OutOfBudget('time')

    def real(self, name, lo=-2, hi=2, slo=False, shi=False, near=None):
        if name in self.inputs:
            return self.inputs[name]
        a, b = near if near else (float(lo), float(hi))
        sh = []
        for r in self.rngs:
            q = Fraction(a) + (Fraction(b) - Fraction(a)) * Fraction(r.randint(60, 940), 1000)
            sh.append(round(float(q), 6))
        v = self.T.var(name, sh, dict(lo=self.T.rat(lo), hi=self.T.rat(hi), slo=slo, shi=shi))
        self.inputs[name] = v
        return v

    def assume(self, c):
        b = self.T.blift(c)
        if b.op == 'const':
            if not b.args[0]:
                raise PathInfeasible()
            return
        for x in (b.args if b.op == 'and' else [b]):
            if self.P._assumed(self.T.bnot(x)):
                raise PathInfeasible()
        self.P.assume.append(b)

    def hint_root(self, *h): self.E.roots.extend(self.T.lift(x) for x in h)
    def hint_factor(self, *h): self.E.factors.update({x.id: x for x in map(self.T.lift, h)})
    def hint_scale(self, *h): self.E.hints.extend(self.T.lift(x) for x in h)

    def hint_perm(self, perm, sign=1): self.perms.append((list(perm), sign))
    def hint_solve_scale(self, sa, sb): self.scales.append((self.T.lift(sa), self.T.lift(sb)))

    def hint_solution(self, p):
        """a nonsingular system provably solved by p has the solution p"""
        self.known.append([self.T.lift(v) for v in p])
        self.F.hooks.known = self._known

    def expand_atan2(self):
        """cosine and sine of arctan2(y, x), x provably positive, as quotients"""
        self.T.E.expand_atan2 = True

    def digits(self, prefix, *d):
        """name that ends in the given digits"""
        from .loader import Digits
        return Digits(prefix + '2412'[:len(d)], [None] * len(prefix) + [self.T.lift(x) for x in d])

    def digit(self, name, lo=0, hi=9):
        return self.real(name, lo, hi)

    def branch_interp(self):
        """numpy.interp: one path per interval instead of one expression for all"""
        self.F.hooks.branch_interp = True

    def branch_where(self):
        """numpy.where: one path per outcome instead of one expression for both"""
        self.F.hooks.branch_where = True

    def hint_zero(self, *x):
        """contract of a bracketing root search: a value provably inside the bracket where the function is provably zero"""
        self.zeros = [self.T.lift(v) for v in x]
        self.F.hooks.root = self._root

    def _root(self, f, a, b):
        T, a, b = self.T, self.T.lift(a), self.T.lift(b)
        for x in self.zeros:
            if all(u <= w <= v for u, w, v in zip(a.sh, x.sh, b.sh) if w == w):
                y = T.lift(f(x))
                if all(q != q or abs(q) < 1e-6 for q in y.sh) and self.P.equal(y, T.lift(0)) is True and self.P.valid(a <= x) is True and self.P.valid(x <= b) is True:
                    return x
        raise T.SymError('root search: no value known to be a root')

    def thin(self, step):
        """bound: of ranges with more than 50 entries the code sees every step-th"""
        self.F.hooks.thin = slice(None, None, step)

    def _known(self, A, b):
        T = self.T
        for p in self.known:
            if len(p) != len(b):
                continue
            rows = [(T.add([(T.F1, T.lift(A[i, j]) * p[j]) for j in range(len(b))]), T.lift(b[i])) for i in range(len(b))]
            if all(self._near(x, y) for x, y in rows) and all(self.P.equal(x, y) is True for x, y in rows):
                return np.array(p, dtype=object).view(self.F.SArr)
        return None

    def cut(self, x, name='cut', keep=None):
        """replace a term (or array of terms) by a fresh unconstrained variable: sound over-approximation"""
        T = self.T
        if isinstance(x, np.ndarray):
            out = np.empty(x.shape, dtype=object)
            for i in np.ndindex(x.shape):
                out[i] = self.cut(x[i], '%s%s' % (name, ''.join('_%d' % k for k in i)), keep)
            return out.view(self.F.SArr)
        if not isinstance(x, T.Node) or x.kind == 'const':
            return x
        self.ncut += 1
        lo = hi = None
        if keep == 'pos':
            lo, hi = 0, None
        v = T.var('%s!%d' % (name, self.ncut), x.sh, dict(lo=lo, hi=hi, slo=keep == 'pos', shi=False) if keep else 'cut')
        return v

    def cut_all(self, x, name='cut'):
        """like cut, for every entry of an array, constants included"""
        out = np.empty(x.shape, dtype=object)
        self.abstract = True
        for i in np.ndindex(x.shape):
            v = self.T.lift(x[i])
            self.ncut += 1
            # distinct sample values also where the entries coincide, so that nothing is equal by accident
            j = [self.rngs[k].uniform(0.3, 0.9) * (1 + abs(s)) if s == s else 1.0 for k, s in enumerate(v.sh)]
            out[i] = self.T.var('%s%s!%d' % (name, ''.join('_%d' % k for k in i), self.ncut), j, 'cut')
        return out.view(self.F.SArr)

    def ufun(self, name, f):
        """uninterpreted function (any function whatsoever); f is only used for the shadow values"""
        return self.T.ufun(name, f)

    def lemma(self, cond, label='lemma'):
        """prove cond now and use it afterwards"""
        b = self.T.blift(cond)
        if self.P.valid(b) is True:
            self.P.assume.append(b)
            return True
        self.obl.append((label, b))
        return False

    def sqrt(self, x): return self.F.NP.sqrt(x)
    def cos(self, x): return self.F.NP.cos(x)
    def sin(self, x): return self.F.NP.sin(x)
    def tan(self, x): return self.F.NP.tan(x)
    def atan(self, x): return self.F.NP.arctan(x)
    def atan2(self, y, x): return self.F.NP.arctan2(y, x)
    def acos(self, x): return self.F.NP.arccos(x)
    def exp(self, x): return self.F.NP.exp(x)
    def log(self, x): return self.F.NP.log(x)
    def rad(self, x): return self.F.NP.radians(x)
    def deg(self, x): return self.F.NP.degrees(x)
    def abs(self, x): return self.F.NP.absolute(x)
    def ite(self, c, a, b): return self.F.NP.where(c, a, b)
    def And(self, *a):
        r = self.T.TRUE
        for x in a:
            r = self.T.band(r, self.T.blift(x))
        return r
    def Or(self, *a):
        r = self.T.FALSE
        for x in a:
            r = self.T.bor(r, self.T.blift(x))
        return r
    def Not(self, a): return self.T.bnot(self.T.blift(a))
    def implies(self, a, b): return self.Or(self.Not(a), b)
    def rat(self, p, q=1): return self.T.const(Fraction(p, q))
    def array(self, x): return self.F.NP.array(x)

    # obligations
    def eq(self, label, a, b, scale=None, tol=1e-6):
        T = self.T
        if isinstance(a, (str, type(None))) or isinstance(b, (str, type(None))) or isinstance(a, dict) or isinstance(b, dict):
            if not _same(a, b):
                self.obl.append((label, ('fail', 'got %r, expected %r' % (a, b))))
            return
        A, B = self.F.obj(a), self.F.obj(b)
        if A.shape != B.shape:
            try:
                A, B = np.broadcast_arrays(A, B)
            except ValueError:
                self.obl.append((label, ('fail', 'shape %s != %s' % (A.shape, B.shape))))
                return
        if any(isinstance(v, (str, type(None))) for v in list(A.flat) + list(B.flat)):
            if not _same(list(A.flat), list(B.flat)):
                self.obl.append((label, ('fail', 'got %r, expected %r' % (a, b))))
            return
        self.trace.append((label, A, B))
        for i in np.ndindex(A.shape):
            x, y = T.lift(A[i]), T.lift(B[i])
            l = label if A.shape == () else label + str(list(i))
            d = x - y
            g = T.TRUE if d.kind == 'const' and d.data == 0 else T.cmp('==', d)
            if g.op != 'const':
                self.pairs[g.key] = (x, y)
            self.obl.append((l, g))

    def contradicted(self, g):
        """the obligation clearly fails at a sample point that satisfies all assumptions"""
        p = self.pairs.get(g.key)
        for k in range(self.T.NSH):
            if not all(_ok(a.sh()[k], a) for a in self.P.assume):
                continue
            if p:
                x, y = p[0].sh[k], p[1].sh[k]
                if x == x and y == y and abs(x - y) > 1e-5 * (abs(x) + abs(y)) + 1e-7:
                    return True
            elif g.op == '==':
                d = g.args[0]
                m = abs(float(d.data)) + sum(abs(float(q) * t.sh[k]) for t, q in d.args) if d.kind == 'sum' else 1.0
                if m == m and abs(d.sh[k]) > 1e-4 * m:
                    return True
            elif g.op in ('<', '<=') and g.args[0].sh[k] > 1e-6:
                return True
        return False

    def check(self, label, c, slack=None):
        C = self.F.obj(c)
        for i in np.ndindex(C.shape):
            self.obl.append((label if C.shape == () else label + str(list(i)), self.T.blift(C[i])))

    def _cmp(self, label, a, b, op):
        A, B = np.broadcast_arrays(self.F.obj(a), self.F.obj(b))
        for i in np.ndindex(A.shape):
            self.obl.append((label if A.shape == () else label + str(list(i)), self.T.cmp(op, self.T.lift(A[i]) - self.T.lift(B[i]))))

    def le(self, label, a, b, tol=None): self._cmp(label, a, b, '<=')
    def lt(self, label, a, b): self._cmp(label, a, b, '<')
    def fail(self, label, msg=''): self.obl.append((label, ('fail', msg)))

    # linear solves: the solution is an unknown constrained by its equations; solving a provably permuted / rescaled
    # system returns the permuted / rescaled solution (the solution of a nonsingular system is unique)
    def _solve(self, A, b):
        T = self.T
        n = len(b)
        if A.shape != (n, n) or b.ndim != 1:
            raise T.SymError('solve with shapes %s %s' % (A.shape, b.shape))
        A = np.array([[T.lift(v) for v in r] for r in A], dtype=object)
        b = np.array([T.lift(v) for v in b], dtype=object)
        one = T.const(1)
        k = self._known(A, b)
        if k is not None:
            self.solves.append(Solve(A, b, k))
            return k
        for s in self.solves:
            if len(s.b) != n:
                continue
            for perm, sign in [(list(range(n)), 1)] + [p for p in self.perms if len(p[0]) == n]:
                for sa, sb in [(one, one)] + self.scales:
                    if self._match(A, b, s, perm, sign, sa, sb):
                        x = np.array([s.x[perm[i]] * sign * sb / sa for i in range(n)], dtype=object)
                        self.solves.append(Solve(A, b, x))
                        return x.view(self.F.SArr)
        k = len(self.solves)
        shs = []
        for q in range(T.NSH):
            try:
                shs.append(np.linalg.solve(np.array([[v.sh[q] for v in r] for r in A]), np.array([v.sh[q] for v in b])))
            except (np.linalg.LinAlgError, ValueError):
                shs.append(np.full(n, np.nan))
        x = np.array([T.var('solve%d_%d' % (k, i), [s[i] for s in shs], 'solve') for i in range(n)], dtype=object)
        self.solves.append(Solve(A, b, x))
        if self.opts.get('solve_facts', True):
            ms, self.E.merge_sums = self.E.merge_sums, False
            for i in range(n):
                self.P.assume.append(T.cmp('==', T.add([(T.F1, A[i, j] * x[j]) for j in range(n)]) - b[i]))
            self.E.merge_sums = ms
        return x.view(self.F.SArr)

    def _match(self, A, b, s, perm, sign, sa, sb):
        T, P = self.T, self.P
        n = len(b)
        pairs = [(b[i], s.b[perm[i]] * sb * sign) for i in range(n)] + \
                [(A[i, j], s.A[perm[i], perm[j]] * sa) for i in range(n) for j in range(n)]
        for x, y in pairs:
            if not all(p == p and q == q and abs(p - q) <= 1e-7 * (abs(p) + abs(q)) + 1e-10 for p, q in zip(x.sh, y.sh)):
                return False
        return all(P.equal(x, y) is True for x, y in pairs)

    def row_solves(self, label, A, b, solve=None):
        T = self.T
        if not self.solves:
            return self.fail(label, 'no linear system was solved')
        s = solve or self.solves[-1]
        n = len(b)
        if len(s.x) != n:
            return self.fail(label, '%d unknowns for %d equations' % (len(s.x), n))
        for i in range(n):
            pairs = [(T.lift(A[i][j]), s.A[i, j]) for j in range(n)] + [(T.lift(b[i]), s.b[i])]
            if all(self._near(x, y) for x, y in pairs):
                # the equation itself, coefficient by coefficient
                for j, (x, y) in enumerate(pairs):
                    self.obl.append(('%s: coefficient [%d,%d]' % (label, i, j), T.TRUE if x is y else T.cmp('==', x - y)))
            else:
                r = T.add([(T.F1, T.lift(A[i][j]) * s.x[j]) for j in range(n)]) - T.lift(b[i])
                self.obl.append(('%s: equation %d' % (label, i), T.cmp('==', r)))

    def _near(self, x, y):
        return all(p != p or q != q or abs(p - q) <= 1e-7 * (abs(p) + abs(q)) + 1e-10 for p, q in zip(x.sh, y.sh))

    # files
    def path(self, name): return name
    def put_json(self, name, data):
        self.vfs.put_json(name, data)
        return name

    def get_json(self, name):
        c = self.vfs.files.get(name)
        if c is None or len(c) != 1 or not isinstance(c[0], tuple) or c[0][0] != 'json':
            raise AssertionError('file %s does not hold exactly one JSON document: %r' % (name, c if c is None else [x if isinstance(x, str) else x[0] for x in c]))
        return c[0][1]

    def put_table(self, name, rows):
        self.vfs.files[name] = [('row', list(r)) for r in rows]
        return name

    def get_text(self, name): return self.vfs.files[name]
    def exists(self, name): return name in self.vfs.files

    def table_rows(self, name):
        return [list(x[1]) for x in self.vfs.files[name] if isinstance(x, tuple) and x[0] == 'row']

    def stl_triangles(self, name):
        for fn, tri in reversed(self.F.hooks.stl):
            if fn == name:
                return tri
        raise AssertionError('no STL written to %s' % name)


# ------------------------------------------------------------------------------------------------ running
FUNCS = set()


def _profile(frame, event, arg):
    if event == 'call':
        fn = frame.f_code.co_filename
        if '/machup/' in fn:
            FUNCS.add(os.path.basename(fn)[:-3] + '.' + frame.f_code.co_qualname if hasattr(frame.f_code, 'co_qualname') else frame.f_code.co_name)


class H:
    """one harness"""
    def __init__(self, name, func, budget=120, tries=60, thorough_only=False, expect_paths=None, bounds='', **opts):
        self.name, self.func, self.budget, self.tries, self.thorough_only = name, func, budget, tries, thorough_only
        self.opts, self.bounds = opts, bounds


def run_concrete(h, values, seed=0):
    tmp = tempfile.mkdtemp(prefix='vse_')
    env = None
    try:
        env = CEnv(values, tmp, seed)
        try:
            h.func(env)
        except Assumed as e:
            return None, env
        except Exception as e:
            if _harness_fault(e):
                return None, env
            env.fails.append(('exception', '%s: %s' % (type(e).__name__, str(e)[:300]) + _where(e)))
        return env.fails, env
    finally:
        if env is not None:
            env.close()
        shutil.rmtree(tmp, ignore_errors=True)


def _persists(h, values, fails, env):
    """whether a failure survives disturbances in the eleventh digit (what does not is rounding)"""
    used = dict(env.used or values)
    free = [n for n, x in used.items() if abs(x - round(x, 6)) > 1e-12]
    labels = {l for l, _ in fails}
    if 'exception' in labels or any(m.startswith('shape') for _, m in fails):
        return True

    def diffs(e):
        seen, out = {}, {}
        for l, a, b in e.trace:
            k = seen[l] = seen.get(l, 0) + 1
            if l in labels:
                out[l, k] = a - b
        return out
    with np.errstate(all='ignore'):
        was = diffs(env)
        rng, runs = random.Random(0), []
        for _ in range(4):
            f, e = run_concrete(h, {n: x * (1 + rng.uniform(-1e-11, 1e-11)) if n in free or not free else x for n, x in used.items()})
            if f is not None:
                runs.append((f, diffs(e)))
        if not runs:
            return True
        for l in labels:
            if not all(any(l == x for x, _ in f) for f, _ in runs):
                continue
            mine = [k for k in was if k[0] == l]
            if not mine:
                return True
            for k in mine:
                d = was[k]
                if not np.all(np.isfinite(d)):
                    return True
                i = np.unravel_index(np.argmax(np.abs(d)), d.shape)
                if d[i] and all(k in r and r[k].shape == d.shape and abs(r[k][i] - d[i]) <= 0.2 * abs(d[i]) for _, r in runs):
                    return True
    return False


def _harness_fault(e):
    """the harness itself (not the code under test) reached for an internal name that is not there"""
    tb = traceback.extract_tb(e.__traceback__)
    return isinstance(e, AttributeError) and '/machup/' not in tb[-1].filename and str(getattr(e, 'name', '') or '').startswith('_')


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    for f in reversed(tb):
        if '/machup/' in f.filename:
            return ' [machup/%s:%d %s]' % (os.path.basename(f.filename), f.lineno, f.name)
    f = tb[-1]
    return ' [%s:%d %s]' % (os.path.basename(f.filename), f.lineno, f.name)


def model_values(env, model):
    """inputs -> rationals from a z3 model, lifting angles from the values of their cos/sin"""
    import z3
    T = env.T
    vals = {}

    def num(zv):
        v = model.eval(zv, model_completion=False)
        try:
            if z3.is_rational_value(v):
                return float(v.as_fraction())
            if z3.is_algebraic_value(v):
                return float(v.approx(20).as_fraction())
        except Exception:
            pass
        return None
    for name, n in env.inputs.items():
        if n.z is not None:
            v = num(n.z)
            if v is not None:
                vals[name] = v
    for fn in ('cos',):
        for n in env.E.nodes:
            if n.kind == 'atom' and n.fn == 'cos' and n.z is not None and n.info[1].z is not None:
                c, s = num(n.z), num(n.info[1].z)
                if c is None or s is None:
                    continue
                arg = n.args[0]
                vs = [x for x in T.walk([arg]).values() if x.kind == 'var' and x.fn in env.inputs]
                if len(vs) == 1:
                    v = vs[0]
                    a0, a1 = T_eval(arg, {v.fn: 0.0}), T_eval(arg, {v.fn: 1.0})
                    if a0 is not None and a1 is not None and a1 != a0:
                        x = (math.atan2(s, c) - a0) / (a1 - a0)
                        vals[v.fn] = x
    return vals


def T_eval(n, vals):
    try:
        if n.kind == 'const':
            return float(n.data)
        if n.kind == 'var':
            return math.pi if n.fn == 'pi' else vals[n.fn]
        if n.kind == 'sum':
            return float(n.data) + sum(float(q) * T_eval(t, vals) for t, q in n.args)
        if n.kind == 'prod':
            r = 1.0
            for f, e in n.args:
                r *= T_eval(f, vals) ** e
            return r
    except (KeyError, ZeroDivisionError, TypeError):
        return None
    return None


def run_symbolic(h, seed, out, deadline, early=True):
    """explores all paths of the harness; fills out[...]"""
    import z3
    work = [[]]
    cands = []
    npaths = 0
    t0 = time.time()
    nearly = 0
    while work and nearly < 3:
        forced = work.pop()
        if npaths >= h.opts.get('max_paths', 400):
            out['undecided'].append(('paths', 'more than %d paths' % npaths))
            break
        env = SEnv(h.name, forced, h.opts, deadline, seed)
        path = env.path_obj
        err = None
        sys.setprofile(_profile)
        try:
            h.func(env)
        except PathInfeasible:
            err = 'infeasible'
        except OutOfBudget as e:
            err = 'budget'
            out['undecided'].append(('budget', str(e)))
        except env.T.SymError as e:
            err = 'symerror'
            out['undecided'].append(('encoding', '%s%s' % (e, _where(e))))
            if h.opts.get('debug'):
                traceback.print_exc(limit=-6)
        except Exception as e:
            err = 'exception'
            if _harness_fault(e):
                out['undecided'].append(('encoding', '%s%s' % (e, _where(e))))
                break
            env.obl.append(('exception', ('fail', '%s: %s%s' % (type(e).__name__, str(e)[:300], _where(e)))))
            if h.opts.get('debug'):
                traceback.print_exc(limit=-6)
        finally:
            sys.setprofile(None)
        npaths += 1
        for i, (v, alt) in enumerate(path.taken):
            if alt:
                work.append([t[0] for t in path.taken[:i]] + [not v])
        # reachability: the path condition together with the assumptions has to be satisfiable
        feas = None
        if err != 'infeasible':
            env.P.last_model = None
            feas = env.P.feasible()
            if not feas:
                out['dead_paths'] += 1
            elif forced == [] and err is None and not env.abstract:
                out['shadow'] = [(l, [[_f(v, k) for v in A.flat] for k in range(env.T.NSH)], A.shape) for l, A, B in env.trace]
                out['shadow_in'] = [{n: v.sh[k] for n, v in env.inputs.items()} for k in range(env.T.NSH)]
                out['shadow_ok'] = [all(_ok(a.sh()[k], a) for a in env.P.assume) for k in range(env.T.NSH)]
        if feas:
            out['live_paths'] += 1
            if npaths == 1:
                cands.extend({n: v.sh[k] for n, v in env.inputs.items()} for k in range(env.T.NSH))
            out['inputs'] = sorted(set(out['inputs']) | set(env.inputs))
            ranges = {n: (v.info['lo'], v.info['hi']) for n, v in env.inputs.items()}
            out['ranges'].update({n: [float(a) if a is not None else -10.0, float(b) if b is not None else 10.0] for n, (a, b) in ranges.items()})
            for label, g in env.obl:
                out['obligations'] += 1
                if isinstance(g, tuple):
                    out['refuted'].append((label, g[1]))
                    env.P.valid(env.T.FALSE)
                    if env.P.last_model is not None:
                        cands.append(model_values(env, env.P.last_model))
                    continue
                if g.op == 'const' and g.args[0]:
                    out['trivial'] += 1
                    continue
                if time.time() > deadline:
                    out['undecided'].append((label, 'budget'))
                    continue
                env.P.last_model = None
                if early and env.contradicted(g):
                    out['refuted'].append((label, 'fails at a sample point'))
                    nearly += 1
                    if nearly >= 3:
                        break
                    continue
                r = env.P.valid(g)
                if r is True:
                    out['proved'] += 1
                else:
                    out['refuted' if r is False else 'undecided'].append((label, str(r)))
                    if h.opts.get('debug'):
                        print('NOT PROVED', label, r, str(g)[:300])
                    if env.P.last_model is not None:
                        cands.append(model_values(env, env.P.last_model))
                    if len(out['refuted']) > 40:
                        break
            ident = [(x, y) for _, A, B in env.trace for x, y in zip(A.flat, B.flat)]
            if ident and nearly < 3 and len(env.E.nodes) < 60000:
                # obligations whose two sides became the same term are also handed to the solver, in one query
                T = env.T
                ident = [(T.lift(x), T.lift(y)) for x, y in ident]
                fs = [env.P.z(x) != env.P.z(y) for x, y in ident if x is y]
                if fs and env.P.check([z3.Or(*fs)], 20) != z3.unsat:
                    out['undecided'].append(('identical terms', 'not confirmed by the solver'))
            if nearly < 3 and not out['refuted']:
                c = env.P.confirm(min(h.opts.get('confirm_s', 15.0) / max(1, npaths), max(0.0, deadline - time.time())))
                for k, v in zip(('confirmed', 'refuted', 'unknown', 'unasked'), c):
                    out['merges'][k] = out['merges'].get(k, 0) + v
                if c[1]:
                    out['undecided'].append(('normal form', '%d subterm equalities not accepted by the solver' % c[1]))
                c = env.P.confirm_steps(min(h.opts.get('steps_s', 60.0 if out['tier'] == 'thorough' else 4.0) / max(1, npaths), max(0.0, deadline - time.time())))
                for k, v in zip(('confirmed', 'rejected', 'unasked'), c):
                    out['steps'][k] = out['steps'].get(k, 0) + v
                if c[1]:
                    out['undecided'].append(('term construction', '%d batches of arithmetic steps not accepted by the solver' % c[1]))
            for k, v in env.E.stat.items():
                out['terms'][k] = out['terms'].get(k, 0) + v
            out['nodes'] += len(env.E.nodes)
        for k, v in env.P.stats.items():
            out['stats'][k] = max(out['stats'].get(k, 0), v) if k.startswith('max') else out['stats'].get(k, 0) + v
        out['side_conditions'] += len(env.E.side)
    out['stopped_early'] = nearly > 0
    out['paths'] = npaths
    out['cands'] = cands
    out['functions'] = sorted(FUNCS)
    out['sym_s'] = time.time() - t0


def _ok(v, b):
    # the equations of a linear solve hold at a sample only up to rounding
    return v or b.op == '=='


def _f(v, k):
    from . import terms as T
    try:
        return T.lift(v).sh[k]
    except Exception:
        return math.nan


def execute(h, seed, tier):
    """full treatment of one harness; returns a result dict"""
    out = attempt(h, seed, tier, True)
    if out.get('stopped_early') and not out['violation']:
        # what failed at sample points was not reproduced on the real code: decide every obligation with the solver
        out = attempt(h, seed, tier, False)
    return out


def attempt(h, seed, tier, early):
    out = dict(name=h.name, obligations=0, proved=0, trivial=0, refuted=[], undecided=[], paths=0, live_paths=0, dead_paths=0, nodes=0,
               terms={}, stats={}, functions=[], inputs=[], ranges={}, side_conditions=0, bounds=h.bounds, violation=None, encoding=None, merges={}, steps={}, tier=tier)
    t0 = time.time()
    deadline = t0 + h.budget * (3 if tier == 'thorough' else 1)
    try:
        run_symbolic(h, seed, out, deadline, early)
    except Exception as e:
        if h.opts.get('debug'):
            traceback.print_exc(limit=-6)
        out['undecided'].append(('machinery', '%s: %s%s' % (type(e).__name__, str(e)[:200], _where(e))))
        out.setdefault('cands', [])
    out['wall_s'] = time.time() - t0
    cands = out.pop('cands', [])
    # validate the encoding: the symbolic result evaluated at a point against the real code run at that point
    if 'shadow' in out and not out['refuted']:
        ok, n, bad = True, 0, []
        for k in [k for k in range(len(out['shadow_in'])) if out['shadow_ok'][k]][:2]:
            fails, env = run_concrete(h, out['shadow_in'][k])
            if fails is None or any(l == 'exception' for l, _ in fails):
                continue
            conc = {}
            for l, A, B in env.trace:
                conc.setdefault(l, []).append(A)
            seen = {}
            for l, vals, shape in out['shadow']:
                i = seen.get(l, 0)
                seen[l] = i + 1
                if len(conc.get(l, ())) > i and conc[l][i].shape == tuple(shape):
                    a, b = np.array(vals[k], dtype=float), conc[l][i].ravel()
                    s = max(np.max(np.abs(b)), 1e-9) if b.size else 1
                    n += a.size
                    d = np.abs(a - b)
                    if not np.all((d <= 1e-5 * s) | np.isnan(a)):
                        bad.append(l)
        out['encoding'] = dict(values_compared=n, mismatches=sorted(set(bad)))
    out.pop('shadow', None)
    out.pop('shadow_in', None)
    out.pop('shadow_ok', None)
    if out['refuted'] or out['undecided'] or (out['encoding'] and out['encoding']['mismatches']):
        rng = random.Random('%s/%s/replay' % (seed, h.name))
        lim = time.time() + h.opts.get('replay_s', 60)
        tried = 0
        pool = []
        for c in cands:
            pool.append(c)
            snap = {k: (round(v, 6) if isinstance(v, float) else v) for k, v in c.items()}
            pool.append(snap)
        for _ in range(h.tries):
            v = {}
            for n, (a, b) in out['ranges'].items():
                w = rng.random()
                if w < 0.08:
                    v[n] = a
                elif w < 0.16:
                    v[n] = b
                elif w < 0.22 and a <= 0 <= b:
                    v[n] = 0.0
                elif w < 0.6 and a > 0 and b > 50 * a:
                    v[n] = math.exp(rng.uniform(math.log(a), math.log(b)))
                else:
                    v[n] = rng.uniform(a, b)
            pool.append(v)
        for v in pool:
            if time.time() > lim:
                break
            v = dict(v)
            for n, (a, b) in out['ranges'].items():
                if n in v:
                    v[n] = min(max(v[n], a), b)
                else:
                    v[n] = rng.uniform(a, b)
            tried += 1
            fails, env = run_concrete(h, v)
            if fails and _persists(h, v, fails, env):
                out['violation'] = dict(values={k: float(x) for k, x in (env.used or v).items()}, fails=[list(map(str, f)) for f in fails[:10]])
                break
        out['replays'] = tried
    out['wall_s'] = time.time() - t0
    return out
