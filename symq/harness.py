"""Harness environments: the same harness function runs symbolically (solver decides) and concretely (replay on
the really imported package).

A harness is `def h(e, **cfg)`.  It builds its inputs with e.real/e.vec/..., drives the library obtained with
e.mod(name), and states its obligations with e.eq/e.le/e.true/...
"""
import contextlib
import copy
import math
import os
import random
import signal
import sys
import tempfile
import time
import traceback
import warnings
from fractions import Fraction

import numpy as np

from . import core as C
import z3
from . import arr as A
from . import stubs, loader
from .core import SNum, Unsupported, PathAbort, Budget, isz, rcmp, rawv

SLACKS = (Fraction(1, 20), Fraction(1, 1000), Fraction(1, 100000))
JOBS = {}


class Job:
    def __init__(self, prop, fn, cfg, tier, limit, opts):
        self.prop, self.fn, self.cfg, self.tier, self.limit, self.opts = prop, fn, cfg, tier, limit, opts
        self.name = fn.__name__ + ('(' + ', '.join('%s=%r' % kv for kv in cfg.items()) + ')' if cfg else '')


def harness(prop, cfgs=({},), more=(), limit=40, more_limit=400, **opts):
    """register a harness for a property; `cfgs` run in both tiers, `more` only in the thorough tier"""
    def deco(fn):
        for cfg in cfgs:
            JOBS.setdefault(prop, []).append(Job(prop, fn, cfg, 'quick', limit, opts))
        for cfg in more:
            JOBS.setdefault(prop, []).append(Job(prop, fn, cfg, 'thorough', more_limit, opts))
        return fn
    return deco


class Reject(BaseException):
    """concrete inputs outside the assumed domain"""


class Check:
    __slots__ = ('label', 'pairs', 'conds', 'failed', 'tol', 'why', 'status', 'alts', 'settled')

    def __init__(self, label):
        self.alts = None
        self.label, self.pairs, self.conds, self.failed, self.tol, self.why = label, [], [], False, None, ''
        self.status = None
        self.settled = []      # statements already settled by exact normalisation

    def viol(self, s):
        """z3 condition under which the check is violated by more than s (True when violated outright)"""
        if self.failed:
            return True
        if self.alts is not None:
            vs = [a.viol(s) for a in self.alts]
            if any(v is False for v in vs):
                return False
            vs = [v for v in vs if v is not True]
            return z3.And(vs) if vs else True
        out = list(self.conds) if s == 0 else []
        for c in (self.conds if s else []):
            out.append(strengthen(c, s))
        for a, b in self.pairs:
            a, b = C.numz(a), C.numz(b)
            out.append(a != b if s == 0 else z3.Or(a - b > C.z3val(Fraction(s)), b - a > C.z3val(Fraction(s))))
        if not out:
            return False
        return out[0] if len(out) == 1 else z3.Or(out)


def strengthen(c, s):
    """violation condition c, by a margin where it is an ordering"""
    k = c.decl().kind()
    if k == z3.Z3_OP_NOT:
        a = c.arg(0)
        ka = a.decl().kind()
        if ka == z3.Z3_OP_LE:
            return a.arg(0) > a.arg(1) + C.z3val(Fraction(s))
        if ka == z3.Z3_OP_GE:
            return a.arg(0) < a.arg(1) - C.z3val(Fraction(s))
        if ka == z3.Z3_OP_AND:
            return z3.Or([strengthen(z3.Not(x), s) for x in a.children()])
        if ka == z3.Z3_OP_EQ and a.arg(0).sort() == z3.RealSort():
            return z3.Or(a.arg(0) - a.arg(1) > C.z3val(Fraction(s)), a.arg(1) - a.arg(0) > C.z3val(Fraction(s)))
    if k == z3.Z3_OP_OR:
        return z3.Or([strengthen(x, s) for x in c.children()])
    return c


# ------------------------------------------------------------------------------------------ rational normal form
_ZERO = None


def rat(t, memo, budget):
    """term -> (numerator, denominator) polynomials-with-atoms"""
    i = t.get_id()
    if i in memo:
        return memo[i][:2]
    budget[0] -= 1
    if budget[0] < 0:
        raise OverflowError
    k = t.decl().kind()
    one = z3.RealVal(1)
    if k == z3.Z3_OP_DIV:
        n1, d1 = rat(t.arg(0), memo, budget)
        n2, d2 = rat(t.arg(1), memo, budget)
        r = (n1 * d2, d1 * n2)
    elif k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB):
        n, d = rat(t.arg(0), memo, budget)
        for c in t.children()[1:]:
            n2, d2 = rat(c, memo, budget)
            if d.eq(d2):
                n = n + n2 if k == z3.Z3_OP_ADD else n - n2
            else:
                n = n * d2 + n2 * d if k == z3.Z3_OP_ADD else n * d2 - n2 * d
                d = d * d2
        r = (n, d)
    elif k == z3.Z3_OP_MUL:
        n, d = rat(t.arg(0), memo, budget)
        for c in t.children()[1:]:
            n2, d2 = rat(c, memo, budget)
            n, d = n * n2, d * d2
        r = (n, d)
    elif k == z3.Z3_OP_UMINUS:
        n, d = rat(t.arg(0), memo, budget)
        r = (-n, d)
    else:
        r = (t, one)
    r = (z3.simplify(r[0]), z3.simplify(r[1]))
    memo[i] = r + (t,)
    return r


def same_by_normal_form(a, b):
    if C.poly.zero(C.normal_form(), a, b):
        return True
    d = z3.simplify(a - b, som=True)
    if z3.is_rational_value(d):
        return C.q_of(d) == 0
    try:
        memo = {}
        budget = [3000]
        n1, d1 = rat(a, memo, budget)
        n2, d2 = rat(b, memo, budget)
        if C.poly.zero(C.normal_form(), n1 * d2, n2 * d1):
            return True
        d = z3.simplify(n1 * d2 - n2 * d1, som=True)
        if z3.is_rational_value(d) and C.q_of(d) == 0:
            return True
    except (OverflowError, z3.Z3Exception):
        pass
    return None


# ------------------------------------------------------------------------------------------ environments
class Env:
    sym = False

    def vec(self, name, n, lo=0, hi=1, **k):
        return self.arr([self.real('%s%d' % (name, i), lo, hi, **k) for i in range(n)])

    def mat(self, name, n, m, lo=0, hi=1, **k):
        return self.arr([[self.real('%s%d_%d' % (name, i, j), lo, hi, **k) for j in range(m)] for i in range(n)])

    def _simplex(self, name, n, lo=0):
        xs = [self.real('%s%d' % (name, i), lo, 1) for i in range(n - 1)]
        last = 1
        for x in xs:
            last = last - x
        self.assume(last >= lo - (0 if self.sym else 1e-9))
        if n == 1:
            return [1]
        if self.sym and lo >= 0 and isz(last.v):
            (C.CTX.positive if lo > 0 else C.CTX.nonneg).add(last.v.get_id())
            C.CTX.cache[('keep', last.v.get_id())] = last.v
        elif not self.sym:
            last = max(float(last), 0.0)
        return xs + [last]

    def simplex(self, name, n, lo=0):
        return self.arr(self._simplex(name, n, lo))

    def probs(self, name, rows, n, lo=0):
        """`rows` probability rows of n classes"""
        return self.arr([self._simplex('%s%d_' % (name, i), n, lo) for i in range(rows)])

    def ints(self, name, n, values):
        return self.arr([self.int('%s%d' % (name, i), values) for i in range(n)], 'i')

    def col(self, v):
        return v.reshape(-1, 1)

    # ---- reference helpers usable in both modes
    def sum(self, xs):
        t = 0
        for x in xs:
            t = t + x
        return t

    def mean(self, xs):
        xs = list(xs)
        return self.sum(xs) / len(xs)

    def max(self, *xs):
        m = xs[0]
        for x in xs[1:]:
            m = self.ite(x >= m, x, m)
        return m

    def min(self, *xs):
        m = xs[0]
        for x in xs[1:]:
            m = self.ite(x <= m, x, m)
        return m

    def abs(self, x):
        return self.ite(x >= 0, x, -x)

    def clip01(self, x):
        return self.min(self.max(x, 0), 1)

    def ind(self, c):
        return self.ite(c, 1, 0)

    def finite(self, label, x):
        bad = [v for v in self.flat(x) if C.isspecial(rawv(v))] if self.sym else \
            [v for v in self.flat(x) if not np.isfinite(v)]
        self.true(label, not bad, str(bad[:3]))

    def log_fact(self, x, y):
        """instance of the tangent inequality ln x - ln y <= (x - y)/y, for x, y > 0 (always true)"""
        if not self.sym:
            return
        lx, ly = self.log(x), self.log(y)
        if C.isspecial(lx.v) or C.isspecial(ly.v):
            return
        self.assume((lx - ly) * y <= x - y)

    # ---- obligations
    def distribution(self, label, p, n=None, tol=1e-6):
        p = self.flat(p)
        if n is not None:
            self.true(label + ': one value per class', len(p) == n)
        self.eq(label + ': sums to 1', self.sum(p), 1, tol=tol)
        for x in p:
            self.le(label + ': not negative', 0, x, tol=tol)

    def points(self, n):
        """exact points of the simplex at which objectives are compared"""
        F = Fraction
        if n == 2:
            pts = [(F(1), F(0)), (F(0), F(1)), (F(1, 2), F(1, 2)), (F(3, 10), F(7, 10)), (F(9, 10), F(1, 10))]
        elif n == 3:
            pts = [(F(1), F(0), F(0)), (F(0), F(1), F(0)), (F(0), F(0), F(1)), (F(1, 2), F(1, 4), F(1, 4)),
                   (F(1, 5), F(3, 10), F(1, 2)), (F(3, 5), F(2, 5), F(0)), (F(0), F(1, 3), F(2, 3))]
        else:
            pts = [tuple(F(int(i == k)) for i in range(n)) for k in range(n)]
            for a in range(n):
                w = [F(1 + (i + a) % n) for i in range(n)]
                pts.append(tuple(x / sum(w) for x in w))
        return pts

    def raises(self, label, fn, exc=Exception):
        try:
            fn()
        except exc:
            self.true(label, True)
            return
        self.true(label, False, 'no exception')

    def unchanged(self, label, a, snap):
        self.eq(label, a, snap, tol=-1)        # exactly
        self.true(label + ': shape', tuple(a.shape) == tuple(snap.shape))


class SymEnv(Env):
    sym = True

    def __init__(self, ctx):
        self.ctx = ctx
        self.world = loader.World()
        self.checks = []
        self.np = stubs.special('numpy')
        self.notes = set()

    def mod(self, name):
        return self.world.load(loader.PKG + ('.' + name if name else ''))

    @contextlib.contextmanager
    def fresh(self):
        """the modules of the package loaded anew, for the time of the block"""
        old, self.world = self.world, loader.World()
        try:
            yield
        finally:
            self.world = old

    # inputs
    def real(self, name, lo=None, hi=None, **k):
        return self.ctx.real(name, lo, hi, **k)

    def int(self, name, values):
        return self.ctx.intvar(name, values)

    def bool(self, name):
        return self.ctx.boolvar(name)

    def pick(self, name, options):
        """case split over python values"""
        v = self.ctx.intvar(name, range(len(options)))
        return options[int(v)]

    def assume(self, c):
        if isinstance(c, SNum):
            c = C.tobool(c.v)
        self.ctx.assume(c)

    def arr(self, x, kd=None):
        return A.sarr(A.obj(x), kd or 'f')

    def data(self, x, dtype=None):
        """concrete machine data"""
        return A.conv(np.array(x, dtype=dtype))

    @contextlib.contextmanager
    def text_table(self, M):
        """name of a text file with these values, one row per line, separated by commas"""
        name = 'table-%d' % len(stubs.TABLES)
        stubs.TABLES[name] = M
        try:
            yield name
        finally:
            del stubs.TABLES[name]

    def single(self, x):
        """the same values, single precision in the machine"""
        return x

    def random_state(self, tag, most=None, free=None):
        """an arbitrary random stream; paths that need more than `most` draws are outside the bounds; with `free`, only the draws
        with these numbers are arbitrary (a whole row of dirichlet if its first number is)"""
        return stubs.SymRandomState(tag, most, free)

    def ite(self, c, a, b):
        cv = c.v if isinstance(c, SNum) else c
        if not isz(cv):
            return a if cv else b
        a, b = A.wrapel(a), A.wrapel(b)
        return SNum(C.rite(cv, a.v, b.v), C.join_kind(a, b))

    def and_(self, *cs):
        return SNum(C.rand_all([rawv(c) for c in cs]), 'b')

    def or_(self, *cs):
        return SNum(C.ror_all([rawv(c) for c in cs]), 'b')

    def not_(self, c):
        return SNum(C.rnot(rawv(c)), 'b')

    def sqrt(self, x):
        return SNum(C.rsqrt(rawv(x)))

    def log(self, x):
        return SNum(C.rlog(rawv(x)))

    def log2(self, x):
        return SNum(C.rlog2(rawv(x)))

    def exp(self, x):
        return SNum(C.rexp(rawv(x)))

    def flat(self, x):
        text = self._strs(x)
        if text is not None:
            return list(np.asarray(text).reshape(-1))
        return list(A.obj(x).reshape(-1))

    def at(self, a, *idx):
        return A.obj(a)[idx]

    def shape(self, x):
        return tuple(np.shape(A.obj(x))) if not hasattr(x, 'shape') else tuple(x.shape)

    def snap(self, a):
        if isinstance(a, A.SArr):
            return a.copy()
        return np.array(np.asarray(a), copy=True).view(A.PArr)

    def posed(self):
        return stubs.posed_list()

    def _objective_at(self, pr, n, z):
        z = [SNum(C.f2q(x)) if not isinstance(x, SNum) else x for x in z]
        return pr.objective(z[:pr.n])

    def minimises(self, label, p, n, refs, posed=None, tol=5e-3, pts=None):
        """p minimises the reference objectives (callables of a point; any of them is accepted) over the simplex:
        the problem handed to the solver has the simplex as feasible set, an objective equal to a reference up to
        positive affine scaling, and p is its solution"""
        if not isinstance(refs, (list, tuple)):
            refs = [refs]
        ps = self.posed()
        if posed is None:
            if not ps:
                raise Unsupported('no optimisation problem was posed')
            posed = ps[-1]
        if posed.n not in (n, n - 1):
            self.fail(label + ': number of unknowns', '%d unknowns for %d classes' % (posed.n, n))
            return
        P = self.flat(p)
        self.true(label + ': one prevalence per class', len(P) == n)
        if len(P) != n:
            return
        sol = list(posed.solution)
        if posed.n == n - 1:
            sol = sol + [1 - self.sum(sol)]
        self.eq(label + ': the solution is returned', p, sol, tol=1e-4)
        # the feasible set is the simplex
        z = [SNum(z3.Real('zz%d' % i)) for i in range(n)]
        simplex = self.and_(*([x >= 0 for x in z] + [self.sum(z) == 1]))
        fz = posed.feasible(z[:posed.n])
        if posed.n == n:
            self.true(label + ': feasible set is the simplex', self.and_(self.or_(self.not_(simplex), fz), self.or_(self.not_(fz), simplex)))
        else:
            s1 = self.and_(*([x >= 0 for x in z[:-1]] + [self.sum(z[:-1]) <= 1]))
            self.true(label + ': feasible set is the simplex', self.and_(self.or_(self.not_(s1), fz), self.or_(self.not_(fz), s1)))
        pts = pts or self.points(n)
        zs = [[SNum(C.f2q(x)) for x in pt] for pt in pts]
        ob = [self._objective_at(posed, n, w) for w in zs]
        ch = Check(label + ': objective')
        ch.alts = []
        for ref in refs:
            rf = [ref(w) for w in zs]
            for c in (1, 2, Fraction(1, 2)):
                sub = Check('')
                for i in range(1, len(zs)):
                    a = ob[i] - ob[0]
                    b = (rf[i] - rf[0]) * c
                    self._eq1(sub, rawv(a), rawv(b), i)
                    if sub.failed:
                        break
                ch.alts.append(sub)
                if not sub.failed and not sub.pairs:
                    break
        ch.tol = 1e-6
        self.checks.append(ch)

    def same_result(self, label, p1, posed1, p2, posed2, n, tol=1e-6, obj=None, ctol=1e-3, perm=None, unique=True):
        """two runs give the same prevalences: equal values, or the same problem solved.
        perm: class i of the first run is class perm[i] of the second; unique: the minimisers are unique for generic inputs"""
        if not posed1 and not posed2:
            self.eq(label, p1, self.arr(permuted(self.flat(p2), perm, True)) if perm else p2, tol=tol)
            return
        if len(posed1) != len(posed2):
            self.fail(label + ': number of problems', '%d and %d' % (len(posed1), len(posed2)))
            return
        pts = self.points(n)
        zs = [[SNum(C.f2q(x)) for x in pt] for pt in pts]
        for a, b in zip(posed1, posed2) if len(posed1) > 1 else [(posed1[-1], posed2[-1])]:
            self.true(label + ': same unknowns', a.n == b.n)
            if a.n != b.n:
                return
            oa = [self._objective_at(a, n, w) for w in zs]
            ob = [self._objective_at(b, n, permuted(w, perm)) for w in zs]
            for i in range(1, len(zs)):
                # equal up to a constant: compare differences
                self.eq(label + ': same objective', oa[i] - oa[0], ob[i] - ob[0], tol=tol)
            z = [SNum(z3.Real('zz%d' % i)) for i in range(a.n)]
            full = z if a.n == n else z + [1 - self.sum(z)]
            fa, fb = a.feasible(z), b.feasible(permuted(full, perm)[:a.n])
            if a.n == n - 1 or perm is None:
                self.true(label + ': same feasible set', self.and_(self.or_(self.not_(fa), fb), self.or_(self.not_(fb), fa)))
            else:
                one = self.sum(z) == 1
                self.true(label + ': same feasible set', self.or_(self.not_(one), self.and_(self.or_(self.not_(fa), fb), self.or_(self.not_(fb), fa))))

        def solution(q):
            sol = list(q.solution)
            return sol if q.n == n else sol + [1 - self.sum(sol)]
        if len(posed1) == 1:
            self.eq(label + ': the solution is returned', p1, solution(posed1[0]), tol=1e-4)
            self.eq(label + ': the solution is returned', p2, solution(posed2[0]), tol=1e-4)
            return
        # equal solutions of all the problems: equal results
        same = [x == y for a, b in zip(posed1, posed2) for x, y in zip(solution(a), permuted(solution(b), perm, True))]
        for x, y in zip(self.flat(p1), permuted(self.flat(p2), perm, True)):
            self.true(label + ': same combination of the solutions', self.or_(self.not_(self.and_(*same)), self.abs(x - y) <= 1e-6))

    def recovers(self, label, r, posed, p, n, tol=1e-3):
        """the prevalences are p: directly, or as a point where the objective of the problem is as small as anywhere on the simplex"""
        if not posed:
            self.eq(label, r, self.arr(list(p)), tol=tol)
            return
        pr = posed[-1]
        sol = list(pr.solution)
        sol = sol if pr.n == n else sol + [1 - self.sum(sol)]
        self.eq(label + ': the solution is returned', r, sol, tol=1e-4)
        P = [SNum(v) if not isinstance(v, SNum) else v for v in (v if isinstance(v, SNum) else C.f2q(v) for v in p)]
        self.true(label + ': feasible', pr.feasible(P[:pr.n]))
        z = [SNum(z3.Real('zz%d' % i)) for i in range(n)]
        other = self.and_(*([x >= 0 for x in z] + [self.sum(z) == 1]))
        best = self._objective_at(pr, n, P)
        for i, w in enumerate(self.points(n)):
            self.true(label + ': no better point', best <= self._objective_at(pr, n, list(w)) + 1e-6)
        self.true(label + ': nothing better', self.or_(self.not_(other), best <= self._objective_at(pr, n, z) + 1e-6))

    def mark(self):
        return len(self.posed())

    def since(self, k):
        return list(self.posed()[k:])

    # obligations
    def eq(self, label, a, b, tol=1e-6):
        ch = Check(label)
        self.checks.append(ch)
        ch.tol = tol
        try:
            sa, sb = self._strs(a), self._strs(b)
            if sa is not None or sb is not None:
                ok = sa is not None and sb is not None and sa == sb
                if not ok:
                    ch.failed, ch.why = True, '%r != %r' % (sa, sb)
                return
            oa, ob = A.obj(a), A.obj(b)
        except (ValueError, TypeError) as ex:
            ch.failed, ch.why = True, 'not comparable: %s' % ex
            return
        if ob.ndim == 0 and oa.size == 1:
            oa = oa.reshape(())
        if oa.shape != ob.shape and not (ob.ndim == 0):
            ch.failed, ch.why = True, 'shape %s instead of %s' % (oa.shape, ob.shape)
            return
        ob = np.broadcast_to(ob, oa.shape)
        for i in np.ndindex(oa.shape):
            self._eq1(ch, oa[i].v, ob[i].v, i)

    def _strs(self, x):
        if isinstance(x, str):
            return [x]
        if isinstance(x, np.ndarray) and not isinstance(x, A.SArr) and x.dtype.kind in 'US':
            return [str(v) for v in np.asarray(x).reshape(-1)]
        if isinstance(x, (list, tuple)) and x and isinstance(x[0], str):
            return [str(v) for v in x]
        return None

    def _eq1(self, ch, a, b, i):
        if isz(a) and z3.is_bool(a):
            a = C.numz(a)
        if isz(b) and z3.is_bool(b):
            b = C.numz(b)
        if C.isspecial(a) or C.isspecial(b):
            if C.isspecial(a) and C.isspecial(b) and (a == b or (math.isnan(a) and math.isnan(b))):
                return
            ch.failed, ch.why = True, 'component %s: %s instead of %s' % (i, _s(a), _s(b))
            return
        if not isz(a) and not isz(b):
            if abs(Fraction(a) - Fraction(b)) > _floor(ch.tol) * (1 + abs(Fraction(b))):
                ch.failed, ch.why = True, 'component %s: %s instead of %s' % (i, _s(a), _s(b))
            return
        a, b = C.numz(a), C.numz(b)
        if a.eq(b):
            ch.settled.append(a != b)
            return
        s = same_by_normal_form(a, b)
        if s is True:
            ch.settled.append(a != b)
            self.ctx.stats['by_normal_form'] = self.ctx.stats.get('by_normal_form', 0) + 1
            return
        if s is False:
            d = z3.simplify(a - b, som=True)
            if abs(Fraction(C.q_of(d))) > _floor(ch.tol):
                ch.failed, ch.why = True, 'component %s differs by %s' % (i, C.q_of(d))
            return
        ch.pairs.append((a, b))

    def true(self, label, c, why=''):
        ch = Check(label)
        self.checks.append(ch)
        if isinstance(c, np.ndarray):
            c = SNum(C.rand_all([e.v for e in A.obj(c).reshape(-1)]), 'b')
        v = C.tobool(rawv(c))
        if not isz(v):
            if not v:
                ch.failed, ch.why = True, why
        else:
            v0, v = v, z3.simplify(v)
            if z3.is_true(v):
                ch.settled.append(z3.Not(v0))
                return
            ch.conds.append(z3.Not(v))

    def le(self, label, a, b, tol=1e-6):
        oa, ob = np.broadcast_arrays(A.obj(a), A.obj(b))
        for x, y in zip(oa.reshape(-1), ob.reshape(-1)):
            r = rcmp('le', x.v, y.v)
            if not isz(r) and not r and not C.isspecial(x.v) and not C.isspecial(y.v) and \
                    not isz(x.v) and not isz(y.v) and Fraction(x.v) <= Fraction(y.v) + Fraction(tol):
                r = True
            self.true(label, SNum(r, 'b'), '%s > %s' % (_s(x.v), _s(y.v)))
            self.checks[-1].tol = tol

    def fail(self, label, why=''):
        self.true(label, False, why)


def permuted(v, perm, inverse=False):
    """the vector in the class order of the other run"""
    if perm is None:
        return v
    v = list(v)
    if inverse:
        return [v[perm[i]] for i in range(len(v))]
    out = [None] * len(v)
    for i, x in enumerate(v):
        out[perm[i]] = x
    return out


def _floor(tol):
    """differences of constants that are rounding; none for a negative tolerance"""
    return Fraction(0) if tol is not None and tol < 0 else Fraction(max(tol or 0, 1e-9))


def _s(v):
    return '<sym>' if isz(v) else str(v)


class ConcEnv(Env):
    sym = False

    def __init__(self, values, seed=0):
        self.values = values
        self.rng = random.Random(seed)
        self.failures = []
        self.np = np
        self.used = {}
        self.ctx = None
        self.ran = 0
        self.generated = False

    def mod(self, name):
        return loader.import_real(name)

    def fresh(self):
        return loader.fresh_real()

    def _val(self, name, gen):
        if name in self.values:
            v = self.values[name]
        else:
            v = gen()
            self.generated = True
        self.used[name] = v
        return v

    def real(self, name, lo=None, hi=None, **k):
        l = 0.0 if lo is None else float(lo)
        h = (l + 1.0) if hi is None else float(hi)
        return np.float64(float(self._val(name, lambda: Fraction(int(1000 * (l + (h - l) * self.rng.random())), 1000))))

    def int(self, name, values):
        return int(self._val(name, lambda: self.rng.choice(list(values))))

    def bool(self, name):
        return bool(self._val(name, lambda: self.rng.random() < .5))

    def pick(self, name, options):
        return options[int(self._val(name, lambda: self.rng.randrange(len(options))))]

    def assume(self, c):
        if isinstance(c, np.ndarray):
            c = c.all()
        # a model of the solver satisfies the assumption exactly: only rounding can make it fail here
        if not c and self.generated:
            raise Reject()

    def arr(self, x, kd=None):
        return np.array(x, dtype={'i': np.int64, 'b': bool}.get(kd, float))

    def data(self, x, dtype=None):
        return np.array(x, dtype=dtype)

    @contextlib.contextmanager
    def text_table(self, M):
        with tempfile.TemporaryDirectory(prefix='symq') as d:
            name = os.path.join(d, 'table.csv')
            with open(name, 'w') as f:
                for row in np.asarray(M, dtype=float):
                    f.write(','.join(repr(float(v)) for v in row) + '\n')
            yield name

    def single(self, x):
        return np.asarray(x, dtype=np.float32)

    def random_state(self, tag, most=None, free=None):
        return ScriptedRS(tag, self, free)

    def ite(self, c, a, b):
        return a if c else b

    def and_(self, *cs):
        return all(bool(c) for c in cs)

    def or_(self, *cs):
        return any(bool(c) for c in cs)

    def not_(self, c):
        return not c

    def sqrt(self, x):
        return math.sqrt(max(x, 0.0)) if x > -1e-12 else float('nan')

    def log(self, x):
        return math.log(x)

    def log2(self, x):
        return math.log2(x)

    def exp(self, x):
        return math.exp(x)

    def flat(self, x):
        x = np.asarray(x)
        return list((x if x.dtype.kind in 'US' else x.astype(float)).reshape(-1))

    def at(self, a, *idx):
        return np.asarray(a)[idx]

    def shape(self, x):
        return tuple(np.shape(x))

    def snap(self, a):
        return np.array(a, copy=True)

    def posed(self):
        return []

    def recovers(self, label, r, posed, p, n, tol=1e-3):
        self.eq(label, r, np.array([float(v) for v in p]), tol=max(tol, 3e-2))

    def mark(self):
        return 0

    def since(self, k):
        return []

    def minimises(self, label, p, n, refs, posed=None, tol=5e-3, pts=None):
        ref = refs[0] if isinstance(refs, (list, tuple)) else refs
        P = np.asarray(p, dtype=float).reshape(-1)
        self.true(label + ': one prevalence per class', len(P) == n)
        if len(P) != n:
            return
        self.distribution(label + ': solution', P, n, tol=2e-3)
        P = np.clip(P, 0, 1)
        P = P / P.sum() if P.sum() > 0 else P
        best = np.inf
        for z in _grid(n):
            best = min(best, float(ref(list(z))))
        v = float(ref(list(P)))
        self.ran += 1
        if not v <= best + tol * (1 + abs(best)):
            self._fail(label + ': objective', 'objective %.6g at %s, but %.6g is possible' % (v, _fmt(P), best), v - best)

    def same_result(self, label, p1, posed1, p2, posed2, n, tol=1e-6, obj=None, ctol=1e-3, perm=None, unique=True):
        if perm:
            p2 = np.asarray(permuted(np.asarray(p2, dtype=float).reshape(-1), perm, True))
        if obj is None:
            k = len(self.failures)
            self.eq(label, p1, p2, tol=max(2 * ctol if ctol else 0, tol))
            if not unique:
                # several minimisers: only counts for a counterexample of the solver
                self.failures[k:] = [(l, w, min(m, 9e-4)) for l, w, m in self.failures[k:]]
        else:
            v1, v2 = float(obj(list(np.asarray(p1).reshape(-1)))), float(obj(list(np.asarray(p2).reshape(-1))))
            self.eq(label, v1, v2, tol=2e-2)

    def _fail(self, label, why, mag):
        self.failures.append((label, why, float(mag)))

    def eq(self, label, a, b, tol=1e-6):
        self.ran += 1
        sa, sb = np.asarray(a), np.asarray(b)
        if sa.dtype.kind in 'USO' or sb.dtype.kind in 'USO':
            try:
                if sa.dtype.kind == 'O' and sb.dtype.kind != 'O':
                    sa = sa.astype(sb.dtype)
                if sa.shape != sb.shape or not (sa == sb).all():
                    self._fail(label, '%r instead of %r' % (sa.tolist(), sb.tolist()), 1)
            except (ValueError, TypeError) as ex:
                self._fail(label, 'not comparable: %s' % ex, 1)
            return
        sa, sb = sa.astype(float), sb.astype(float)
        if sb.ndim == 0 and sa.size == 1:
            sa = sa.reshape(())
        if sa.shape != sb.shape and sb.ndim:
            self._fail(label, 'shape %s instead of %s' % (sa.shape, sb.shape), 1)
            return
        sb = np.broadcast_to(sb, sa.shape)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            d = np.abs(sa - sb)
            same = (sa == sb) | (np.isnan(sa) & np.isnan(sb))
            bad = ~same & ~(d <= max(tol / 2, 1e-9) * (1 + np.abs(sb))) if tol >= 0 else ~same
        if bad.any():
            m = np.where(bad, d / (1 + np.abs(sb)), 0)
            m = np.where(np.isfinite(m), m, 1e9)
            if tol < 0:
                m = np.maximum(m, 1)
            self._fail(label, '%s instead of %s' % (_fmt(sa), _fmt(sb)), m.max())

    def true(self, label, c, why=''):
        self.ran += 1
        if isinstance(c, np.ndarray):
            c = c.all()
        if not c:
            self._fail(label, why, 1)

    def le(self, label, a, b, tol=1e-6):
        self.ran += 1
        a, b = np.broadcast_arrays(np.asarray(a, dtype=float), np.asarray(b, dtype=float))
        bad = ~(a <= b + max(tol / 2, 1e-9) * (1 + np.abs(b)))
        if bad.any():
            m = np.where(bad, a - b, 0)
            self._fail(label, '%s > %s' % (_fmt(a), _fmt(b)), np.nan_to_num(m, nan=1e9).max())

    def fail(self, label, why=''):
        self._fail(label, why, 1)


_GRID = {}


def _grid(n):
    if n not in _GRID:
        k = {2: 400, 3: 40, 4: 16}.get(n, 8)
        pts = []

        def rec(pre, left, m):
            if m == 1:
                pts.append(tuple(pre + [left / k]))
                return
            for i in range(left + 1):
                rec(pre + [i / k], left - i, m - 1)
        rec([], k, n)
        _GRID[n] = pts
    return _GRID[n]


def _fmt(a):
    return np.array2string(np.asarray(a), precision=6, threshold=30).replace('\n', ' ')


class ScriptedRS(np.random.RandomState):
    """replays the draws of a symbolic random stream"""

    def __init__(self, tag, env, free=None):
        super().__init__(0)
        self.tag, self.env, self.n, self.log, self.free = tag, env, 0, [], free

    def __deepcopy__(self, memo):
        r = ScriptedRS(self.tag, self.env, self.free)
        r.n = self.n
        return r

    def __reduce__(self):
        raise TypeError('scripted stream')

    def _i(self, lo, hi):
        self.n += 1
        if self.free is not None and self.n not in self.free:
            return stubs.given_draw(self.n, lo, hi)
        v = self.env.int('rs:%s:%d:%d-%d' % (self.tag, self.n, lo, hi), range(lo, hi))
        return min(max(v, lo), hi - 1)

    def _f(self):
        self.n += 1
        return float(self.env.real('rs:%s:%d' % (self.tag, self.n), 0, 1))

    def _arr(self, size, f, dt):
        if size is None:
            return f()
        sh = (int(size),) if np.ndim(size) == 0 else tuple(int(s) for s in size)
        out = np.zeros(sh, dtype=dt)
        for i in np.ndindex(sh):
            out[i] = f()
        return out

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        lo, hi = int(low), int(high)
        if lo >= hi:
            raise ValueError('low >= high')
        r = self._arr(size, lambda: self._i(lo, hi), np.int64)
        self.log.append(('randint', lo, hi, r))
        return r

    def choice(self, a, size=None, replace=True, p=None):
        a = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
        n = len(a)
        if n == 0:
            if size is not None and int(np.prod(size)) == 0:
                return a[:0]
            raise ValueError("'a' cannot be empty unless no samples are taken")
        drawn = []
        entry = ['choice', n, size, p, None]
        self.log.append(entry)

        def one():
            x = self._i(0, n)
            k = 0
            while k < n and ((p is not None and np.asarray(p).reshape(-1)[x] <= 0) or (not replace and x in drawn)):
                x = (x + 1) % n
                k += 1
            drawn.append(x)
            return x
        idx = self._arr(size, one, np.int64)
        entry[4] = a[idx]
        return entry[4]

    def dirichlet(self, alpha, size=None):
        if alpha is None:
            raise TypeError('object of type NoneType has no len()')
        if (np.asarray(alpha) <= 0).any():
            raise ValueError('alpha <= 0')
        k = len(alpha)
        sh = () if size is None else ((int(size),) if np.ndim(size) == 0 else tuple(size))
        out = np.zeros(sh + (k,))
        for i in np.ndindex(sh):
            if self.free is not None and self.n + 1 not in self.free:
                self.n += 1
                out[i] = stubs.given_row(self.n, k)
                continue
            row = np.array([self._f() for _ in range(k)])
            s = row.sum()
            out[i] = row / s if s > 0 else 1.0 / k
        return out

    def rand(self, *sh):
        return self._arr(sh or None, self._f, float)

    def random_sample(self, size=None):
        return self._arr(size, self._f, float)
    random = random_sample

    def uniform(self, low=0.0, high=1.0, size=None):
        return self._arr(size, lambda: low + self._f() * (high - low), float)

    def permutation(self, x):
        n = int(x) if np.ndim(x) == 0 else len(x)
        idx = self.choice(n, n, replace=False)
        return idx if np.ndim(x) == 0 else np.asarray(x)[idx]


# ------------------------------------------------------------------------------------------ robust models
def _atoms(terms, limit=4000):
    """ordering/equality atoms deciding forks and if-then-else terms"""
    seen, out, stack = set(), [], []

    def collect_bool(c):
        k = c.decl().kind()
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES) or (k == z3.Z3_OP_ITE and z3.is_bool(c)) \
                or (k == z3.Z3_OP_EQ and c.num_args() and z3.is_bool(c.arg(0))):
            for x in c.children():
                collect_bool(x)
        elif k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
            if ('a', c.get_id()) not in seen:
                seen.add(('a', c.get_id()))
                out.append(c)
            for x in c.children():
                stack.append(x)
    for c in terms:
        if z3.is_bool(c):
            collect_bool(c)
        else:
            stack.append(c)
    n = 0
    while stack and n < limit:
        t = stack.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        n += 1
        if t.decl().kind() == z3.Z3_OP_ITE:
            collect_bool(t.arg(0))
            stack.append(t.arg(1))
            stack.append(t.arg(2))
        else:
            stack.extend(t.children())
    return out


class Models:
    """model generation for one finished path"""

    def __init__(self, ctx, env, rng):
        self.ctx, self.env, self.rng = ctx, env, rng
        self._atoms = None
        self.ints = {x.get_id() for n, x in ctx.inputs.items() if ctx.domains.get(n, ('r',))[0] != 'r'}

    def margins(self):
        if self._atoms is None:
            terms = list(self.ctx.branches)
            for ch in [c for k in self.env.checks for c in (k.alts or [k])]:
                terms += ch.conds
                for a, b in ch.pairs:
                    terms += [a, b]
            out = []
            for c in _atoms(terms):
                l, r = c.arg(0), c.arg(1)
                if not (l.sort() == z3.RealSort() and r.sort() == z3.RealSort()):
                    continue
                if (l.get_id() in self.ints and z3.is_rational_value(r)) or \
                        (r.get_id() in self.ints and z3.is_rational_value(l)):
                    continue
                if l.get_id() in self.ints and r.get_id() in self.ints:
                    continue
                m = C.z3val(Fraction(1, 2000))
                out.append(z3.Or(l - r > m, r - l > m))
            self._atoms = out[:300]
        return self._atoms

    def over_inputs(self):
        """the path constraints that speak about inputs only (the others define values of functions such as the
        logarithm or the square root, which the real code computes itself)"""
        ctx = self.ctx
        names = set(ctx.inputs)
        memo = {}

        def ok(t):
            i = t.get_id()
            r = memo.get(i)
            if r is None:
                if z3.is_const(t):
                    r = t.decl().kind() != z3.Z3_OP_UNINTERPRETED or str(t) in names
                else:
                    r = all(ok(c) for c in t.children())
                memo[i] = r
            return r
        return [c for c in ctx.pc if ok(c)], ok

    def get(self, extra, robust=True, diverse=False, timeout=4000, relax=False):
        """(values, is_robust) or None"""
        ctx = self.ctx
        s = z3.Solver()
        s.set('timeout', timeout)
        s.set('random_seed', self.rng.randrange(1 << 16))
        marg = None
        if relax:
            pc, ok = self.over_inputs()
            s.add(*pc)
            marg = [m for m in self.margins() if ok(m)]
        else:
            s.add(*ctx.pc)
        s.add(*extra)
        assum = []
        if robust:
            for i, m in enumerate(self.margins() if marg is None else marg):
                b = z3.Bool('rob!%d' % i)
                s.add(z3.Implies(b, m))
                assum.append(b)
        nrob = len(assum)
        div = []
        if diverse:
            for n, x in ctx.inputs.items():
                d = ctx.domains.get(n)
                if d is None:
                    continue
                b = z3.Bool('div!' + n)
                if d[0] == 'r':
                    lo = 0.0 if d[1] is None else float(d[1])
                    hi = lo + 1 if d[2] is None else float(d[2])
                    c = lo + (hi - lo) * self.rng.random()
                    w = (hi - lo) * 0.15
                    s.add(z3.Implies(b, z3.And(x > C.z3val(C.f2q(round(c - w, 3))), x < C.z3val(C.f2q(round(c + w, 3))))))
                elif d[0] == 'i':
                    s.add(z3.Implies(b, x == self.rng.choice(d[1])))
                else:
                    s.add(z3.Implies(b, x == z3.BoolVal(self.rng.random() < .5)))
                div.append(b)
            self.rng.shuffle(div)
            div = div[:12]
        dropped = 0
        t0 = time.time()
        for _ in range(12):
            if ctx.deadline and time.time() > ctx.deadline:
                return None
            t = time.time()
            r = s.check(*(assum + div))
            ctx.stats['queries'] += 1
            ctx.stats['solver_s'] += time.time() - t
            if r == z3.sat:
                return self.values(s.model()), dropped == 0 and robust
            if time.time() - t0 > timeout / 1000 * 3:
                return None
            if r == z3.unsat:
                core = {str(c) for c in s.unsat_core()}
                dc = [c for c in div if str(c) in core]
                if dc:
                    div = [c for c in div if str(c) not in core]
                    continue
                rc = [c for c in assum if str(c) in core]
                if not rc:
                    return None
                dropped += len(rc)
                assum = [c for c in assum if str(c) not in core]
            else:
                if div:
                    div = div[:len(div) // 2]
                    continue
                if assum:
                    dropped += len(assum)
                    assum = []
                    continue
                # nonlinear arithmetic tactic
                r2, m = ctx.solve(list(extra), timeout=timeout, tactics=('nra',))
                if r2 == z3.sat:
                    return self.values(m), False
                return None
        return None

    def values(self, m):
        out = {}
        for n, x in self.ctx.inputs.items():
            q = C.q_of(m.eval(x, model_completion=True))
            out[n] = 0 if q is None else q
        return out


# ------------------------------------------------------------------------------------------ running one job
class Alarm(BaseException):
    pass


def _on_alarm(*a):
    raise Alarm()


class Hang(BaseException):
    """the real code does not come back"""


def _on_prof(*a):
    raise Hang()


# processor seconds of one replay (replays take well under one second)
HANG = 8


def run_concrete(job, values, seed=0, limit=20):
    """replay on the real package: (failures, error, number of checks run)"""
    e = ConcEnv(values, seed)
    np.random.seed(seed)
    old = signal.signal(signal.SIGALRM, _on_alarm)
    signal.setitimer(signal.ITIMER_REAL, limit)
    prof = signal.signal(signal.SIGPROF, _on_prof)
    signal.setitimer(signal.ITIMER_PROF, HANG)
    e.hung = False
    try:
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with np.errstate(all='ignore'):
                job.fn(e, **job.cfg)
        err = None
    except Alarm:
        err = None
        e.failures = []
        e.timeout = True
    except Hang:
        e.failures = []
        e.hung = True
        err = 'the call does not come back (stopped after %d s of processor time)' % HANG
    except Reject:
        err = None
    except (PathAbort,):
        err = None
    except Exception as ex:
        err = '%s: %s' % (type(ex).__name__, ex)
        e.tb = traceback.format_exc(limit=-6)
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, prof)
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)
    return e.failures, err, e


class Quiet:
    def __enter__(self):
        self.o = sys.stdout
        sys.stdout = open(os.devnull, 'w')

    def __exit__(self, *a):
        sys.stdout.close()
        sys.stdout = self.o


def preimport():
    """import the real package before the workers are forked"""
    loader.import_real('')
    import sklearn.linear_model, scipy.stats, scipy.linalg, cvxpy, quadprog, joblib, statsmodels.api, matplotlib.pyplot
    for root, ds, fs in os.walk(os.path.join(loader.REPO, loader.PKG)):
        for f in sorted(fs):
            if f.endswith('.py') and f != 'cvxpy_installed_solvers.py':
                n = os.path.relpath(os.path.join(root, f), os.path.join(loader.REPO, loader.PKG))[:-3].replace(os.sep, '.')
                if n.endswith('__init__'):
                    n = n[:-8].rstrip('.')
                loader.import_real(n)


def run_job(job, deadline, seed=1):
    """decide one harness configuration; returns a plain dict"""
    rng = random.Random('%s/%s' % (seed, job.name))
    limit = max(2.0, deadline - time.time())
    ctx = C.Ctx(feas_timeout=job.opts.get('feas_timeout', 1500), check_timeout=job.opts.get('check_timeout', 15000),
                deadline=time.time() + limit * 0.85, max_paths=job.opts.get('max_paths', 4000))
    res = dict(job=job.name, obligations=0, discharged=0, by_solver=0, within_tol=0, unknown=[], unsupported=[],
               violations=[], replays=0, agree=0, mismatches=[], paths=0, complete=False, witnesses=[], exceptions=[])
    st = dict(wit=0, viol_labels=set(), unk=0, confirm=1.5)
    max_wit = job.opts.get('witnesses', 4)
    loader.trace_reached()

    def candidate(values, robust, label, symbolic, source):
        """replay; records a violation when the real code reproduces one"""
        with Quiet():
            fails, err, ce = run_concrete(job, values, seed=rng.randrange(1 << 20))
        res['replays'] += 1
        if not fails and err is None:
            res['agree'] += 1
            return False
        if getattr(ce, 'timeout', False):
            return False
        v = dict(job=job.name, label=label, symbolic=symbolic, robust=robust, source=source,
                 failures=[list(f) for f in fails[:6]], error=err, values={k: str(x) for k, x in ce.used.items()},
                 trace=getattr(ce, 'tb', None))
        big = err is not None or max([f[2] for f in fails] + [0]) > 1e-3
        ok = symbolic or (robust and big) or ce.hung
        if ok and symbolic and not robust and label is not None and err is None:
            # a tie-valued counterexample must fail the very obligation the solver refuted
            ok = any(f[0] == label or label.startswith(f[0] + ': ') for f in fails) or big and robust
        if ok:
            res['violations'].append(v)
            return True
        res['mismatches'].append(v)
        return False

    def body():
        env = SymEnv(ctx)
        exc = None
        unsup = None
        try:
            with Quiet():
                job.fn(env, **job.cfg)
        except PathAbort:
            return
        except Unsupported as ex:
            unsup = str(ex)
        except (Budget, Alarm):
            raise Budget('deadline')
        except RecursionError as ex:
            unsup = 'recursion'
        except Exception as ex:
            tb = traceback.extract_tb(ex.__traceback__)
            last = [f for f in tb][-1]
            where = '%s:%d' % (os.path.basename(last.filename), last.lineno)
            exc = '%s: %s (%s)' % (type(ex).__name__, str(ex)[:200], where)
        if ctx.poison and unsup is None:
            unsup = ctx.poison
        mod = Models(ctx, env, rng)
        if unsup is not None:
            if len(res['unsupported']) < 20 and unsup not in res['unsupported']:
                res['unsupported'].append(unsup)
            st['unk'] += 1
            if st['unk'] <= job.opts.get('unsup_replays', 6):
                for k in range(6):
                    got = mod.get([], diverse=True, relax=k % 2 == 0, timeout=1500)
                    if got and candidate(got[0], got[1], None, False, 'unsupported path'):
                        break
        else:
            pass
        settle(env, mod, exc, unsup)

    def settle(env, mod, exc, unsup):
        res['obligations'] += len(env.checks) + (1 if unsup is None else 0)
        if exc is not None:
            got = mod.get([], robust=True) or mod.get([], robust=False)
            found = False
            if got:
                found = candidate(got[0], got[1], 'exception', True, 'exception ' + exc)
                for k in range(3):
                    if found:
                        break
                    got = mod.get([], diverse=True)
                    found = bool(got) and candidate(got[0], got[1], 'exception', True, 'exception ' + exc)
            if not found:
                if len(res['exceptions']) < 10:
                    res['exceptions'].append(exc)
                st['unk'] += 1
        elif unsup is None:
            res['discharged'] += 1       # the path ends without an error
        todo, settled = [], []
        for ch in env.checks:
            v = ch.viol(0)
            if v is not False and not ch.failed and 'feasible set' in ch.label and not isinstance(v, bool):
                # usually valid on its own: do not load the path condition
                fs = z3.Solver()
                fs.set('timeout', 1000)
                fs.add(v)
                if fs.check() == z3.unsat:
                    res['by_solver'] += 1
                    v = False
            if v is False:
                res['discharged'] += 1
                if ch.settled:
                    settled.append(ch)
            else:
                todo.append(ch)
        # settled by exact normalisation: the solver's verdict on the same statements
        for group in ([settled] if len(settled) < 8 else [settled[:len(settled) // 2], settled[len(settled) // 2:]]):
            if group and st['confirm'] > 0:
                t1 = time.time()
                r, _ = ctx.solve([z3.Or([c for ch in group for c in ch.settled])], timeout=700, tactics=('smt',))
                if r == z3.unsat:
                    res['by_solver'] += len(group)
                else:
                    st['confirm'] -= time.time() - t1
        if todo and not any(ch.failed for ch in todo):
            r, _ = ctx.solve([z3.Or([ch.viol(0) for ch in todo])], timeout=min(4000, ctx.check_timeout), tactics=('smt',))
            if r == z3.unsat:
                res['discharged'] += len(todo)
                res['by_solver'] += len(todo)
                todo = []
        for ch in todo:
            decide(ch, mod)
        # a witness of the path, replayed on the real package
        if st['wit'] < max_wit or (st['wit'] < 3 * max_wit and rng.random() < 0.1):
            st['wit'] += 1
            got = mod.get([], robust=True, diverse=st['wit'] > 1, relax=True, timeout=2000)
            if got is None:
                got = mod.get([], robust=False, relax=True, timeout=2000)
            if got:
                n = len(res['violations'])
                candidate(got[0], got[1], None, False, 'witness')
                if len(res['witnesses']) < 3:
                    res['witnesses'].append({k: str(v) for k, v in list(got[0].items())[:24]})
        if len(res['violations']) >= 2:
            raise Budget('enough violations')

    def decide(ch, mod):
        lab = ch.label
        if ch.failed:
            r = z3.sat
            extra0 = []
        else:
            r, m0 = ctx.solve([ch.viol(0)])
            extra0 = [ch.viol(0)]
        if r == z3.unsat:
            res['discharged'] += 1
            res['by_solver'] += 1
            return
        if sum(1 for l in st['viol_labels'] if l == lab) and len(res['violations']) >= 1:
            return
        if r == z3.sat:
            found = False
            slack_unsat = False
            if not ch.failed and (ch.pairs or ch.conds or ch.alts):
                for s in SLACKS:
                    got = mod.get([ch.viol(s)], robust=True)
                    if got:
                        found = candidate(got[0], got[1], lab, True, 'counterexample') 
                        if found:
                            break
                if not found:
                    tol = Fraction(ch.tol if ch.tol and ch.tol > 0 else 1e-6)
                    if ch.tol and ch.tol > 0:
                        r2, _ = ctx.solve([ch.viol(tol)])
                        if r2 == z3.unsat:
                            res['discharged'] += 1
                            res['within_tol'] += 1
                            res['by_solver'] += 1
                            return
            if not found:
                got = mod.get(extra0, robust=True)
                found = bool(got) and candidate(got[0], got[1], lab, True, 'counterexample')
            k = 0
            while not found and k < job.opts.get('diverse', 8):
                k += 1
                ex = [ch.viol(SLACKS[k % len(SLACKS)])] if not ch.failed and k % 2 else extra0
                got = mod.get(ex, robust=bool(k % 3), diverse=True)
                found = bool(got) and candidate(got[0], got[1], lab, True, 'counterexample')
            if found:
                st['viol_labels'].add(lab)
                return
            if len(res['unknown']) < 20:
                res['unknown'].append(lab + ': counterexample of the encoding not reproduced by the code' + (' (%s)' % ch.why if ch.why else ''))
        else:
            ctx.stats['unknown'] += 1
            # the solver gives no answer: look for a concrete counterexample among solver-chosen inputs
            found = False
            for k in range(job.opts.get('unknown_models', 6)):
                ex = []
                got = mod.get(ex, diverse=True, timeout=2500, relax=k % 2 == 0)
                if got and candidate(got[0], got[1], lab, False, 'solver-chosen input'):
                    found = True
                    break
            if len(res['unknown']) < 20:
                res['unknown'].append(lab + ': no answer within the time limit')

    signal.signal(signal.SIGALRM, _on_alarm)
    t0 = time.time()
    try:
        res['complete'] = C.explore(ctx, body)
    except (Budget, Alarm):
        res['complete'] = False
    res['paths'] = ctx.stats['paths']
    res['stats'] = {k: (round(v, 3) if isinstance(v, float) else v) for k, v in ctx.stats.items()}
    # a job cut short: replay some inputs on the real code before giving up on the rest
    if not res['complete'] and not res['violations']:
        for k in range(job.opts.get('cut_models', 10)):
            if k and time.time() > deadline - 1:
                break
            vals = dict()
            if candidate(vals, False, None, False, 'seeded'):
                break
    res['wall'] = round(time.time() - t0, 2)
    res['reached'] = sorted('%s:%s' % r for r in loader.REACHED)
    return res
