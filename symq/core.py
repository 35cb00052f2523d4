"""Path-forking symbolic execution core: exact-real scalars over z3 terms.

A value is either concrete (bool, int, Fraction, or a float inf/nan) or a z3 term of sort Real or
Bool.  `bool()` of a symbolic condition forks the execution (depth-first re-execution with decision
prefixes; infeasible sides are pruned by the solver).
"""
import math
import os
import sys
import time
from fractions import Fraction

_VT = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
if _VT not in sys.path:
    sys.path.append(_VT)
import z3  # noqa: E402
from . import poly  # noqa: E402
import numpy as np  # noqa: E402

INF = float('inf')
NAN = float('nan')


class Unsupported(BaseException):
    """The encoding does not cover an operation the code under test performed."""

    def __init__(self, *a):
        BaseException.__init__(self, *a)
        if CTX is not None and CTX.poison is None:
            CTX.poison = str(a[0]) if a else 'unsupported'


class PathAbort(BaseException):
    """This path is infeasible or out of the stated bounds."""


class Budget(BaseException):
    """Time or path budget of the job is spent."""


def f2q(x):
    """A python/numpy float as the simplest rational next to it (decimal literals stay decimal)."""
    x = float(x)
    if math.isnan(x) or math.isinf(x):
        return x
    if x == int(x) and abs(x) < 1e15:
        return int(x)
    q = Fraction(x)
    s = q.limit_denominator(10 ** 7)
    if s != 0 and abs(s - q) <= abs(q) / 10 ** 15:
        return s
    try:
        d = Fraction(repr(x))        # the decimal a human wrote (1e-12, 1e-20, 0.0001 ...)
        return d
    except Exception:
        return q


def z3val(q):
    if isinstance(q, bool):
        return z3.BoolVal(q)
    if isinstance(q, int):
        return z3.RealVal(q)
    return z3.RealVal(str(q.numerator) + '/' + str(q.denominator))


def isz(v):
    return isinstance(v, z3.ExprRef)


def isspecial(v):
    return isinstance(v, float)


# --------------------------------------------------------------------------- context
class Ctx:
    """One job: explores all paths of one harness configuration."""

    def __init__(self, feas_timeout=1500, check_timeout=15000, deadline=None, max_paths=2000):
        self.feas_timeout = feas_timeout
        self.check_timeout = check_timeout
        self.deadline = deadline
        self.max_paths = max_paths
        self.stats = dict(queries=0, solver_s=0.0, paths=0, unknown=0, feas_unknown=0, forks=0)
        self.reset([])

    def reset(self, prefix):
        self.prefix = list(prefix)
        self.pos = 0
        self.decisions = []      # (choice, n_alternatives_left list)
        self.pc = []
        self.branches = []       # the conditions decided by forks (a subset of pc)
        self.axioms = []
        self.solver = z3.Solver()
        self.solver.set('timeout', self.feas_timeout)
        self.nfresh = 0
        self.inputs = {}         # name -> z3 const
        self.box = {}            # id of a real input -> bounds
        self.finite = {}         # id of an input with finitely many values -> values
        self.domains = {}        # name -> ('r', lo, hi) / ('i', values) / ('b',)
        self.cache = {}
        self.algebraic = {}      # id of a root of a constant -> (term, lower, upper)
        self.poison = None
        self.nonneg = set()
        self.positive = set()
        self.signs = {}
        self.lb = {}
        self.steps = 0
        self.nonlinear = False

    # -- solver
    def tick(self):
        self.steps += 1
        if self.deadline is not None and time.time() > self.deadline:
            self.poison = 'budget'
            raise Budget('deadline')

    def assume(self, c):
        if isinstance(c, SNum):
            c = c.v
        if c is True or (isinstance(c, (bool, np.bool_)) and c):
            return
        if isinstance(c, (bool, np.bool_)):
            raise PathAbort('assume false')
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if z3.is_false(c):
            raise PathAbort('assume false')
        self.pc.append(c)
        self.solver.add(c)

    def _check(self, extra, timeout=None):
        self.stats['queries'] += 1
        t = time.time()
        if timeout:
            self.solver.set('timeout', timeout)
        r = self.solver.check(*extra)
        if timeout:
            self.solver.set('timeout', self.feas_timeout)
        self.stats['solver_s'] += time.time() - t
        return r

    def feasible(self, c):
        self.tick()
        r = self._check([c])
        if r == z3.unknown:
            r, _ = self.solve([c], timeout=self.feas_timeout, tactics=('nra',))
        if r == z3.unknown:
            self.stats['feas_unknown'] += 1
        return r != z3.unsat

    def solve(self, extra, timeout=None, tactics=('smt', 'nra')):
        """(result, model) of path condition + extra, with fresh non-incremental solvers."""
        timeout = timeout or self.check_timeout
        if self.deadline is not None:
            timeout = max(100, min(timeout, int((self.deadline - time.time()) * 1000)))
        r = z3.unknown
        for t in tactics:
            if t == 'nra':
                s = z3.SolverFor('QF_NRA')
            elif t == 'inc':
                s = self.solver
            else:
                s = z3.Solver()
            s.set('timeout', timeout)
            if t != 'inc':
                s.add(*self.pc)
            self.stats['queries'] += 1
            t0 = time.time()
            try:
                r = s.check(*extra) if t == 'inc' else (s.add(*extra), s.check())[1]
            except z3.Z3Exception:
                r = z3.unknown
            self.stats['solver_s'] += time.time() - t0
            if r == z3.sat:
                return r, s.model()
            if r == z3.unsat:
                return r, None
        return r, None

    # -- branching
    def choose(self, alternatives):
        """Fork over a list of (label, z3 condition); returns the label taken on this path."""
        if self.pos < len(self.prefix):
            i = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append((i, []))
            lab, c = alternatives[i]
            self.pc.append(c)
            self.branches.append(c)
            self.solver.add(c)
            return lab
        feas = [i for i, (lab, c) in enumerate(alternatives) if self.feasible(c)]
        if not feas:
            raise PathAbort('no feasible alternative')
        i, rest = feas[0], feas[1:]
        if rest:
            self.stats['forks'] += 1
        self.pos += 1
        self.decisions.append((i, rest))
        lab, c = alternatives[i]
        self.pc.append(c)
        self.branches.append(c)
        self.solver.add(c)
        return lab

    def branch(self, c):
        if isinstance(c, (bool, np.bool_)):
            return bool(c)
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        key = ('br', c.get_id())
        hit = self.cache.get(key)
        if hit is not None:
            return hit[0]
        if self.algebraic:
            r = decided(c)
            if r is not None:
                self.cache[key] = (r, c)
                return r
        r = self.choose([(True, c), (False, z3.Not(c))])
        self.cache[key] = (r, c)
        return r

    def enum_value(self, v, limit=64):
        """Fork over every feasible value of term v (must be finitely many, at most `limit`)."""
        v = z3.simplify(v)
        if z3.is_rational_value(v):
            return q_of(v)
        key = ('ev', v.get_id())
        hit = self.cache.get(key)
        if hit is not None:
            return hit[0]
        if self.pos < len(self.prefix):
            val = self.prefix[self.pos]
            self.pos += 1
            self.decisions.append((val, []))
        else:
            vals = []
            block = []
            while True:
                self.tick()
                r, m = self.solve(block, timeout=self.feas_timeout)
                if r == z3.unsat:
                    break
                if r == z3.unknown:
                    raise Unsupported('cannot enumerate the values of a term')
                q = q_of(m.eval(v, model_completion=True))
                if q is None:
                    raise Unsupported('irrational value while enumerating')
                vals.append(q)
                block.append(v != z3val(q))
                if len(vals) > limit:
                    raise Unsupported('more than %d values for an index' % limit)
            if not vals:
                raise PathAbort('no value')
            vals.sort()
            if len(vals) > 1:
                self.stats['forks'] += 1
            val = vals[0]
            self.pos += 1
            self.decisions.append((val, vals[1:]))
        c = v == z3val(val)
        self.pc.append(c)
        self.branches.append(c)
        self.solver.add(c)
        self.cache[key] = (val, v)
        return val

    def next_prefix(self):
        d = [x for x in self.decisions]
        while d:
            ch, rest = d[-1]
            if rest:
                return [x[0] for x in d[:-1]] + [rest[0]], (len(d) - 1, rest[1:])
            d.pop()
        return None

    # -- symbols
    def fresh(self, base='t', sort=None):
        self.nfresh += 1
        name = '%s!%d' % (base, self.nfresh)
        return z3.Real(name) if sort is None else z3.Const(name, sort)

    def real(self, name, lo=None, hi=None, lo_strict=False, hi_strict=False):
        if name in self.inputs:
            return SNum(self.inputs[name])
        x = z3.Real(name)
        self.inputs[name] = x
        self.domains[name] = ('r', lo, hi)
        self.box[x.get_id()] = (None if lo is None else f2q(lo), None if hi is None else f2q(hi))
        if lo is not None:
            self.assume(x > z3val(f2q(lo)) if lo_strict else x >= z3val(f2q(lo)))
            if lo > 0 or (lo_strict and lo >= 0):
                self.positive.add(x.get_id())
            if lo >= 0:
                self.nonneg.add(x.get_id())
        if hi is not None:
            self.assume(x < z3val(f2q(hi)) if hi_strict else x <= z3val(f2q(hi)))
        return SNum(x)

    def intvar(self, name, values):
        if name in self.inputs:
            return SNum(self.inputs[name], 'i')
        x = z3.Real(name)
        self.inputs[name] = x
        values = [int(v) for v in values]
        self.domains[name] = ('i', values)
        self.finite[x.get_id()] = list(dict.fromkeys(values))
        if min(values) >= 0:
            self.nonneg.add(x.get_id())
        self.assume(z3.Or([x == v for v in values]))
        return SNum(x, 'i')

    def boolvar(self, name):
        if name in self.inputs:
            return SNum(self.inputs[name], 'b')
        x = z3.Bool(name)
        self.inputs[name] = x
        self.domains[name] = ('b',)
        return SNum(x, 'b')


CTX = None


def set_ctx(c):
    global CTX
    CTX = c


def ctx():
    return CTX


def q_of(t):
    """python value of a z3 numeral (int/Fraction), approximating algebraic numbers."""
    if z3.is_rational_value(t):
        n, d = t.numerator_as_long(), t.denominator_as_long()
        return n if d == 1 else Fraction(n, d)
    if z3.is_int_value(t):
        return t.as_long()
    if z3.is_algebraic_value(t):
        return q_of(t.approx(25))
    if z3.is_true(t):
        return True
    if z3.is_false(t):
        return False
    return None


def explore(c, body):
    """Depth-first exploration. body() runs one path, and yields nothing; exceptions handled by it."""
    set_ctx(c)
    stack = []      # per decision: remaining alternatives
    prefix = []
    done = True
    while True:
        c.reset(prefix)
        c.rest_prefix = stack
        try:
            body()
        except Budget:
            done = False
            break
        c.stats['paths'] += 1
        # merge remaining alternatives
        dec = []
        for i, (ch, rest) in enumerate(c.decisions):
            if i < len(prefix):
                rest = stack[i]
            dec.append((ch, list(rest)))
        while dec and not dec[-1][1]:
            dec.pop()
        if not dec:
            break
        ch, rest = dec[-1]
        dec[-1] = (rest[0], rest[1:])
        prefix = [x[0] for x in dec]
        stack = [x[1] for x in dec]
        if c.stats['paths'] >= c.max_paths or (c.deadline and time.time() > c.deadline):
            done = False
            break
    return done


# --------------------------------------------------------------------------- raw operations
def rawv(x):
    """python/numpy/SNum -> raw value"""
    t = type(x)
    if t is SNum:
        return x.v
    if t is int or t is bool or t is Fraction:
        return x
    if t is float:
        return f2q(x)
    if isinstance(x, (np.bool_,)):
        return bool(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, np.floating):
        return f2q(x)
    if isinstance(x, z3.ExprRef):
        return x
    if isinstance(x, SNum):
        return x.v
    if isinstance(x, np.ndarray) and x.size == 1:
        return rawv(x.reshape(-1)[0])
    if isinstance(x, (int, float)):
        return rawv(float(x)) if isinstance(x, float) else int(x)
    return NotImplemented


def numz(v):
    """raw value -> z3 Real term"""
    if isz(v):
        if z3.is_bool(v):
            return z3.If(v, z3.RealVal(1), z3.RealVal(0))
        return v
    if isinstance(v, bool):
        return z3.RealVal(int(v))
    return z3val(v)


def kind_of(x):
    if isinstance(x, SNum):
        return x.k
    if isinstance(x, (bool, np.bool_)):
        return 'b'
    if isinstance(x, (int, np.integer)):
        return 'i'
    return 'f'


def _norm(q):
    if isinstance(q, Fraction):
        if q.denominator == 1:
            return q.numerator
        if q.denominator.bit_length() > 400:
            return q.limit_denominator(1 << 200)
    return q


def mk(v, k='f'):
    return SNum(v, k)


def sgn_special(v):
    """sign of a concrete or symbolic finite raw value, forking if needed: -1, 0, 1"""
    if isz(v):
        v = numz(v)
        if CTX.branch(v > 0):
            return 1
        if CTX.branch(v < 0):
            return -1
        return 0
    return (v > 0) - (v < 0)


def radd(a, b):
    if isz(a) or isz(b):
        if isspecial(a):
            return a
        if isspecial(b):
            return b
        if not isz(a) and a == 0:
            return numz(b)
        if not isz(b) and b == 0:
            return numz(a)
        return numz(a) + numz(b)
    return _norm(a + b) if not (isspecial(a) or isspecial(b)) else _fl(a) + _fl(b)


def _fl(x):
    return float(x)


def rneg(a):
    if isz(a):
        return -numz(a)
    return -a


def rsub(a, b):
    if isz(a) or isz(b):
        if isspecial(a):
            return a
        if isspecial(b):
            return -b
        if not isz(b) and b == 0:
            return numz(a)
        a, b = numz(a), numz(b)
        if a.eq(b):
            return 0
        return a - b
    return _norm(a - b) if not (isspecial(a) or isspecial(b)) else _fl(a) - _fl(b)


def rmul(a, b):
    if isz(a) or isz(b):
        if isspecial(a) or isspecial(b):
            s, o = (a, b) if isspecial(a) else (b, a)
            if math.isnan(s):
                return NAN
            g = sgn_special(o)
            return NAN if g == 0 else s * g
        for s, o in ((a, b), (b, a)):
            if not isz(s):
                if s == 0:
                    return 0
                if s == 1 and not isinstance(s, bool):
                    return numz(o)
        if isz(a) and z3.is_bool(a):
            return z3.If(a, numz(b), z3.RealVal(0))
        if isz(b) and z3.is_bool(b):
            return z3.If(b, numz(a), z3.RealVal(0))
        # a 0/1-valued If times something: push the product in, keeps counting linear
        for s, o in ((a, b), (b, a)):
            if isz(s) and z3.is_app_of(s, z3.Z3_OP_ITE):
                t, e = s.arg(1), s.arg(2)
                if z3.is_rational_value(t) and z3.is_rational_value(e):
                    return z3.If(s.arg(0), numz(rmul(q_of(t), o)), numz(rmul(q_of(e), o)))
        return numz(a) * numz(b)
    if isspecial(a) or isspecial(b):
        return _fl(a) * _fl(b)
    return _norm(a * b)


def rdiv(a, b):
    if isspecial(a) or isspecial(b):
        if isspecial(b):
            if isspecial(a) or math.isnan(b):
                return NAN
            return 0
        if math.isnan(a):
            return NAN
        g = sgn_special(b)
        return a if g >= 0 else -a
    if isz(b):
        b = numz(b)
        bs = z3.simplify(b)
        if z3.is_rational_value(bs):
            return rdiv(a, q_of(bs))
        if not is_pos_term(b) and not is_pos_term(bs) and CTX.branch(bs == 0):
            return rdiv(a, 0)
        if not isz(a) and a == 0:
            return 0
        return numz(a) / b
    b = int(b) if isinstance(b, bool) else b
    if b == 0:
        g = sgn_special(a)
        return NAN if g == 0 else (INF if g > 0 else -INF)
    if isz(a):
        return numz(a) * z3val(Fraction(1) / b) if b != 1 else numz(a)
    return _norm(Fraction(a) / b)


def rcmp(op, a, b):
    """returns python bool or z3 Bool"""
    if isspecial(a) or isspecial(b):
        if isspecial(a) and math.isnan(a) or isspecial(b) and math.isnan(b):
            return op == 'ne'
        fa = a if isspecial(a) else 0.0
        fb = b if isspecial(b) else 0.0
        return {'lt': fa < fb, 'le': fa <= fb, 'gt': fa > fb, 'ge': fa >= fb,
                'eq': fa == fb if isspecial(a) and isspecial(b) else False,
                'ne': fa != fb if isspecial(a) and isspecial(b) else True}[op]
    if isz(a) or isz(b):
        if op in ('eq', 'ne') and (isz(a) and z3.is_bool(a) or isinstance(a, bool)) and \
                (isz(b) and z3.is_bool(b) or isinstance(b, bool)):
            a = a if isz(a) else z3.BoolVal(a)
            b = b if isz(b) else z3.BoolVal(b)
            r = a == b
        else:
            # ite with constant branches against a constant: resolve to a boolean combination
            if isz(a) and not isz(b):
                r = _cmp_ite(op, a, b)
                if r is not None:
                    return r
            a, b = numz(a), numz(b)
            r = {'lt': lambda: a < b, 'le': lambda: a <= b, 'gt': lambda: a > b,
                 'ge': lambda: a >= b, 'eq': lambda: a == b, 'ne': lambda: a != b}[op]()
            if op == 'ne':
                r = z3.Not(a == b)
            return _sb(r)
        return _sb(z3.Not(r) if op == 'ne' else r)
    return {'lt': lambda: a < b, 'le': lambda: a <= b, 'gt': lambda: a > b, 'ge': lambda: a >= b,
            'eq': lambda: a == b, 'ne': lambda: a != b}[op]()


def _cmp_ite(op, a, b):
    if z3.is_bool(a):
        t, f = rcmp(op, 1, b), rcmp(op, 0, b)
        if t and f:
            return True
        if not t and not f:
            return False
        return a if t else z3.Not(a)
    return None


def _sb(r):
    s = z3.simplify(r)
    if z3.is_true(s):
        return True
    if z3.is_false(s):
        return False
    return s


def tobool(v):
    """raw -> python bool or z3 Bool (truthiness)"""
    if isz(v):
        if z3.is_bool(v):
            return v
        return rcmp('ne', v, 0)
    if isspecial(v):
        return True
    return bool(v)


def rnot(v):
    v = tobool(v)
    if isz(v):
        return z3.Not(v)
    return not v


def rand_(a, b):
    a, b = tobool(a), tobool(b)
    if a is False or b is False:
        return False
    if a is True:
        return b
    if b is True:
        return a
    return z3.And(a, b)


def ror_(a, b):
    a, b = tobool(a), tobool(b)
    if a is True or b is True:
        return True
    if a is False:
        return b
    if b is False:
        return a
    return z3.Or(a, b)


def rand_all(vs):
    out = []
    for v in vs:
        v = tobool(v)
        if v is False:
            return False
        if v is not True:
            out.append(v)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(out)


def ror_all(vs):
    return rnot(rand_all([rnot(v) for v in vs]))


def rite(c, a, b):
    """raw if-then-else; forks when a side is not representable as a term"""
    c = tobool(c)
    if not isz(c):
        return a if c else b
    if isz(a) and isz(b) and a.eq(b):
        return a
    if not isz(a) and not isz(b) and type(a) is type(b) and a == b:
        return a
    bad = (isspecial(a) or isspecial(b) or not isinstance(a, (int, bool, Fraction, z3.ExprRef))
           or not isinstance(b, (int, bool, Fraction, z3.ExprRef)))
    if bad:
        return a if CTX.branch(c) else b
    isb = lambda v: isinstance(v, bool) or (isz(v) and z3.is_bool(v))
    if isb(a) and isb(b):
        a = a if isz(a) else z3.BoolVal(a)
        b = b if isz(b) else z3.BoolVal(b)
        return z3.If(c, a, b)
    return z3.If(c, numz(a), numz(b))


def is_nonneg_term(t, depth=0):
    """cheap syntactic test that a term is >= 0"""
    return sign_term(t) >= 1


def is_pos_term(t):
    return sign_term(t) == 2


def sign_term(t, depth=0):
    """2: the term is > 0, 1: it is >= 0, 0: not known (syntactic)"""
    if z3.is_rational_value(t):
        n = t.numerator_as_long()
        return 2 if n > 0 else 1 if n == 0 else 0
    i = t.get_id()
    if i in CTX.positive:
        return 2
    known = 1 if i in CTX.nonneg else 0
    if depth > 200:
        return known
    hit = CTX.signs.get(i)
    if hit is not None and hit[1] >= known:
        return hit[1]
    r = max(known, _sign(t, depth + 1))
    CTX.signs[i] = (t, r)
    return r


def _sign(t, depth):
    k = t.decl().kind()
    if k == z3.Z3_OP_ADD:
        s = [sign_term(c, depth) for c in t.children()]
        return 0 if 0 in s else 2 if 2 in s else 1
    if k == z3.Z3_OP_MUL:
        rest = []
        square = False
        for c in t.children():
            hit = [r for r in rest if r.eq(c)]
            if hit:
                rest.remove(hit[0])
                square = square or sign_term(c, depth) < 2
            else:
                rest.append(c)
        s = [sign_term(c, depth) for c in rest]
        return 0 if 0 in s else 1 if 1 in s or square else 2
    if k == z3.Z3_OP_ITE:
        return min(sign_term(t.arg(1), depth), sign_term(t.arg(2), depth))
    if k == z3.Z3_OP_DIV:
        # the caller has excluded a zero denominator
        a, b = sign_term(t.arg(0), depth), sign_term(t.arg(1), depth)
        return 0 if not a or not b else 2 if a == b == 2 else 1
    if k == z3.Z3_OP_POWER:
        e = t.arg(1)
        if z3.is_rational_value(e) and e.denominator_as_long() == 1 and e.numerator_as_long() >= 0:
            b = sign_term(t.arg(0), depth)
            return 2 if b == 2 else 1 if b or e.numerator_as_long() % 2 == 0 else 0
    return 0


def rabs(a):
    if isz(a):
        a = numz(a)
        if is_nonneg_term(a):
            return a
        r = z3.If(a >= 0, a, -a)
        CTX.nonneg.add(r.get_id())
        CTX.cache[('keep', r.get_id())] = r
        return r
    return abs(a)


def rmax(a, b):
    if isspecial(a) or isspecial(b):
        if (isspecial(a) and math.isnan(a)) or (isspecial(b) and math.isnan(b)):
            return NAN
        return a if rcmp('ge', a, b) is True else b
    return rite(rcmp('ge', a, b), a, b)


def rmin(a, b):
    if isspecial(a) or isspecial(b):
        if (isspecial(a) and math.isnan(a)) or (isspecial(b) and math.isnan(b)):
            return NAN
        return a if rcmp('le', a, b) is True else b
    return rite(rcmp('le', a, b), a, b)


def _isqrt_exact(q):
    q = Fraction(q)
    n, d = math.isqrt(q.numerator), math.isqrt(q.denominator)
    if n * n == q.numerator and d * d == q.denominator:
        return _norm(Fraction(n, d))
    return None


_DIGITS = 10 ** 40


def _root_bounds(q, up):
    """square root of the rational q rounded down or up to 40 decimals"""
    q = Fraction(q)
    n = math.isqrt(q.numerator * _DIGITS * _DIGITS // q.denominator)
    return Fraction(n + 1 if up else n, _DIGITS)


def all_algebraic(t):
    """only numbers and roots of such terms"""
    todo, seen, n = [t], set(), 0
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        n += 1
        if n > 3000:
            return False
        if x.num_args() == 0:
            if not (z3.is_rational_value(x) or z3.is_int_value(x) or x.get_id() in CTX.algebraic or z3.is_true(x) or z3.is_false(x)):
                return False
        todo.extend(x.children())
    return True


def interval(t, memo=None):
    """rational bounds of a term over roots of constants; None when it has other operations"""
    memo = {} if memo is None else memo
    k = t.get_id()
    if k in memo:
        return memo[k]
    if z3.is_rational_value(t) or z3.is_int_value(t):
        q = Fraction(q_of(t))
        r = (q, q)
    elif k in CTX.algebraic:
        r = CTX.algebraic[k][1:]
    else:
        d = t.decl().kind()
        ks = [interval(c, memo) for c in t.children()] if d in _ARITH else [None]
        r = None
        if all(v is not None for v in ks):
            if d == z3.Z3_OP_ADD:
                r = (sum(v[0] for v in ks), sum(v[1] for v in ks))
            elif d == z3.Z3_OP_UMINUS:
                r = (-ks[0][1], -ks[0][0])
            elif d == z3.Z3_OP_SUB:
                r = ks[0]
                for v in ks[1:]:
                    r = (r[0] - v[1], r[1] - v[0])
            elif d == z3.Z3_OP_TO_REAL:
                r = ks[0]
            elif d == z3.Z3_OP_MUL or (d == z3.Z3_OP_DIV and (ks[1][0] > 0 or ks[1][1] < 0)):
                if d == z3.Z3_OP_DIV:
                    ks = [ks[0], (1 / ks[1][1], 1 / ks[1][0])]
                r = ks[0]
                for v in ks[1:]:
                    w = [a * b for a in r for b in v]
                    r = (min(w), max(w))
    if r is not None and r[0] != r[1]:
        # keep the numbers short
        r = (Fraction(math.floor(r[0] * _DIGITS), _DIGITS), Fraction(math.ceil(r[1] * _DIGITS), _DIGITS))
    memo[k] = r
    return r


_ARITH = (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_UMINUS, z3.Z3_OP_TO_REAL)


def decided(c):
    """truth of a condition over roots of constants when their bounds settle it"""
    d = c.decl().kind()
    ks = c.children()
    if d == z3.Z3_OP_NOT:
        r = decided(ks[0])
        return None if r is None else not r
    if d in (z3.Z3_OP_AND, z3.Z3_OP_OR):
        rs = [decided(k) for k in ks]
        stop = d == z3.Z3_OP_OR
        if stop in rs:
            return stop
        return None if None in rs else not stop
    if d not in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ) or not z3.is_arith(ks[0]) or not all_algebraic(c):
        return None
    a, b = interval(ks[0]), interval(ks[1])
    if a is None or b is None:
        return None
    if a[1] < b[0]:
        return d in (z3.Z3_OP_LE, z3.Z3_OP_LT)
    if a[0] > b[1]:
        return d in (z3.Z3_OP_GE, z3.Z3_OP_GT)
    return None


def rsqrt(a):
    if isspecial(a):
        return a if a > 0 else NAN
    if not isz(a):
        a = int(a) if isinstance(a, bool) else a
        if a < 0:
            return NAN
        e = _isqrt_exact(a)
        if e is not None:
            return e
        term = z3val(a)
    else:
        term = numz(a)
        s = z3.simplify(term)
        if z3.is_rational_value(s):
            return rsqrt(q_of(s))
        if not is_nonneg_term(term) and not is_nonneg_term(s):
            if CTX.branch(term < 0):
                return NAN
        term = s
    key = ('sqrt', poly_key(term))
    hit = CTX.cache.get(key)
    if hit is None:
        r = CTX.fresh('sqrt')
        CTX.nonneg.add(r.get_id())
        CTX.assume(r >= 0)
        CTX.assume(r * r == term)
        if all_algebraic(term):
            iv = interval(term)
            if iv is not None and iv[0] >= 0:
                lo, hi = _root_bounds(iv[0], False), _root_bounds(iv[1], True)
                CTX.algebraic[r.get_id()] = (r, lo, hi)
                CTX.assume(z3.And(r >= z3val(lo), r <= z3val(hi)))
        # keep (r, term) alive
        CTX.cache[key] = hit = (r, term)
        CTX.cache.setdefault('sqrts', []).append((r, term))
        normal_form().roots[r.get_id()] = (r, term)
    return hit[0]


def normal_form():
    n = CTX.cache.get('norm')
    if n is None:
        n = CTX.cache['norm'] = poly.Norm(domains=CTX.finite.get, bounds=CTX.box.get)
    return n


def poly_key(term):
    """equal keys: terms with the same value everywhere"""
    n = normal_form()
    try:
        n.reset()
        return n.key(n.poly(term))
    except (poly.TooBig, RecursionError):
        CTX.cache[('keep', term.get_id())] = term
        return term.get_id()


def rpow(a, b):
    if isz(b):
        b = q_of(z3.simplify(b)) if z3.is_rational_value(z3.simplify(b)) else b
    if isz(b):
        raise Unsupported('symbolic exponent')
    if isspecial(b):
        raise Unsupported('special exponent')
    if isinstance(b, Fraction) and b == Fraction(1, 2):
        return rsqrt(a)
    if isinstance(b, Fraction):
        if not isz(a):
            return f2q(float(a) ** float(b))
        f = b.numerator, b.denominator
        if f[1] == 2:
            return rpow(rsqrt(a), f[0])
        r = rroot(a, f[1])
        return rpow(r, f[0])
    b = int(b)
    if isspecial(a):
        return a ** b
    if not isz(a):
        if a == 0 and b < 0:
            return INF
        return _norm(Fraction(a) ** b)
    if b == 0:
        return 1
    if b < 0:
        return rdiv(1, rpow(a, -b))
    if b > 8:
        raise Unsupported('large power')
    a = numz(a)
    r = a
    for _ in range(b - 1):
        r = rmul(r, a)
    if b % 2 == 0:
        CTX.nonneg.add(r.get_id())
        CTX.cache[('keep', r.get_id())] = r
    return r


def rroot(a, n):
    if not isz(a):
        if isspecial(a):
            return NAN
        return f2q(float(a) ** (1.0 / n))
    term = numz(a)
    if not is_nonneg_term(term) and CTX.branch(term < 0):
        return NAN
    term = z3.simplify(term)
    key = ('root', n, term.get_id())
    hit = CTX.cache.get(key)
    if hit is None:
        r = CTX.fresh('root')
        CTX.nonneg.add(r.get_id())
        CTX.assume(r >= 0)
        p = r
        for _ in range(n - 1):
            p = p * r
        CTX.assume(p == term)
        CTX.cache[key] = hit = (r, term)
    return hit[0]


LOG = z3.Function('ln', z3.RealSort(), z3.RealSort())
LN2 = z3.Real('ln2')


def log_args():
    return CTX.cache.setdefault('logs', {})


def _log_atom(term):
    t = LOG(term)
    la = log_args()
    if term.get_id() not in la:
        la[term.get_id()] = (term, t)
        # 1 - 1/x <= ln x <= x - 1
        u = CTX.fresh('inv')
        CTX.assume(u * term == 1)
        CTX.assume(z3.And(1 - u <= t, t <= term - 1))
        for oid, (oterm, ot) in list(la.items()):
            if oid != term.get_id():
                CTX.assume(z3.And(z3.Implies(term == oterm, t == ot), z3.Implies(term < oterm, t < ot),
                                  z3.Implies(term > oterm, t > ot)))
    return t


def rlog(a):
    """natural logarithm: uninterpreted, with monotonicity and the tangent bounds as axioms;
    logarithms of quotients and products of provably positive terms are expanded."""
    if isspecial(a):
        if math.isnan(a) or a < 0:
            return NAN
        return INF
    if not isz(a):
        if a < 0:
            return NAN
        if a == 0:
            return -INF
        if a == 1:
            return 0
        return _log_const(a)
    term = z3.simplify(numz(a))
    if z3.is_rational_value(term):
        return rlog(q_of(term))
    if CTX.branch(term == 0):
        return -INF
    if CTX.branch(term < 0):
        return NAN
    raw = numz(a)
    if z3.is_app_of(raw, z3.Z3_OP_DIV):
        n, d = raw.arg(0), raw.arg(1)
        if CTX.branch(d > 0):
            return rsub(rlog(n), rlog(d))
        return rsub(rlog(rneg(n)), rlog(rneg(d)))
    if z3.is_app_of(raw, z3.Z3_OP_MUL) and len(raw.children()) == 2:
        n, d = raw.arg(0), raw.arg(1)
        for x, y in ((n, d), (d, n)):
            if z3.is_rational_value(x):
                q = q_of(x)
                if q > 0:
                    return radd(rlog(q), rlog(y))
    return _log_atom(term)


def _log_const(q):
    """ln of a positive rational, as a sum of ln(p) symbols for small primes, else a numeric value."""
    q = Fraction(q)
    out = 0
    for n, s in ((q.numerator, 1), (q.denominator, -1)):
        for p in (2, 3, 5, 7):
            e = 0
            while n % p == 0:
                n //= p
                e += 1
            if e:
                sym = z3.Real('ln_%d' % p)
                key = ('lnp', p)
                if key not in CTX.cache:
                    CTX.cache[key] = sym
                    v = Fraction(math.log(p))
                    CTX.assume(z3.And(sym > z3val(v - Fraction(1, 10 ** 15)), sym < z3val(v + Fraction(1, 10 ** 15))))
                    CTX.nonneg.add(sym.get_id())
                out = radd(out, rmul(e * s, sym))
        if n != 1:
            out = radd(out, rmul(s, Fraction(math.log(n))))
    return out


def rlog2(a):
    v = rlog(a)
    if isspecial(v) or (not isz(v) and v == 0):
        return v
    return rdiv_pos(v, rlog(2))


def rdiv_pos(a, b):
    if isz(b):
        key = ('inv', b.get_id())
        if key not in CTX.cache:
            u = CTX.fresh('inv')
            CTX.nonneg.add(u.get_id())
            CTX.assume(u * b == 1)
            if z3.is_const(b) and str(b) == 'ln_2':
                v = Fraction(1 / math.log(2))
                CTX.assume(z3.And(u > z3val(v - Fraction(1, 10 ** 14)), u < z3val(v + Fraction(1, 10 ** 14))))
            CTX.cache[key] = u
        return rmul(a, CTX.cache[key])
    return rdiv(a, b)


def rexp(a):
    if isspecial(a):
        return 0 if a == -INF else a
    if not isz(a):
        if a == 0:
            return 1
        return f2q(math.exp(a))
    term = z3.simplify(numz(a))
    if z3.is_rational_value(term):
        return rexp(q_of(term))
    key = ('exp', term.get_id())
    hit = CTX.cache.get(key)
    if hit is None:
        e = CTX.fresh('exp')
        CTX.nonneg.add(e.get_id())
        CTX.assume(e > 0)
        CTX.assume(e >= 1 + term)
        CTX.assume(z3.And(z3.Implies(term <= 0, e <= 1), z3.Implies(term == 0, e == 1)))
        for oid, (oe, ot) in list(CTX.cache.setdefault('exps', {}).items()):
            CTX.assume(z3.And(z3.Implies(term == ot, e == oe), z3.Implies(term < ot, e < oe),
                              z3.Implies(term > ot, e > oe)))
        CTX.cache['exps'][term.get_id()] = (e, term)
        CTX.cache[key] = hit = (e, term)
    return hit[0]


def rfloor(a):
    if not isz(a):
        return a if isspecial(a) else math.floor(a)
    a = z3.simplify(numz(a))
    if z3.is_rational_value(a):
        return math.floor(q_of(a))
    return z3.ToReal(z3.ToInt(a))


def rround(a):
    """round half to even"""
    if not isz(a):
        if isspecial(a):
            return a
        return round(Fraction(a))
    a = numz(a)
    f = rfloor(rmul(1, a))
    d = a - f
    half = z3val(Fraction(1, 2))
    odd = numz(rsub(f, rmul(2, rfloor(rdiv(f, 2)))))
    return z3.If(d < half, f, z3.If(d > half, f + 1, z3.If(odd == 0, f, f + 1)))


def rtrunc(a):
    if not isz(a):
        if isspecial(a):
            return a
        return math.trunc(a)
    a = numz(a)
    return z3.If(a >= 0, rfloor(a), -rfloor(-a))


def rfloordiv(a, b):
    q = rdiv(a, b)
    return rfloor(q)


def rmod(a, b):
    return rsub(a, rmul(b, rfloordiv(a, b)))


# --------------------------------------------------------------------------- scalar wrapper
_KORD = {'b': 0, 'i': 1, 'f': 2}


def join_kind(a, b):
    k = max(_KORD[kind_of(a)], _KORD[kind_of(b)])
    return 'bif'[k]


class SNum(np.generic if False else object):
    """numpy-scalar-like symbolic or exact number"""
    __slots__ = ('v', 'k')
    __array_priority__ = 1000.0

    def __init__(self, v, k='f'):
        if isinstance(v, SNum):
            k, v = v.k, v.v
        if isinstance(v, float):
            v = f2q(v)
        elif isinstance(v, np.generic):
            v = rawv(v)
        if isinstance(v, bool) or (isz(v) and z3.is_bool(v)):
            k = 'b'
        self.v = v
        self.k = k

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __reduce__(self):
        raise Unsupported('pickling a symbolic value')

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        from . import arr
        return arr.ufunc_dispatch(ufunc, method, inputs, kw)

    def __array__(self, dtype=None, copy=None):
        from . import arr
        if dtype is not None and np.dtype(dtype) != np.dtype(object):
            if not isz(self.v):
                return np.asarray(self.v if not isinstance(self.v, Fraction) else float(self.v), dtype=dtype)
            raise Unsupported('conversion of a symbolic value to a machine array')
        a = np.empty((), dtype=object)
        a[()] = self
        return a

    # arithmetic
    def _bin(self, o, f, k=None, rev=False):
        if isinstance(o, (np.ndarray, list, tuple)):
            return NotImplemented
        ov = rawv(o)
        if ov is NotImplemented:
            return NotImplemented
        v = f(ov, self.v) if rev else f(self.v, ov)
        kk = k or join_kind(self, o)
        if kk == 'b':
            kk = 'i'
        return SNum(v, kk)

    def __add__(self, o): return self._bin(o, radd)
    def __radd__(self, o): return self._bin(o, radd, rev=True)
    def __sub__(self, o): return self._bin(o, rsub)
    def __rsub__(self, o): return self._bin(o, rsub, rev=True)
    def __mul__(self, o): return self._bin(o, rmul)
    def __rmul__(self, o): return self._bin(o, rmul, rev=True)
    def __truediv__(self, o): return self._bin(o, rdiv, 'f')
    def __rtruediv__(self, o): return self._bin(o, rdiv, 'f', rev=True)
    def __floordiv__(self, o): return self._bin(o, rfloordiv)
    def __rfloordiv__(self, o): return self._bin(o, rfloordiv, rev=True)
    def __mod__(self, o): return self._bin(o, rmod)
    def __rmod__(self, o): return self._bin(o, rmod, rev=True)
    def __pow__(self, o, m=None): return self._bin(o, rpow)
    def __rpow__(self, o): return self._bin(o, rpow, rev=True)
    def __neg__(self): return SNum(rneg(self.v), self.k)
    def __pos__(self): return self
    def __abs__(self): return SNum(rabs(self.v), self.k)

    def _cmp(self, o, op):
        if isinstance(o, (np.ndarray, list, tuple)):
            return NotImplemented
        ov = rawv(o)
        if ov is NotImplemented:
            return NotImplemented
        return SNum(rcmp(op, self.v, ov), 'b')

    def __lt__(self, o): return self._cmp(o, 'lt')
    def __le__(self, o): return self._cmp(o, 'le')
    def __gt__(self, o): return self._cmp(o, 'gt')
    def __ge__(self, o): return self._cmp(o, 'ge')

    def __eq__(self, o):
        r = self._cmp(o, 'eq')
        return SNum(False, 'b') if r is NotImplemented and not isinstance(o, np.ndarray) else r

    def __ne__(self, o):
        r = self._cmp(o, 'ne')
        return SNum(True, 'b') if r is NotImplemented and not isinstance(o, np.ndarray) else r

    def __hash__(self):
        if isz(self.v):
            if self.k in ('i', 'b') and CTX is not None:
                return hash(int(self))
            raise Unsupported('hash of a symbolic value')
        return hash(self.v)

    def __divmod__(self, o): return self // o, self % o

    def _logic(self, o, f):
        if isinstance(o, np.ndarray):
            return NotImplemented
        return SNum(f(self.v, rawv(o)), 'b')

    def __and__(self, o): return self._logic(o, rand_)
    __rand__ = __and__
    def __or__(self, o): return self._logic(o, ror_)
    __ror__ = __or__
    def __xor__(self, o): return self._logic(o, lambda a, b: rcmp('ne', tobool(a), tobool(b)))
    __rxor__ = __xor__

    def __invert__(self):
        if self.k == 'b':
            return SNum(rnot(self.v), 'b')
        return SNum(rsub(rneg(self.v), 1), self.k)

    def __bool__(self):
        b = tobool(self.v)
        if isz(b):
            return CTX.branch(b)
        return bool(b)

    def __index__(self):
        v = self.v
        if self.k == 'f':
            raise TypeError("'float' object cannot be interpreted as an integer")
        if isz(v):
            v = CTX.enum_value(numz(v))
        if isinstance(v, (int,)):
            return int(v)
        raise TypeError('not an integer')

    def __int__(self):
        v = rtrunc(self.v)
        if isz(v):
            v = CTX.enum_value(numz(v))
        if isspecial(v):
            if math.isnan(v):
                raise ValueError('cannot convert float NaN to integer')
            raise OverflowError('cannot convert float infinity to integer')
        return int(v)

    def __float__(self):
        if isz(self.v):
            s = z3.simplify(numz(self.v))
            if z3.is_rational_value(s):
                return float(q_of(s))
            raise Unsupported('machine float of a symbolic value')
        return float(self.v)

    def __round__(self, n=None):
        if n is None:
            return SNum(rround(self.v), 'i')
        s = 10 ** n if n >= 0 else Fraction(1, 10 ** -n)
        return SNum(rdiv(rround(rmul(self.v, s)), s), self.k)

    def __floor__(self): return SNum(rfloor(self.v), 'i')
    def __ceil__(self): return SNum(rneg(rfloor(rneg(self.v))), 'i')
    def __trunc__(self): return SNum(rtrunc(self.v), 'i')
    # numpy calls these methods for object-dtype ufuncs
    def sqrt(self): return SNum(rsqrt(self.v))
    def log(self): return SNum(rlog(self.v))
    def log2(self): return SNum(rlog2(self.v))
    def exp(self): return SNum(rexp(self.v))

    def __repr__(self):
        return 'S(%s)' % (self.v,)

    def __str__(self):
        return str(self.v) if not isz(self.v) else '<sym>'

    def __format__(self, spec):
        return str(self)

    # numpy scalar-like attributes
    ndim = 0
    shape = ()
    size = 1

    @property
    def T(self): return self

    @property
    def real(self): return self

    @property
    def dtype(self):
        return np.dtype({'f': float, 'i': int, 'b': bool}[self.k])

    def item(self): return self
    def squeeze(self, axis=None): return self
    def copy(self): return self
    def sum(self, *a, **k): return self
    def mean(self, *a, **k): return self
    def max(self, *a, **k): return self
    def min(self, *a, **k): return self
    def any(self, *a, **k): return SNum(tobool(self.v), 'b')
    def all(self, *a, **k): return SNum(tobool(self.v), 'b')
    def is_integer(self): return SNum(rcmp('eq', rfloor(self.v), self.v), 'b')

    def clip(self, lo=None, hi=None, **k):
        v = self.v
        if lo is not None:
            v = rmax(v, rawv(lo))
        if hi is not None:
            v = rmin(v, rawv(hi))
        return SNum(v, self.k)

    def round(self, n=0): return self.__round__(n)

    def astype(self, dt, **kw):
        return cast(self, dt)

    def reshape(self, *s, **k):
        from . import arr
        return arr.sarr([self]).reshape(*s)

    def ravel(self):
        return self.reshape(1)
    flatten = ravel

    def __getitem__(self, i):
        if i is np.newaxis:
            return self.reshape(1)
        if i == () or i is Ellipsis:
            return self
        raise IndexError('invalid index to scalar variable.')


def dtkind(dt):
    if dt is None:
        return None
    if dt is float or dt is complex:
        return 'f'
    if dt is int:
        return 'i'
    if dt is bool:
        return 'b'
    if dt is object:
        return 'O'
    if dt is str:
        return 'U'
    k = np.dtype(dt).kind
    return {'f': 'f', 'i': 'i', 'u': 'i', 'b': 'b', 'O': 'O', 'c': 'f'}.get(k, k)


def cast(x, dt):
    k = dtkind(dt)
    x = x if isinstance(x, SNum) else SNum(rawv(x), kind_of(x))
    if k == 'i':
        if x.k == 'f':
            return SNum(rtrunc(x.v), 'i')
        return SNum(x.v if not (isinstance(x.v, bool) or isz(x.v) and z3.is_bool(x.v)) else
                    (numz(x.v) if isz(x.v) else int(x.v)), 'i')
    if k == 'f':
        v = x.v
        if isinstance(v, bool):
            v = int(v)
        elif isz(v) and z3.is_bool(v):
            v = numz(v)
        return SNum(v, 'f')
    if k == 'b':
        return SNum(tobool(x.v), 'b')
    if k == 'O' or k is None:
        return x
    raise Unsupported('cast of a number to %r' % (dt,))
