"""Exact normal form of arithmetic terms: polynomials with rational coefficients over atoms.

Atoms are variables, indicators of conditions (idempotent), inverses of polynomials, square roots (whose square is
their argument) and any other opaque term.  Two terms with the same normal form are equal for every value of the
variables for which they are defined, so equalities between them need no search."""
from fractions import Fraction

import z3

ONE = ()


class TooBig(Exception):
    pass


class Norm:
    def __init__(self, budget=400000, roots=None, domains=None, bounds=None):
        # domains: function from the id of a variable to the finite list of its values, or None
        self.domains = domains or (lambda i: None)
        # bounds: function from the id of a variable to (lower, upper) or None
        self.bounds = bounds or (lambda i: None)
        self.ranges = {}
        self.finite = {}      # indicator of variable = value -> variable
        self.memo, self.cmemo, self.keep = {}, {}, []
        self.limit = budget
        self.budget = budget
        self.roots = roots if roots is not None else {}      # id of a root symbol -> (symbol, argument term)
        self.inverses = {}
        self.ids = {}

    def reset(self):
        self.budget = self.limit

    def spend(self, k=1):
        self.budget -= k
        if self.budget < 0:
            raise TooBig()

    # ---- polynomial arithmetic: {monomial: coefficient}, monomial = sorted tuple of (atom, power)
    def add(self, p, q, c=1):
        r = dict(p)
        self.spend(len(q))
        for m, k in q.items():
            v = r.get(m, 0) + c * k
            if v:
                r[m] = v
            elif m in r:
                del r[m]
        return r

    def mono(self, a, b):
        """product of two monomials -> polynomial"""
        if not a:
            return {b: 1}
        if not b:
            return {a: 1}
        d = dict(a)
        for x, k in b:
            d[x] = d.get(x, 0) + k
        extra = None
        for x in list(d):
            if x[0] == 'i':
                d[x] = 1
            elif x[0] == 'r' and d[x] >= 2:
                sq = self.poly(self.roots[x[1]][1])
                for _ in range(d[x] // 2):
                    extra = sq if extra is None else self.mul(extra, sq)
                d[x] %= 2
                if not d[x]:
                    del d[x]
        gs = [x for x in d if x[:2] == ('i', 'g')]
        if len(gs) > 1:
            # base >= t1 and base >= t2: the stronger one
            best = {}
            for x in gs:
                y = best.get(x[2])
                if y is None:
                    best[x[2]] = x
                elif x[3:] > y[3:]:
                    del d[y]
                    best[x[2]] = x
                else:
                    del d[x]
        if self.finite:
            vs = [self.finite[x] for x in d if x in self.finite]
            if len(vs) != len(set(vs)):
                return {}         # a variable has one value
        m = tuple(sorted(d.items()))
        if extra is None:
            return {m: 1}
        return self.mul({m: 1}, extra)

    def mul(self, p, q):
        r = {}
        self.spend(len(p) * len(q))
        for a, x in p.items():
            for b, y in q.items():
                for m, k in self.mono(a, b).items():
                    v = r.get(m, 0) + x * y * k
                    if v:
                        r[m] = v
                    elif m in r:
                        del r[m]
        return r

    def power(self, p, n):
        r = {ONE: Fraction(1)}
        for _ in range(n):
            r = self.mul(r, p)
        return r

    def key(self, p):
        return frozenset(p.items())

    # ---- conditions as 0/1 polynomials
    def cond(self, c):
        i = c.get_id()
        hit = self.cmemo.get(i)
        if hit is not None:
            return hit
        self.spend()
        self.keep.append(c)
        k = c.decl().kind()
        one = {ONE: Fraction(1)}
        if k == z3.Z3_OP_TRUE:
            r = one
        elif k == z3.Z3_OP_FALSE:
            r = {}
        elif k == z3.Z3_OP_NOT:
            r = self.add(one, self.cond(c.arg(0)), -1)
        elif k == z3.Z3_OP_AND:
            r = one
            for x in c.children():
                r = self.mul(r, self.cond(x))
        elif k == z3.Z3_OP_OR:
            r = one
            for x in c.children():
                r = self.mul(r, self.add(one, self.cond(x), -1))
            r = self.add(one, r, -1)
        elif k == z3.Z3_OP_IMPLIES:
            a, b = self.cond(c.arg(0)), self.cond(c.arg(1))
            r = self.add(self.add(one, a, -1), self.mul(a, b))
        elif k == z3.Z3_OP_ITE:
            a, b, d = (self.cond(x) for x in c.children())
            r = self.add(d, self.mul(a, self.add(b, d, -1)))
        elif k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) and c.arg(0).sort() == z3.RealSort():
            a, b = self.poly(c.arg(0)), self.poly(c.arg(1))
            # a <= b  <=>  b - a >= 0 ; a < b <=> not (a - b >= 0)
            if k in (z3.Z3_OP_LE, z3.Z3_OP_GT):
                d = self.add(b, a, -1)
            else:
                d = self.add(a, b, -1)
            r = self.ge0(d)
            if k in (z3.Z3_OP_GT, z3.Z3_OP_LT):
                r = self.add(one, r, -1)
        elif k == z3.Z3_OP_EQ and c.arg(0).sort() == z3.RealSort():
            d = self.add(self.poly(c.arg(0)), self.poly(c.arg(1)), -1)
            r = self.eq0(d)
        elif k == z3.Z3_OP_EQ and z3.is_bool(c.arg(0)):
            a, b = self.cond(c.arg(0)), self.cond(c.arg(1))
            r = self.add(self.add(one, a, -1), self.add(self.mul({ONE: Fraction(2)}, self.mul(a, b)), b, -1))
        else:
            r = {((('i', 'b', i), 1),): Fraction(1)}
        self.cmemo[i] = r
        return r

    def atom_id(self, p):
        k = self.key(p)
        if k not in self.ids:
            self.ids[k] = len(self.ids)
        return self.ids[k]

    def single(self, d):
        """(variable, constant, coefficient, values) of a linear term of one variable with finitely many values"""
        if len(d) > 2 or (len(d) == 2 and ONE not in d):
            return None
        m = [x for x in d if x != ONE][0]
        if len(m) != 1 or m[0][1] != 1 or m[0][0][0] != 't':
            return None
        vals = self.domains(m[0][0][1])
        if vals is None:
            return None
        return m[0][0], d.get(ONE, 0), d[m], [Fraction(x) for x in vals]

    def value(self, var, x, vals):
        """0/1 polynomial of variable = x: the last value is the complement of the others"""
        if len(vals) == 1:
            return {ONE: Fraction(1)}
        if x == vals[-1]:
            r = {ONE: Fraction(1)}
            for o in vals[:-1]:
                r = self.add(r, self.value(var, o, vals), -1)
            return r
        a = ('i', 'e', var[1], str(x))
        self.finite[a] = var
        return {((a, 1),): Fraction(1)}

    def ge0(self, d):
        """0/1 polynomial of d >= 0"""
        if not d:
            return {ONE: Fraction(1)}
        if set(d) == {ONE}:
            return {ONE: Fraction(1)} if d[ONE] >= 0 else {}
        v = self.single(d)
        if v is not None:
            var, c, k, vals = v
            r = {}
            for x in vals:
                if k * x + c >= 0:
                    r = self.add(r, self.value(var, x, vals))
            return r
        base, t, up = self.threshold(d)
        if up:
            return self.above(base, t, 0)
        return self.add({ONE: Fraction(1)}, self.above(base, t, 1), -1)

    def eq0(self, d):
        if not d:
            return {ONE: Fraction(1)}
        if set(d) == {ONE}:
            return {}
        v = self.single(d)
        if v is not None:
            var, c, k, vals = v
            x = -c / k
            return self.value(var, x, vals) if x in vals else {}
        base, t, up = self.threshold(d)
        return self.add(self.above(base, t, 0), self.above(base, t, 1), -1)

    def threshold(self, d):
        """(base, t, up): d >= 0 is base >= t (up) or base <= t, with a canonical base without constant"""
        lead = min((m for m in d if m != ONE), key=repr)
        f = d[lead]
        base = {m: v / f for m, v in d.items() if m != ONE}
        return base, -d.get(ONE, 0) / f, f > 0

    def above(self, base, t, strict):
        """0/1 polynomial of base >= t (strict: base > t); thresholds of one base form a chain, see mono"""
        b = self.atom_id(base)
        lh = self.ranges.get(b)
        if lh is None:
            lh = self.ranges[b] = self.range_of(base)
        lo, hi = lh
        if lo is not None and (t < lo or (t == lo and not strict)):
            return {ONE: Fraction(1)}
        if hi is not None and (t > hi or (t == hi and strict)):
            return {}
        return {((('i', 'g', b, t, strict), 1),): Fraction(1)}

    def range_of(self, base):
        """bounds of a linear form over the boxes of the inputs"""
        lo = hi = Fraction(0)
        for m, k in base.items():
            if len(m) != 1 or m[0][1] != 1:
                return None, None
            if m[0][0][0] == 'i':
                l, h = Fraction(0), Fraction(1)
            elif m[0][0][0] == 't':
                l, h = self.bounds(m[0][0][1]) or (None, None)
            else:
                return None, None
            if k < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + k * Fraction(l)
            hi = None if hi is None or h is None else hi + k * Fraction(h)
        return lo, hi

    def positive_part(self, c, diff):
        """diff * [c] when c compares a multiple of diff with 0 (maxima, minima, absolute values): the same whatever
        the orientation of the comparison, which only matters where the product vanishes"""
        neg = False
        k = c.decl().kind()
        while k == z3.Z3_OP_NOT:
            neg, c = not neg, c.arg(0)
            k = c.decl().kind()
        if k not in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT) or c.arg(0).sort() != z3.RealSort():
            return None
        d = self.add(self.poly(c.arg(0)), self.poly(c.arg(1)), -1)
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT):
            neg = not neg
        if len(d) != len(diff) or set(d) != set(diff) or set(d) == {ONE}:
            return None
        m0 = next(iter(d))
        f = diff[m0] / d[m0]
        if any(diff[m] != f * v for m, v in d.items()):
            return None
        # diff * [d >= 0] with the sign of d chosen canonically
        lead = d[min(d, key=repr)]
        if neg:
            d = {m: -v for m, v in d.items()}
            f, lead = -f, -lead
        # now diff = f * d, condition d >= 0
        if lead > 0:
            return {m: v * f for m, v in self.mul(d, self.ge0(d)).items()}
        n = {m: -v for m, v in d.items()}
        # max(d, 0) = d + max(-d, 0)
        return {m: v * f for m, v in self.add(d, self.mul(n, self.ge0(n))).items()}

    # ---- terms
    def poly(self, t):
        i = t.get_id()
        hit = self.memo.get(i)
        if hit is not None:
            return hit
        self.spend()
        self.keep.append(t)
        r = self._poly(t)
        if len(r) > 4000:
            raise TooBig()
        self.memo[i] = r
        return r

    def _poly(self, t):
        if z3.is_rational_value(t):
            v = Fraction(t.numerator_as_long(), t.denominator_as_long())
            return {ONE: v} if v else {}
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_ADD:
            r = self.poly(ch[0])
            for c in ch[1:]:
                r = self.add(r, self.poly(c))
            return r
        if k == z3.Z3_OP_SUB:
            r = self.poly(ch[0])
            for c in ch[1:]:
                r = self.add(r, self.poly(c), -1)
            return r
        if k == z3.Z3_OP_UMINUS:
            return {m: -v for m, v in self.poly(ch[0]).items()}
        if k == z3.Z3_OP_MUL:
            r = self.poly(ch[0])
            for c in ch[1:]:
                r = self.mul(r, self.poly(c))
            return r
        if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].denominator_as_long() == 1 and \
                0 <= ch[1].numerator_as_long() <= 6:
            return self.power(self.poly(ch[0]), ch[1].numerator_as_long())
        if k == z3.Z3_OP_DIV:
            d = self.poly(ch[1])
            if d and set(d) == {ONE}:
                return {m: v / d[ONE] for m, v in self.poly(ch[0]).items()}
            if d:
                lead = min(d, key=repr)
                f = d[lead]
                dn = {m: v / f for m, v in d.items()}
                inv = {((('v', self.atom_id(dn)), 1),): 1 / f}
                return self.mul(self.poly(ch[0]), inv)
        if k == z3.Z3_OP_ITE:
            a, b = self.poly(ch[1]), self.poly(ch[2])
            diff = self.add(a, b, -1)
            if not diff:
                return b
            m = self.positive_part(ch[0], diff)
            if m is not None:
                return self.add(b, m)
            return self.add(b, self.mul(self.cond(ch[0]), diff))
        if t.get_id() in self.roots:
            return {((('r', t.get_id()), 1),): Fraction(1)}
        return {((('t', t.get_id()), 1),): Fraction(1)}


def zero(n, a, b):
    """True when a - b is identically 0 (None: no answer)"""
    try:
        n.reset()
        d = n.add(n.poly(a), n.poly(b), -1)
    except (TooBig, RecursionError):
        return None
    return True if not d else None
