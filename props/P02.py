"""Logarithmic divergences."""
from symq.harness import harness

BOUNDS = 'prevalence vectors of 2 and 3 classes on the whole simplex including zero components, row and column shaped; 4 and 5 classes with components of at least 0.01 or one component 0 (two free components among given ones for Topsoe, 4-6 classes); binary: the whole unit square'
OUTSIDE = 'more classes; logarithms are uninterpreted with monotonicity, tangent bounds and product/quotient laws (exact at replay)'


def shaped(e, p, kind):
    return e.col(p) if kind == 'col' else p


def simplex(e, tag, n, lo=0, zero=None):
    """a point of the simplex; with a component fixed at 0"""
    if zero is None:
        return e.simplex(tag, n, lo)
    v = list(e.flat(e.simplex(tag, n - 1, lo)))
    v.insert(zero, 0)
    return e.arr(v)


LARGE = [dict(n=4, lo=0.01), dict(n=5, lo=0.01, zero=(1, 1))]


def mixed(e, tag, fixed, where):
    """two free components (at `where` and the one after it) among given ones"""
    from fractions import Fraction
    fixed = [Fraction(str(v)) for v in fixed]
    rest = 1 - sum(fixed)
    a = e.real(tag, 0, rest)
    return e.arr(fixed[:where] + [a, rest - a] + fixed[where:])


FIXED = [dict(pf=(.1, .3), qf=(.2, .15), where=0), dict(pf=(.3, 0, .2), qf=(.1, .25, 0), where=1), dict(pf=(.05, .1, .15, .2), qf=(.2, .05, .3, .1), where=4)]


def xlog(e, x, y, log):
    """x * log(x / y) with 0 log 0 = 0"""
    if x == 0:
        return 0
    return x * (log(x) - log(y))


@harness('P02', [dict(n=2), dict(n=2, kind='col'), dict(n=3), dict(n=2, eps=1e-3), dict(n=3, kind='col')] + LARGE, more=[dict(n=4)])
def kld(e, n, kind='row', eps=None, lo=0, zero=(None, None)):
    m = e.mod('metrics.multiclass')
    p, q = simplex(e, 'p', n, lo, zero[0]), simplex(e, 'q', n, lo, zero[1])
    v = m.kld(shaped(e, p, kind), shaped(e, q, kind), **({} if eps is None else dict(eps=eps)))
    e.finite('kld is finite', v)
    ep = 1e-12 if eps is None else eps
    e.eq('kld equals its definition', v, e.sum([xlog(e, x, y + ep, e.log2) for x, y in zip(e.flat(p), e.flat(q))]))


@harness('P02', [dict(n=2)], more=[dict(n=3)])
def kld_sign(e, n):
    m = e.mod('metrics.multiclass')
    p, q = e.simplex('p', n), e.simplex('q', n)
    v = m.kld(p, q)
    for x, y in zip(e.flat(p), e.flat(q)):
        if x > 0:
            e.log_fact(y + 1e-12, x)
            e.log_fact(x + 1e-12, x)
    e.le('kld is not negative', 0, v, tol=1e-9)
    e.eq('kld of equal vectors is 0', m.kld(p, e.snap(p)), 0, tol=1e-6)


@harness('P02', [dict()])
def binary_kld(e):
    m = e.mod('metrics.binary')
    p, q = e.real('p', 0, 1), e.real('q', 0, 1)
    eps = 1e-12
    v = m.binary_kld(p, q)
    e.finite('binary_kld is finite', v)
    q1 = eps if q == 0 else q
    q0 = eps if q == 1 else 1 - q
    e.eq('binary_kld equals its definition', v, xlog(e, p, q1, e.log2) + xlog(e, 1 - p, q0, e.log2))
    e.eq('binary_kld of equal prevalences is 0', m.binary_kld(p, p), 0)


@harness('P02', [dict(p=p, q=q) for p, q in ((0.0, 0.0), (0.0, 1.0), (1.0, 0.0), (1.0, 1.0), (0.5, 0.0), (0.5, 1.0), (0.0, 0.5))])
def binary_kld_corners(e, p, q):
    m = e.mod('metrics.binary')
    eps = 1e-12
    ref = xlog(e, p, q or eps, e.log2) + xlog(e, 1 - p, (1 - q) or eps, e.log2)
    v = m.binary_kld(e.data(p)[()] if False else p, q)
    e.finite('binary_kld is finite', v)
    e.eq('binary_kld equals its definition', v, ref)


EPS = 1e-20


def topsoe_ref(e, P, Q):
    t = 0
    for x, y in zip(P, Q):
        if x > 0 or y > 0:
            t = t + x * (e.log(2 * x + EPS) - e.log(x + y + EPS)) + y * (e.log(2 * y + EPS) - e.log(x + y + EPS))
    return t


def js_ref(e, P, Q):
    t = 0
    for x, y in zip(P, Q):
        if x > 0 or y > 0:
            t = t + x * e.log(x + EPS) + y * e.log(y + EPS) - (x + y) * (e.log(x + y + EPS) - e.log(2))
    return t / 2


@harness('P02', [dict(n=2), dict(n=2, kind='col'), dict(n=3, lo=0.01)], more=[dict(n=3)])
def topsoe(e, n, kind='row', lo=0, zero=(None, None)):
    m = e.mod('metrics.multiclass')
    p, q = simplex(e, 'p', n, lo, zero[0]), simplex(e, 'q', n, lo, zero[1])
    a, b = shaped(e, p, kind), shaped(e, q, kind)
    v = m.topsoe(a, b)
    e.finite('topsoe is finite', v)
    e.eq('topsoe equals its definition', v, topsoe_ref(e, e.flat(p), e.flat(q)))
    e.eq('topsoe is symmetric', v, m.topsoe(b, a))
    e.eq('topsoe of equal vectors is 0', m.topsoe(a, e.snap(a)), 0)


@harness('P02', [dict(n=2), dict(n=2, kind='col'), dict(n=3)] + LARGE, more=[dict(n=4)])
def jensenshannon(e, n, kind='row', lo=0, zero=(None, None)):
    m = e.mod('metrics.multiclass')
    p, q = simplex(e, 'p', n, lo, zero[0]), simplex(e, 'q', n, lo, zero[1])
    a, b = shaped(e, p, kind), shaped(e, q, kind)
    v = m.jensenshannon(a, b)
    e.finite('jensenshannon is finite', v)
    e.eq('jensenshannon equals its definition', v, js_ref(e, e.flat(p), e.flat(q)))
    e.eq('jensenshannon is symmetric', v, m.jensenshannon(b, a))


@harness('P02', [dict(n=2)], more=[dict(n=3)])
def topsoe_is_twice_js(e, n):
    """on components away from the smoothing constant both are the same combination of logarithms"""
    m = e.mod('metrics.multiclass')
    p, q = e.simplex('p', n, 0.001), e.simplex('q', n, 0.001)
    for x, y in zip(e.flat(p), e.flat(q)):
        # ln(2x + eps) = ln 2 + ln(x + eps/2): the two smoothings differ by less than eps / x
        for z in (x, y):
            d = e.log(2 * z + EPS) - e.log(2) - e.log(z + EPS)
            if e.sym:
                e.assume(e.and_(d <= 1e-12, d >= -1e-12))
    e.eq('topsoe is twice jensenshannon', m.topsoe(p, q), 2 * m.jensenshannon(p, q), tol=1e-6)


@harness('P02', [dict(n=2)], more=[dict(n=3)])
def topsoe_sign(e, n):
    m = e.mod('metrics.multiclass')
    p, q = e.simplex('p', n), e.simplex('q', n)
    v = m.topsoe(p, q)
    for x, y in zip(e.flat(p), e.flat(q)):
        if x > 0 or y > 0:
            for z in (x, y):
                e.log_fact(x + y + EPS, 2 * z + EPS)
    e.le('topsoe is not negative', 0, v, tol=1e-9)


@harness('P02', [dict(f=f, **c) for f in ('kld', 'topsoe', 'jensenshannon') for c in FIXED])
def larger(e, f, pf, qf, where):
    """4 to 6 classes, two of them free"""
    p, q = mixed(e, 'p', pf, where), mixed(e, 'q', qf, where)
    v = getattr(e.mod('metrics.multiclass'), f)(p, q)
    P, Q = e.flat(p), e.flat(q)
    e.finite(f + ' is finite', v)
    ref = e.sum([xlog(e, x, y + 1e-12, e.log2) for x, y in zip(P, Q)]) if f == 'kld' else topsoe_ref(e, P, Q) if f == 'topsoe' else js_ref(e, P, Q)
    e.eq(f + ' equals its definition', v, ref)
