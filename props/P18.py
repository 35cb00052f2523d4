"""One-dimensional prevalence search."""
from symq.harness import harness
from props.common import *

BOUNDS = 'up to seven wells with the best one anywhere and quadratic losses of any scale; golden section: any unimodal loss given by its value at every probe (the probes are the real ones), intervals of three sizes, up to 6 probes (8 thorough); global search: losses with one or two V-shaped wells whose positions, slopes and depths are symbolic, the position of each well within windows of 0.02-0.03 spread over [0,1], ends included; tolerances 0.005-0.01'
OUTSIDE = 'wells narrower than the 0.01 grid step; other positions of the wells (the windows are a selection)'


def unimodal(e, s, log):
    """a loss known only at its probes, strictly decreasing before s and increasing after it"""
    def mixture(prevalence, **kw):
        return e.arr([prevalence])
    def loss(m, test):
        p = e.at(m, 0)
        v = e.real('f%d' % len(log), 0, 1)
        for q, w in log:
            e.assume(e.or_(e.and_(q < p, p <= s, v < w), e.and_(p < q, q <= s, w < v), e.and_(s <= q, q < p, w < v), e.and_(s <= p, p < q, v < w),
                           e.and_(q < s, s < p), e.and_(p < s, s < q), e.and_(q <= p, p <= q, v <= w, w <= v)))
        log.append((p, v))
        return v
    return mixture, loss


@harness('P18', [dict(a=0.0, b=1.0, tol=0.2), dict(a=0.25, b=0.5, tol=0.05), dict(a=0.0, b=0.02, tol=0.005), dict(a=0.98, b=1.0, tol=0.01)], more=[dict(a=0.0, b=1.0, tol=0.05), dict(a=0.5, b=1.0, tol=0.02)])
def golden(e, a, b, tol):
    """any unimodal loss: the prevalence is within the tolerance of the minimiser"""
    s = e.real('s', a, b)
    log = []
    mix, loss = unimodal(e, s, log)
    f, p = e.mod('search').golden_section_search(loss, mix, None, tol, a, b)
    x = e.at(p, 1)
    e.distribution('prevalences', p, 2)
    e.true('within the tolerance of the minimiser', e.abs(x - s) <= tol + 1e-9)
    e.true('the loss is the value at a probe within the tolerance', e.or_(*[e.and_(f <= v, f >= v, e.abs(q - s) <= tol + 1e-9) for q, v in log]))


def wells(e, ws):
    """minimum of V-shaped wells (position, slope, depth)"""
    def mixture(prevalence, **kw):
        return e.arr([prevalence, 1 - prevalence])
    def at(p):
        return e.min(*[e.abs(p - s) * k + c for s, k, c in ws])
    def loss(m, test):
        return at(e.at(m, 0)) + test
    return mixture, loss, at


def search(e, ws, tol=0.01, mixtures=None, keep=False):
    mix, loss, at = wells(e, ws)
    m, p = e.mod('search').global_search(loss, mix, 0, tol, mixtures, keep)
    e.distribution('prevalences', p, 2)
    return m, p, at


@harness('P18', [dict(lo=l, hi=h) for l, h in ((0.0, 0.02), (0.3, 0.32), (0.985, 1.0), (-0.5, -0.4), (1.1, 1.2))], more=[dict(lo=l / 100, hi=(l + 2) / 100) for l in range(4, 100, 12)], limit=120, more_limit=400)
def one_well(e, lo, hi):
    """a V-shaped loss, its minimum possibly outside [0,1]"""
    s, k = e.real('s', lo, hi), 1
    m, p, at = search(e, [(s, k, 0)])
    x = e.at(p, 1)
    e.true('nearest prevalence', e.abs(x - e.min(e.max(s, 0), 1)) <= 0.01 + 1e-9)
    e.true('no mixtures kept', m is None)


@harness('P18', [dict(a=(0.3, 0.31), b=(0.99, 1.0)), dict(a=(0.0, 0.01), b=(0.7, 0.71)), dict(a=(0.2, 0.21), b=(0.6, 0.61)), dict(a=(0.0, 0.0), b=(0.99, 1.0))],
         more=[dict(a=(0.15, 0.17), b=(0.25, 0.27)), dict(a=(0.4, 0.43), b=(0.9, 0.93)), dict(a=(0.0, 0.02), b=(0.98, 1.0))], limit=120, more_limit=400)
def two_wells(e, a, b):
    """two local minima anywhere, also at the ends: the better one is returned"""
    s1, s2 = (e.real('s', *w) if w[0] < w[1] else w[0] for w in (a, b))
    d = e.real('d', -0.03, 0.03)
    e.assume(e.or_(d >= 0.02, d <= -0.02))
    m, p, at = search(e, [(s1, 1, 0.05), (s2, 1, 0.05 + d)])
    e.true('as good as the best minimum', at(e.at(p, 1)) <= 0.05 + e.min(0, d) + 0.01 + 1e-9)


@harness('P18', [dict(lo=0.5, hi=0.51)], more=[dict(lo=0.0, hi=0.02), dict(lo=0.98, hi=1.0)], limit=120)
def precomputed(e, lo, hi):
    """the mixtures computed once serve the next search"""
    s, s2 = e.real('s', lo, hi), 0.755
    M, p, at = search(e, [(s, 1, 0)], keep=True)
    e.true('101 mixtures', e.shape(M) == (101, 2))
    e.eq('mixtures of the grid', M, e.arr([[i / 100, 1 - i / 100] for i in range(101)]))
    _, p1, _ = search(e, [(s2, 1, 0)], mixtures=M, keep=True)
    _, p2, _ = search(e, [(s2, 1, 0)])
    e.eq('same result', p1, p2)
    _, p3, _ = search(e, [(s, 1, 0)], mixtures=M)
    e.eq('same result as the first time', p3, p)


@harness('P18', [dict()])
def constant(e):
    """a constant loss has no minimum to return"""
    c = e.real('c', 0, 1)
    mix, loss, at = wells(e, [(0, 0, c)])
    e.raises('constant loss', lambda: e.mod('search').global_search(loss, mix, 0, 0.01, None, False), ValueError)


@harness('P18', [dict(at=(0.1, 0.5, 0.9)), dict(at=(0.0, 0.33, 0.66)), dict(at=(0.25, 0.75, 1.0)), dict(at=(0.1, 0.3, 0.5, 0.7, 0.9)), dict(at=(0.05, 0.95, 0.5, 0.2)), dict(at=(0.02, 0.06, 0.1, 0.14, 0.18, 0.22, 0.7))], limit=120)
def many_wells(e, at):
    """several local minima, every order of their depths: the best one is returned"""
    best = int(e.pick('best', list(range(len(at)))))
    d = e.real('d', 0.015, 0.018) if len(at) < 5 else 0.016
    # the others: above the best one by different amounts, below the walls between the wells
    ws = [(s, 1, 0.05 + (0 if i == best else d + 0.0003 * ((3 * i + best) % 7))) for i, s in enumerate(at)]
    m, p, f = search(e, ws)
    e.true('as good as the best minimum', f(e.at(p, 1)) <= 0.05 + 0.01 + 1e-9)
    e.true('prevalence of the best minimum', e.abs(e.at(p, 1) - at[best]) <= 0.01 + 1e-9)


@harness('P18', [dict(s=0.31), dict(s=0.999), dict(s=0.005), dict(s=0.5)], limit=120)
def square(e, s):
    """a smooth loss with any scale and offset; any tolerance"""
    k, c = e.real('k', 0.5, 20), e.real('c', -1, 1)
    tol = e.pick('tol', [0.05, 0.01, 0.001])
    mixture = lambda prevalence, **kw: e.arr([prevalence, 1 - prevalence])
    loss = lambda m, test: (e.at(m, 0) - s) * (e.at(m, 0) - s) * k + c
    m, p = e.mod('search').global_search(loss, mixture, 0, float(tol), None, False)
    e.distribution('prevalences', p, 2)
    e.true('within the tolerance of the minimiser', e.abs(e.at(p, 1) - s) <= float(tol) + 1e-9)
