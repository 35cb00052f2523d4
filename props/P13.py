"""Cut points of the binning strategies and histograms over them."""
from symq.harness import harness
from props.common import *
from scipy.stats import norm as _norm

BOUNDS = '1-5 symbolic values (any real in [-2,2] or [0,1]) and up to 12 values of which 2 are symbolic, 1-16 bins, all strategies, 2-4 classes; 1-2 symbolic histogram values in [-5,5]'
OUTSIDE = 'more values; values closer than rounding to a cut point'
INF = float('inf')


def bincuts(e, x, **kw):
    return e.flat(e.mod('multiclass.df').compute_bincuts(x, **kw))


def values(e, m, free, lo=-2, hi=2):
    """m values; beyond the first `free` ones they are given"""
    v = e.flat(e.vec('x', min(m, free), lo, hi))
    return e.arr(v + [(5 * i * i % 17) / 16. if lo == 0 else (5 * i * i % 17) / 8. - 1 for i in range(len(v), m)])


def shape_ok(e, c, k):
    e.true('bins+1 cut points', len(c) == k + 1)
    e.eq('first cut point is unbounded', c[0], -INF)
    e.eq('last cut point is unbounded', c[-1], INF)
    for i in range(1, k - 1):
        e.le('cut points do not decrease', c[i], c[i + 1])


def mass(e, cuts, k, name='v', m=2, lo=-5, hi=5):
    """every histogram keeps all the mass, each value in the bin whose cut points enclose it"""
    v = e.vec(name, m, lo, hi)
    h = e.flat(e.np.histogram(v, bins=cuts)[0])
    e.eq('the histogram keeps every value', e.sum(h), m)
    c = e.flat(cuts)
    for b in range(k):
        n = 0
        for x in e.flat(v):
            lo_ok = True if b == 0 else x >= c[b]
            hi_ok = True if b == k - 1 else x < c[b + 1]
            n = n + e.ind(e.and_(lo_ok, hi_ok))
        e.eq('values are counted between their cut points', h[b], n)


@harness('P13', [dict(m=3, k=4, rng=(0, 1)), dict(m=2, k=8, rng=(0, 1)), dict(m=3, k=3, rng=None), dict(m=1, k=1, rng=(0, 1)), dict(m=2, k=2, rng=(-1, 3)), dict(m=1, k=3, rng=None), dict(m=2, k=1, rng=None), dict(m=9, k=6, rng=None), dict(m=7, k=16, rng=(0, 1))],
         more=[dict(m=5, k=8, rng=None), dict(m=4, k=5, rng=(0, 1))])
def equal_width(e, m, k, rng):
    x = values(e, m, 4 if m < 6 else 2) if rng is None else values(e, m, 4 if m < 6 else 2, 0, 1)
    s = e.snap(x)
    if rng is None:
        lo, hi = e.min(*e.flat(x)), e.max(*e.flat(x))
        e.assume(e.or_(hi - lo >= 0.001, hi - lo <= 0) if m > 1 else True)
        c = bincuts(e, x, n_bins=k, bin_strategy='equal_width')
        same = bool(hi - lo <= 0) if m > 1 else True
        if same:
            shape_ok(e, c, k)
            return
    else:
        lo, hi = rng
        c = bincuts(e, x, n_bins=k, bin_strategy='equal_width', att_range=list(rng))
    shape_ok(e, c, k)
    for i in range(1, k):
        e.eq('cut points split the range evenly', c[i], lo + (hi - lo) * i / k)
    e.unchanged('values unchanged', x, s)


@harness('P13', [dict(m=4, k=2), dict(m=3, k=3), dict(m=4, k=3), dict(m=5, k=2), dict(m=3, k=4), dict(m=2, k=8), dict(m=3, k=8), dict(m=1, k=2), dict(m=3, k=1), dict(m=9, k=4), dict(m=12, k=8), dict(m=7, k=7)], more=[dict(m=5, k=5), dict(m=17, k=16), dict(m=6, k=4), dict(m=6, k=3)])
def equal_count(e, m, k):
    x = values(e, m, 6 if m < 7 else 2)
    s = e.snap(x)
    c = bincuts(e, x, n_bins=k, bin_strategy='equal_count')
    shape_ok(e, c, k)
    xs = e.flat(x)
    # order statistics by insertion
    srt = []
    for v in xs:
        out = []
        for w in srt:
            out.append(e.min(v, w))
            v = e.max(v, w)
        srt = out + [v]
    for i in range(1, k):
        p = int(round(m * i / k))
        if 1 <= p <= m - 1:
            e.eq('midway between the values around the boundary', c[i], (srt[p - 1] + srt[p]) / 2)
        else:
            e.le('cut points within the data', srt[0], c[i])
            e.le('cut points within the data', c[i], srt[-1])
    e.unchanged('values unchanged', x, s)


@harness('P13', [dict(y=(0, 1, 0), k=2), dict(y=(5, 2, 2, 5), k=4), dict(y=(1, 2, 3), k=3), dict(y=(4, 4, 4, 4, 7), k=4), dict(y=(0, 1), k=1), dict(y=(-3, 8, -3, 2, 5, 8, -3), k=5), dict(y=(9, 1, 1, 9, 1, 1), k=9)], more=[dict(y=(3, 1, 2, 3, 3), k=8)])
def normal(e, y, k):
    labels = sorted(set(y))
    m = len(y)
    x = values(e, m, 5 if m < 6 else 2)
    s = e.snap(x)
    xs = e.flat(x)
    cnt = {c: sum(1 for v in y if v == c) for c in labels}
    w = [1.0 / cnt[v] / len(labels) for v in y]
    mu = e.sum([w[i] * xs[i] for i in range(m)])
    var = e.sum([w[i] * (xs[i] - mu) * (xs[i] - mu) for i in range(m)])
    e.assume(var >= 0.0001)
    c = bincuts(e, x, y=e.data(y), classes=e.data(labels), n_bins=k, bin_strategy='normal')
    shape_ok(e, c, k)
    sd = e.sqrt(var)
    for i in range(1, k):
        e.eq('standard normal quantiles scaled by the class-balanced mean and deviation', c[i], sd * float(_norm.ppf(i / k)) + mu, tol=1e-5)
    e.unchanged('values unchanged', x, s)


@harness('P13', [dict(y=(0, 1, 0), k=2), dict(y=(5, 2, 2, 5), k=4), dict(y=(4, 7, 7), k=3), dict(y=(-1, 3, 3, -1, -1, 3, 3), k=6)], more=[dict(y=(3, 1, 1, 3, 3), k=4)])
def binormal(e, y, k):
    labels = sorted(set(y))
    m = len(y)
    x = values(e, m, 5 if m < 6 else 2)
    xs = e.flat(x)
    mus, sds = [], []
    for c in labels:
        v = [xs[i] for i in range(m) if y[i] == c]
        mu = e.mean(v)
        mus.append(mu)
        sds.append(e.mean([(t - mu) * (t - mu) for t in v]))
    e.assume(e.or_(*[v >= 0.0001 for v in sds]))
    s = e.snap(x)
    c = bincuts(e, x, y=e.data(y), classes=e.data(labels), n_bins=k, bin_strategy='binormal')
    shape_ok(e, c, k)
    mu, sd = (mus[0] + mus[1]) / 2, (e.sqrt(sds[0]) + e.sqrt(sds[1])) / 2
    for i in range(1, k):
        e.eq('standard normal quantiles scaled by the class-balanced mean and deviation', c[i], sd * float(_norm.ppf(i / k)) + mu, tol=1e-5)
    e.unchanged('values unchanged', x, s)


@harness('P13', [dict(strategy=s, k=k) for s, k in (('normal', 2), ('normal', 5), ('binormal', 2), ('binormal', 4))])
def no_deviation(e, strategy, k):
    """all values of a class equal: the bins still cover everything"""
    y = (0, 1, 0, 1)
    if strategy == 'normal':
        a = e.int('a', (0, 1, -1, 2))
        x = e.arr([a + 0.0] * 4)
    else:
        a, b = e.int('a', (0, 1, -1, 2)), e.int('b', (0, 1, 3))
        x = e.arr([a + 0.0, b + 0.0, a + 0.0, b + 0.0])
    c = e.mod('multiclass.df').compute_bincuts(x, y=e.data(y), classes=e.data([0, 1]), n_bins=k, bin_strategy=strategy)
    shape_ok(e, e.flat(c), k)
    v = e.vec('v', 1, -5, 5)
    e.eq('the histogram keeps every value', e.sum(e.flat(e.np.histogram(v, bins=c)[0])), 1)


@harness('P13', [dict(strategy='equal_width', m=2, k=3), dict(strategy='equal_count', m=3, k=3), dict(strategy='normal', m=3, k=2)], more=[dict(strategy='normal', m=4, k=4), dict(strategy='binormal', m=4, k=3)])
def histogram(e, strategy, m, k):
    """histograms over the cut points, for values inside and outside the training range"""
    y = [i % 2 for i in range(m)]
    x = e.vec('x', m)
    if strategy in ('normal', 'binormal'):
        e.assume(e.at(x, 0) - e.at(x, 2) >= 0.01)
    c = e.mod('multiclass.df').compute_bincuts(x, y=e.data(y), classes=e.data([0, 1]), n_bins=k, bin_strategy=strategy, att_range=[0, 1])
    mass(e, c, k)


@harness('P13', [dict(strategy='equal'), dict(strategy='')])
def unknown(e, strategy):
    x = e.vec('x', 3)
    e.raises('unknown strategies are rejected', lambda: e.mod('multiclass.df').compute_bincuts(x, y=e.data([0, 1, 0]), classes=e.data([0, 1]), bin_strategy=strategy), ValueError)
    e.raises('binormal needs two classes', lambda: e.mod('multiclass.df').compute_bincuts(x, y=e.data([0, 1, 2]), classes=e.data([0, 1, 2]), bin_strategy='binormal'), ValueError)
