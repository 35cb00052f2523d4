"""Feature distribution matching."""
from symq.harness import harness
from props.common import *

BOUNDS = '2-3 classes (4 and 5 with concrete training data and every test set), 2-3 training and 1-2 test examples, 1-2 features, 2-3 bins; up to 7 training and 5 test examples, 3 features, 8 bins and 5 classes of which one training value and one test row are symbolic; further test sets and fits of the same object; every feature value in [-3,2] (test values in [-4,4]); PDF and CDF; HD, L1, L2 and a callable distance; all binning strategies'
OUTSIDE = 'larger samples and more bins; features with zero range; training tables for which the quadratic matrix of L2 is singular'


def edges(e, X, a, y, labels, k, strategy):
    m = len(y)
    xs = [e.at(X, i, a) for i in range(m)]
    if strategy == 'equal_width':
        lo, hi = e.min(*xs), e.max(*xs)
        return [None] + [lo + (hi - lo) * i / k for i in range(1, k)] + [None]
    return e.flat(e.mod('multiclass.df').compute_bincuts(e.arr(xs), y=e.data(y), classes=e.data(labels), n_bins=k, bin_strategy=strategy))


def columns(e, X, T, y, labels, k, strategy, cdf):
    post = cum if cdf else list
    cols, test = [[] for _ in labels], []
    for a in range(e.shape(X)[1]):
        ed = edges(e, X, a, y, labels, k, strategy)
        for c, lab in enumerate(labels):
            cols[c] += post(fractions(e, [e.at(X, i, a) for i in range(len(y)) if y[i] == lab], ed))
        test += post(fractions(e, [e.at(T, i, a) for i in range(e.shape(T)[0])], ed))
    return cols, test


def build(e, cls, k, strategy, distance, fn, verbose=0):
    kw = dict(n_bins=k, bin_strategy=strategy)
    if cls == 'DFX':
        kw.update(distance=distance, distribution_function=fn, verbose=verbose)
    return getattr(e.mod('multiclass.df'), cls)(**kw)


def inputs(e, y, t, f, strategy):
    m = len(y)
    X, T = e.mat('x', m, f, -3, 2), e.mat('t', t, f, -4, 4)
    for a in range(f):
        xs = [e.at(X, i, a) for i in range(m)]
        # the feature is not constant
        if strategy == 'binormal':
            d = [i for i in range(m) if y.count(y[i]) > 1][:2]
            e.assume(xs[d[0]] - xs[d[1]] >= 0.01)
        else:
            e.assume(e.max(*xs) - e.min(*xs) >= 0.01)
        if strategy == 'normal':
            e.assume(xs[0] - xs[1] >= 0.01)
    return X, T


@harness('P15', [dict(cls='DFX', distance='L1', fn='PDF', y=('no', 'yes', 'maybe'), t=1, f=1, k=2), dict(cls='HDX', distance='HD', fn='PDF', y=('b', 'a', 'b'), t=1, f=1, k=2), dict(cls='DFX', distance='HD', fn='PDF', y=(0, 1), t=1, f=1, k=2), dict(cls='DFX', distance='L1', fn='PDF', y=(4, 1, 4), t=1, f=1, k=3), dict(cls='DFX', distance='L1', fn='CDF', y=(0, 1), t=2, f=2, k=2, verbose=1),
                 dict(cls='HDX', distance='HD', fn='PDF', y=(0, -1), t=2, f=1, k=2), dict(cls='DFX', distance='L1', fn='PDF', y=(3, 1, 2), t=1, f=1, k=2), dict(cls='DFX', distance='L1', fn='CDF', y=(3, 1, 2), t=1, f=2, k=2),
                 dict(cls='DFX', distance='HD', fn='CDF', y=(0, 1), t=1, f=1, k=2), dict(cls='DFX', distance='L1', fn='PDF', y=(0, 1), t=1, f=1, k=2, strategy='equal_count'), dict(cls='DFX', distance='L1', fn='CDF', y=(1, 0), t=1, f=1, k=2, strategy='normal'),
                 dict(cls='DFX', distance='L1', fn='PDF', y=(1, 0, 1), t=1, f=1, k=2, strategy='binormal')],
         more=[dict(cls='DFX', distance='HD', fn='PDF', y=(3, 1, 2), t=1, f=1, k=2), dict(cls='DFX', distance='L1', fn='CDF', y=(0, 1, 0), t=2, f=2, k=3), dict(cls='HDX', distance='HD', fn='PDF', y=(0, 1), t=1, f=2, k=2),
               dict(cls='DFX', distance='HD', fn='CDF', y=(0, 1), t=1, f=2, k=2)])
def matching(e, cls, distance, fn, y, t, f, k, strategy='equal_width', verbose=0):
    labels = sorted(set(y))
    n = len(labels)
    X, T = inputs(e, y, t, f, strategy)
    s = e.snap(X), e.snap(T)
    q = build(e, cls, k, strategy, distance, fn, verbose)
    q.fit(X, e.data(y))
    k0 = e.mark()
    r = q.predict(T)
    cols, test = columns(e, X, T, y, labels, k, strategy, fn == 'CDF')
    e.minimises('minimum of the distance', r, n, mixture_loss(e, distance, cols, test), (e.since(k0) or [None])[-1])
    e.unchanged('training examples unchanged', X, s[0])
    e.unchanged('test examples unchanged', T, s[1])


FIX = {0: [0.1, 0.9], 1: [0.8, 0.3], 2: [0.95, 0.95], 3: [0.15, 0.05], 4: [0.5, 0.4]}


@harness('P15', [dict(fn='PDF', y=(0, 1), k=2), dict(fn='CDF', y=(3, 1, 1), k=3), dict(fn='CDF', y=(3, 1, 2), k=3)], more=[dict(fn='PDF', y=(0, 1, 1, 0), k=4)])
def l2(e, fn, y, k):
    """L2 with fixed training examples, every test set"""
    labels = sorted(set(y))
    n = len(labels)
    X = e.arr([[v + 0.01 * i for v in FIX[labels.index(c)]] for i, c in enumerate(y)])
    T = e.mat('t', 2, 2, -4, 4)
    q = build(e, 'DFX', k, 'equal_width', 'L2', fn)
    q.fit(X, e.data(y))
    k0 = e.mark()
    r = q.predict(T)
    cols, test = columns(e, X, T, y, labels, k, 'equal_width', fn == 'CDF')
    e.minimises('minimum of the squared distance', r, n, mixture_loss(e, 'L2', cols, test), (e.since(k0) or [None])[-1])


@harness('P15', [dict(distance='L1', fn='PDF', y=(9, 1, 4, 2), k=2, t=1), dict(distance='L1', fn='CDF', y=(9, 1, 4, 2, 1), k=3, t=2), dict(distance='HD', fn='PDF', y=(9, 1, 4, 2), k=2, t=1), dict(distance='L2', fn='PDF', y=(0, 1, 2, 3), k=3, t=1)],
         more=[dict(distance='L1', fn='PDF', y=(9, 1, 4, 2, 5), k=3, t=2), dict(distance='L1', fn='CDF', y=(9, 1, 4, 2), k=4, t=3)])
def many_classes(e, distance, fn, y, k, t):
    """four and five classes with fixed training examples, every test set"""
    labels = sorted(set(y))
    X = e.arr([[10 * v - 3 + 0.1 * i for v in FIX[labels.index(c)]] for i, c in enumerate(y)])
    T = e.mat('t', t, 2, -6, 9)
    q = build(e, 'DFX', k, 'equal_width', distance, fn)
    q.fit(X, e.data(y))
    k0 = e.mark()
    r = q.predict(T)
    cols, test = columns(e, X, T, y, labels, k, 'equal_width', fn == 'CDF')
    e.minimises('minimum of the distance', r, len(labels), mixture_loss(e, distance, cols, test), (e.since(k0) or [None])[-1])


@harness('P15', [dict(distance='L1', fn='CDF', y=(1, 0)), dict(distance='HD', fn='PDF', y=(1, 0)), dict(distance='L2', fn='PDF', y=(1, 0))])
def second_test_set(e, distance, fn, y):
    """the same object, another test set"""
    labels = sorted(set(y))
    X = e.arr([[0.9, 0.2], [0.1, 0.7]])
    T, U = e.mat('t', 1, 2, -4, 4), e.mat('u', 2, 2, -4, 4)
    q = build(e, 'DFX', 2, 'equal_width', distance, fn)
    q.fit(X, e.data(y))
    q.predict(T)
    k0 = e.mark()
    r = q.predict(U)
    cols, test = columns(e, X, U, y, labels, 2, 'equal_width', fn == 'CDF')
    e.minimises('minimum of the distance', r, 2, mixture_loss(e, distance, cols, test), (e.since(k0) or [None])[-1])


@harness('P15', [dict(fn='PDF', y=(0, 1, 0, 1), k=3, target=0.3), dict(fn='CDF', y=(7, 7, 2, 2), k=2, target=0.6)])
def callable_distance(e, fn, y, k, target):
    """a callable distance receives mixtures p*positive + (1-p)*negative and the test vector; the best p is returned"""
    labels = sorted(set(y))
    X = e.arr([[0.1, 0.2], [0.4, 0.9], [0.7, 0.3], [0.9, 0.5]])
    T = e.mat('t', 2, 2, -4, 4)
    cols, test = columns(e, X, T, y, labels, k, 'equal_width', fn == 'CDF')
    neg, pos = [[float(v) for v in c] for c in cols]
    j = [i for i in range(len(pos)) if abs(pos[i] - neg[i]) > 0.2][0]
    seen = []

    def dist(mix, tst):
        m = e.flat(mix)
        p = (float(m[j]) - neg[j]) / (pos[j] - neg[j])
        seen.append((p, m, e.flat(tst)))
        return (p - target) * (p - target)
    q = e.mod('multiclass.df').DFX(n_bins=k, distance=dist, distribution_function=fn, tol=1e-3)
    q.fit(X, e.data(y))
    r1 = q.predict(T)
    n1 = len(seen)
    r2 = q.predict(T)
    for r in (r1, r2):
        e.eq('the best prevalence is returned', r, [1 - target, target], tol=2e-3)
    for p, m, tst in (seen[:3] + seen[n1 - 3:n1 + 3] + seen[-3:]):
        e.eq('mixture of the class histograms', m, [p * b + (1 - p) * a for a, b in zip(neg, pos)], tol=1e-6)
        e.eq('histogram of the test examples', tst, test)


BIG = [dict(distance='L1', fn='PDF', y=(-3, 4, 4, -3, 4, 4, -3), t=5, f=1, k=4), dict(distance='HD', fn='PDF', y=(4, -3, -3, 4, -3), t=5, f=2, k=3), dict(distance='HD', fn='PDF', y=(4, -3, -3, 4, -3), t=4, f=1, k=4, cls='HDX'),
       dict(distance='L1', fn='CDF', y=(4, -3, -3, 4, -3), t=5, f=3, k=3), dict(distance='L2', fn='PDF', y=(4, -3, -3, 4, -3), t=5, f=2, k=8), dict(distance='L1', fn='PDF', y=(7, -1, 3, 3, 7, 3), t=5, f=2, k=3), dict(distance='L2', fn='CDF', y=(7, -1, 3, 3, 7), t=4, f=2, k=3),
       dict(distance='L1', fn='CDF', y=(7, -1, 3, 12, 7, 3), t=4, f=1, k=3), dict(distance='L1', fn='PDF', y=(7, -1, 3, 12, 20), t=4, f=2, k=2), dict(distance='L1', fn='PDF', y=(-3, 4, 4, -3, 4), t=4, f=2, k=3, strategy='equal_count'),
       dict(distance='L1', fn='CDF', y=(-3, 4, 7, -3, 4), t=4, f=1, k=3, strategy='normal'), dict(distance='L1', fn='PDF', y=(-3, 4, 4, -3, 4), t=4, f=2, k=4, strategy='binormal'), dict(distance='HD', fn='PDF', y=(7, -1, 3, 7), t=4, f=1, k=2)]


def given(e, tag, m, f, free, lo, hi):
    """a table with given values but for those at the positions `free`"""
    v = [[((3 * i * i + 5 * a + 2 * i * a) % 11 - 4) / 2. for a in range(f)] for i in range(m)]
    for i, a in free:
        v[i][a] = e.real('%s%d_%d' % (tag, i, a), lo, hi)
    return e.arr(v)


def answer(e, q, distance, fn, y, t, f, k, strategy, tag, free=True):
    m, labels = len(y), sorted(set(y))
    X = given(e, 'x' + tag, m, f, [(m - 1, 0)] if free and distance != 'L2' and strategy == 'equal_width' else [], -4, 3)
    T = given(e, 't' + tag, t, f, [(t - 1, a) for a in range(f)] if free else [], -5, 5)
    q.fit(X, e.data(y))
    for again in (False, True):
        if again:
            T = given(e, 'u' + tag, 2, f, [(1, 0)], -5, 5)[::-1]
        k0 = e.mark()
        r = q.predict(T)
        cols, test = columns(e, X, T, y, labels, k, strategy, fn == 'CDF')
        e.minimises('minimum of the distance', r, len(labels), mixture_loss(e, distance, cols, test), (e.since(k0) or [None])[-1])


@harness('P15', BIG, limit=60)
def larger(e, distance, fn, y, t, f, k, cls='DFX', strategy='equal_width'):
    """more examples, classes and bins: one training and some test values are symbolic; then a second test set"""
    answer(e, build(e, cls, k, strategy, distance, fn), distance, fn, y, t, f, k, strategy, '')


@harness('P15', [dict(distance='L1', fn='PDF', k=3), dict(distance='HD', fn='PDF', k=2, cls='HDX'), dict(distance='L1', fn='CDF', k=4), dict(distance='L2', fn='PDF', k=3), dict(distance='L1', fn='PDF', k=2, strategy='equal_count')], limit=60)
def again(e, distance, fn, k, cls='DFX', strategy='equal_width'):
    """fitted three times, with other labels and numbers of classes, examples and features: each answer from the present data alone"""
    q = build(e, cls, k, strategy, distance, fn)
    for j, (y, f) in enumerate((((4, -1, 4), 2), ((2, 0, 1, 1), 1), ((8, 3, 8, 3), 2))):
        answer(e, q, distance, fn, y, 2, f, k, strategy, '%d_' % j, j == 1)
