"""Quantile matching."""
from symq.harness import harness
from props.common import *

BOUNDS = 'quantile vectors: every sorted sample of up to 5 values (up to 16 values of which two are symbolic), every prevalence in [0,1], 1-5 quantiles, several label patterns and label values, unweighted samples up to 5 values; the quantifier (fitted up to three times, up to 9 examples): concrete training scores in any order, every test sample up to 3 scores, candidate prevalences on the whole grid and in the refined search'
OUTSIDE = 'larger samples; quantile boundaries closer than 1e-3 to an example boundary (the code ignores weights below 1e-4)'


def quantiles(e, xs, ws, k):
    """averages of the k equal-mass slices of the sorted weighted sample"""
    N = len(xs)
    W = [0] + cum(ws)
    cuts = [j * N / k for j in range(k + 1)]
    out = []
    for j in range(k):
        s = 0
        for i, x in enumerate(xs):
            hi, lo = e.min(W[i + 1], cuts[j + 1]), e.max(W[i], cuts[j])
            s = s + x * e.max(hi - lo, 0)
        out.append(s / (N / k))
    return out


def weights(y, labels, p):
    N, neg, pos = len(y), sum(1 for v in y if v == labels[0]), sum(1 for v in y if v == labels[1])
    return [(1 - p) * N / neg if v == labels[0] else p * N / pos for v in y]


@harness('P19', [dict(m=m, k=k) for m, k in ((1, 2), (3, 2), (4, 4), (5, 3), (4, 1), (2, 5))], more=[dict(m=7, k=5), dict(m=8, k=8)])
def plain(e, m, k):
    """quantiles of an unweighted sample"""
    x = e.vec('x', m)
    xs = e.flat(x)
    for a, b in zip(xs, xs[1:]):
        e.assume(a <= b)
    s = e.snap(x)
    q = e.mod('search').compute_quantiles(prevalence=None, probabilities=x, n_quantiles=k)
    e.eq('quantiles', q, quantiles(e, xs, [1] * m, k), tol=1e-3)
    e.unchanged('sample unchanged', x, s)


@harness('P19', [dict(y=(0, 1), k=2), dict(y=(1, 0, 1), k=2), dict(y=(5, -3, -3, 5), k=3), dict(y=(0, 0, 1, 0), k=4), dict(y=(1, 1, 0, 0), k=1), dict(y=(2, 9, 2, 2, 9), k=2)],
         more=[dict(y=(0, 1, 0, 1, 1), k=4), dict(y=(0, 1, 1, 0, 0, 1), k=5)], limit=60)
def weighted(e, y, k):
    """quantiles of the sample reweighted by a candidate prevalence"""
    labels = sorted(set(y))
    x, p = e.vec('x', len(y)), e.real('p', 0, 1)
    xs = e.flat(x)
    for a, b in zip(xs, xs[1:]):
        e.assume(a <= b)
    ws = weights(y, labels, p)
    W = cum(ws)
    for c in [j * len(y) / k for j in range(1, k)]:
        for w in W[:-1]:
            e.assume(e.or_(w - c >= 0.001, w - c <= -0.001))
    q = e.mod('search').compute_quantiles(prevalence=p, probabilities=x, n_quantiles=k, y=e.data(y), classes=e.data(labels))
    e.eq('quantiles', q, quantiles(e, xs, ws, k), tol=1e-3)


@harness('P19', [dict(y=(0, 1), k=k, p=p) for k, p in ((2, 0.0), (2, 1.0), (2, 0.5), (3, 0.25))] + [dict(y=(1, 0, 0, 1), k=4, p=0.5), dict(y=(1, 0, 0, 1), k=2, p=0.75), dict(y=(0, 0, 1, 1), k=4, p=0.0)])
def level(e, y, k, p):
    """slice boundaries that coincide with example boundaries"""
    labels = sorted(set(y))
    x = e.vec('x', len(y))
    xs = e.flat(x)
    for a, b in zip(xs, xs[1:]):
        e.assume(a <= b)
    q = e.mod('search').compute_quantiles(prevalence=p, probabilities=x, n_quantiles=k, y=e.data(y), classes=e.data(labels))
    e.eq('quantiles', q, quantiles(e, xs, weights(y, labels, p), k), tol=1e-3)


TRAIN = [[0.35, 0.65], [0.9, 0.1], [0.05, 0.95], [0.6, 0.4], [0.3, 0.7]]


@harness('P19', [dict(y=(1, 0, 1, 0, 1), k=2, t=2, target=0.3), dict(y=(8, 2, 8, 2, 2), k=3, t=3, target=0.7), dict(y=(1, 0, 1, 0, 1), k=1, t=2, target=1.0), dict(y=(1, 0, 0, 0, 1), k=4, t=1, target=0.0, verbose=1)],
         more=[dict(y=(1, 0, 1, 0, 1), k=8, t=4, target=0.45)])
def quanty(e, y, k, t, target, verbose=0):
    """the quantifier compares the weighted training quantiles with the test quantiles and returns the best prevalence"""
    labels = sorted(set(y))
    T = e.probs('t', t, 2)
    order = sorted(range(len(y)), key=lambda i: TRAIN[i][1])
    xs, ys = [TRAIN[i][1] for i in order], [y[i] for i in order]
    means = [sum(x for x, v in zip(xs, ys) if v == l) / sum(1 for v in ys if v == l) for l in labels]
    seen = []

    def dist(mix, tst):
        m = e.flat(mix)
        p = (sum(float(v) for v in m) / k - means[0]) / (means[1] - means[0])
        seen.append((p, m, e.flat(tst)))
        return (p - target) * (p - target)
    q = e.mod('binary.quantiles').QUANTy(n_quantiles=k, distance=dist, tol=1e-3, verbose=verbose)
    q.fit(None, e.data(y), predictions_train=e.arr(TRAIN))
    s = e.snap(T)
    r1 = q.predict(None, predictions_test=T)
    n1 = len(seen)
    r2 = q.predict(None, predictions_test=T)
    for r in (r1, r2):
        e.eq('the best prevalence is returned', r, [1 - target, target], tol=3e-3)
    ts = sorted([e.at(T, i, 1) for i in range(t)])
    want = quantiles(e, ts, [1] * t, k)
    e.true('the distance is used in both predictions', 0 < n1 < len(seen))
    for p, m, tst in (seen[:101:10] + seen[n1 - 3:n1 + 3] + seen[-3:]):
        pp = min(max(p, 0), 1)
        e.eq('weighted training quantiles', m, [float(v) for v in quantiles(e, xs, weights(ys, labels, pp), k)], tol=2e-3)
        e.eq('test quantiles', tst, want, tol=1e-3)
    e.true('the grid covers both ends', min(s[0] for s in seen) < 0.011 and max(s[0] for s in seen) > 0.989)
    e.unchanged('test predictions unchanged', T, s)


@harness('P19', [dict(lo=0.3, hi=0.31), dict(lo=0.72, hi=0.73)], more=[dict(lo=0.18, hi=0.2), dict(lo=0.84, hi=0.86)], limit=120)
def optimum(e, lo, hi):
    """the prevalence whose quantiles are closest"""
    tab = [[0.8, 0.2], [0.1, 0.9], [0.85, 0.15]]
    a, b = e.real('a', lo, hi), e.real('b', lo, hi)
    T = e.arr([[1 - a, a], [1 - b, b]])
    q = e.mod('binary.quantiles').QUANTy(n_quantiles=1, tol=5e-3, distance=e.mod('metrics.multiclass').l1).fit(None, e.data((0, 1, 0)), predictions_train=e.arr(tab))
    r = q.predict(None, predictions_test=T)
    x = e.at(r, 1)
    e.distribution('prevalences', r, 2)
    e.true('the mixture mean is the test mean', e.abs(x * 0.9 + (1 - x) * 0.175 - (a + b) / 2) <= 0.006)


@harness('P19', [dict()])
def multiclass(e):
    """more than two classes are rejected"""
    P = e.probs('p', 3, 3)
    e.raises('three classes', lambda: e.mod('binary.quantiles').QUANTy().fit(None, e.data((0, 1, 2)), predictions_train=P), TypeError)


def sorted_values(e, m, free):
    """sorted given values but for two symbolic ones"""
    v = [(3 * i + i % 3) / (4. * m) for i in range(m)]
    for i in free:
        v[i] = e.real('x%d' % i, v[i - 1] if i else 0, v[i + 1] if i < m - 1 else 1)
    return e.arr(v), v


@harness('P19', [dict(m=9, k=4), dict(m=12, k=5), dict(m=6, k=9), dict(m=5, k=16), dict(m=16, k=8), dict(m=7, k=7)])
def plain_larger(e, m, k):
    x, xs = sorted_values(e, m, (0, m // 2 + 1))
    s = e.snap(x)
    q = e.mod('search').compute_quantiles(prevalence=None, probabilities=x, n_quantiles=k)
    e.eq('quantiles', q, quantiles(e, xs, [1] * m, k), tol=1e-3)
    e.unchanged('sample unchanged', x, s)


@harness('P19', [dict(y=(0, 1, 1, 0, 1, 0, 1, 0), k=3, p=0.35), dict(y=(-4, 6, 6, -4, 6, 6, 6), k=5, p=0.81), dict(y=(3, 3, 3, 3, 9, 9), k=8, p=0.13), dict(y=(9, 3, 9, 3, 9), k=4, p=0.0), dict(y=(9, 3, 9, 3, 9, 9), k=4, p=1.0), dict(y=(0, 1, 1, 0, 1, 0), k=16, p=0.52)], limit=60)
def weighted_larger(e, y, k, p):
    """given prevalences around a symbolic one"""
    labels = sorted(set(y))
    x, xs = sorted_values(e, len(y), (1, len(y) - 2))
    for pp in (p, e.real('p', max(p - 0.001, 0), min(p + 0.001, 1))):
        ws = weights(y, labels, pp)
        W = cum(ws)
        for c in [j * len(y) / k for j in range(1, k)]:
            for w in W[:-1]:
                e.assume(e.or_(w - c >= 0.0002, w - c <= -0.0002))
        q = e.mod('search').compute_quantiles(prevalence=pp, probabilities=x, n_quantiles=k, y=e.data(y), classes=e.data(labels))
        e.eq('quantiles', q, quantiles(e, xs, ws, k), tol=3e-3)


SCORES = [0.65, 0.1, 0.95, 0.4, 0.7, 0.25, 0.85, 0.05, 0.5]


@harness('P19', [dict(fits=(((1, 0, 1, 0, 1, 0, 0), 6), ((3, 8, 8), 2)), k=3), dict(fits=(((5, -2), 1), ((0, 1, 0, 1, 1), 5), ((-3, -9, -3, -9), 3)), k=4), dict(fits=(((1, 0, 1, 0, 0, 1, 1, 0, 1), 9),), k=8)], limit=60)
def again(e, fits, k):
    """fitted again with other labels and sizes: quantiles of the present data alone"""
    seen, par = [], [None, None, 0.5]

    def dist(mix, tst):
        m = e.flat(mix)
        p = (sum(float(v) for v in m) / k - par[0]) / (par[1] - par[0])
        seen.append((p, m, e.flat(tst)))
        return (p - par[2]) * (p - par[2])
    q = e.mod('binary.quantiles').QUANTy(n_quantiles=k, distance=dist, tol=1e-3)
    for j, (y, t) in enumerate(fits):
        labels = sorted(set(y))
        m = len(y)
        sc = [SCORES[(i + 2 * j) % 9] for i in range(m)]
        order = sorted(range(m), key=lambda i: sc[i])
        xs, ys = [sc[i] for i in order], [y[i] for i in order]
        par[0], par[1] = [sum(x for x, v in zip(xs, ys) if v == l) / sum(1 for v in ys if v == l) for l in labels]
        q.fit(None, e.data(y), predictions_train=e.arr([[1 - v, v] for v in sc]))
        for tt in (t, 2):
            par[2] = 0.3 + 0.2 * j
            del seen[:]
            T = mixed_probs(e, 't%d_%d_' % (j, tt), tt, 2, (0,) if j == 0 and tt == 2 else ())
            r = q.predict(None, predictions_test=T)
            e.eq('the best prevalence is returned', r, [1 - par[2], par[2]], tol=3e-3)
            want = quantiles(e, sorted([e.at(T, i, 1) for i in range(tt)]), [1] * tt, k)
            for p, mx, tst in seen[:101:20] + seen[-2:]:
                pp = min(max(p, 0), 1)
                e.eq('weighted training quantiles', mx, [float(v) for v in quantiles(e, xs, weights(ys, labels, pp), k)], tol=2e-3)
                e.eq('test quantiles', tst, want, tol=1e-3)
