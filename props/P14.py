"""Score distribution matching."""
from symq.harness import harness
from props.common import *

BOUNDS = '2 classes: 2-3 training, 1-2 test examples, 2-4 bins; 3 classes: 3 training, 1 test example, 2 bins; up to 7 training and 9 test examples, 16 bins and 5 classes with one symbolic training row and 1-2 symbolic test rows; a second and a third fit of the same object; 4 and 5 classes with concrete training tables and every test set; every probability table; PDF and CDF; HD, L1, L2 and a callable distance; all binning strategies; second test set with the same object'
OUTSIDE = 'larger samples and more bins (thorough tier: 4 training examples, 8 bins); training tables for which the quadratic matrix of L2 is singular (nearest_pd, see P16)'


def edges(e, P, d, y, labels, k, strategy):
    if strategy == 'equal_width':
        return [None] + [i / k for i in range(1, k)] + [None]
    x = e.arr([e.at(P, i, d) for i in range(len(y))])
    return e.flat(e.mod('multiclass.df').compute_bincuts(x, y=e.data(y), classes=e.data(labels), n_bins=k, bin_strategy=strategy, att_range=[0, 1]))


def columns(e, P, T, y, labels, k, strategy, cdf):
    n = len(labels)
    nd = 1 if n == 2 else n
    cols, test = [[] for _ in labels], []
    for d in range(nd):
        ed = edges(e, P, d, y, labels, k, strategy)
        post = cum if cdf else list
        for c, lab in enumerate(labels):
            cols[c] += post(fractions(e, [e.at(P, i, d) for i in range(len(y)) if y[i] == lab], ed))
        test += post(fractions(e, [e.at(T, i, d) for i in range(len(T))], ed))
    return cols, test


def build(e, cls, k, strategy, distance, dist_fn, verbose=0):
    kw = dict(n_bins=k, bin_strategy=strategy, verbose=verbose)
    if cls == 'DFy':
        kw.update(distance=distance, distribution_function=dist_fn)
    return getattr(e.mod('multiclass.df'), cls)(**kw)


Q = [dict(cls='DFy', distance=d, fn=f, y=(0, 1), t=2, k=3) for d in ('HD', 'L1') for f in ('PDF', 'CDF')] + [
    dict(cls='DFy', distance='L1', fn='PDF', y=(8, 3, 3), t=2, k=4), dict(cls='HDy', distance='HD', fn='PDF', y=(5, -5, 5), t=1, k=2, verbose=1),
    dict(cls='MMy', distance='L1', fn='CDF', y=(5, -5, 5), t=2, k=3, verbose=1), dict(cls='DFy', distance='L1', fn='PDF', y=(4, 1, 9), t=1, k=2),
    dict(cls='DFy', distance='L1', fn='CDF', y=(4, 1, 9), t=2, k=2), dict(cls='DFy', distance='HD', fn='PDF', y=(4, 1, 9), t=1, k=2), dict(cls='HDy', distance='HD', fn='PDF', y=(1, 0), t=1, k=8),
    dict(cls='MMy', distance='L1', fn='CDF', y=(2, 1, 3, 1), t=1, k=2),
    dict(cls='DFy', distance='L1', fn='PDF', y=(0, 1, 0), t=1, k=2, strategy='equal_count'), dict(cls='DFy', distance='L1', fn='CDF', y=(1, 0, 1), t=1, k=2, strategy='normal'),
    dict(cls='DFy', distance='L1', fn='PDF', y=(1, 0, 1), t=1, k=3, strategy='binormal'), dict(cls='MMy', distance='L1', fn='CDF', y=(3, 2, 1), t=1, k=2, strategy='equal_count')]


@harness('P14', Q + [dict(cls='DFy', distance='L1', fn='PDF', y=('no', 'yes', 'maybe'), t=1, k=2), dict(cls='HDy', distance='HD', fn='PDF', y=('b', 'a', 'b'), t=1, k=2)], more=[dict(cls='HDy', distance='HD', fn='PDF', y=(0, 1, 1, 0), t=2, k=3), dict(cls='DFy', distance='HD', fn='CDF', y=(4, 1, 9), t=1, k=2), dict(cls='DFy', distance='L1', fn='PDF', y=(4, 1, 9, 1), t=2, k=4),
                         dict(cls='MMy', distance='L1', fn='CDF', y=(0, 1, 1, 0), t=3, k=8), dict(cls='DFy', distance='HD', fn='PDF', y=(1, 0), t=1, k=2, strategy='normal'), dict(cls='DFy', distance='L1', fn='PDF', y=(1, 2, 3, 4), t=1, k=2)])
def matching(e, cls, distance, fn, y, t, k, strategy='equal_width', verbose=0):
    labels = sorted(set(y))
    n = len(labels)
    P, T = e.probs('p', len(y), n), e.probs('t', t, n)
    if strategy in ('normal', 'binormal'):
        # deviation within a class is not negligible
        i, j = ([a for a in range(len(y)) if sum(1 for v in y if v == y[a]) > 1] + [0, 1])[:2]
        e.assume(e.at(P, i, 0) - e.at(P, j, 0) >= 0.01)
    s = e.snap(P), e.snap(T)
    q = build(e, cls, k, strategy, distance, fn, verbose)
    q.fit(None, e.data(y), predictions_train=P)
    r, ps = run(e, q, T)
    refs = []
    cols, test = columns(e, P, T, y, labels, k, strategy, fn == 'CDF')
    refs.append(mixture_loss(e, distance, cols, test))
    if fn == 'CDF' and n > 2 and distance == 'HD':
        c2, t2 = columns(e, P, T, y, labels, k, strategy, False)
        refs.append(mixture_loss(e, distance, [cum(c) for c in c2], cum(t2)))
    e.minimises('minimum of the distance', r, n, refs, (ps or [None])[-1])
    e.unchanged('training predictions unchanged', P, s[0])
    e.unchanged('test predictions unchanged', T, s[1])


WIDE = {4: [[0.7, 0.1, 0.15, 0.05], [0.1, 0.6, 0.1, 0.2], [0.05, 0.2, 0.7, 0.05], [0.2, 0.05, 0.15, 0.6], [0.4, 0.35, 0.15, 0.1]],
        5: [[0.6, 0.1, 0.15, 0.05, 0.1], [0.1, 0.55, 0.1, 0.2, 0.05], [0.05, 0.1, 0.7, 0.05, 0.1], [0.1, 0.05, 0.15, 0.65, 0.05], [0.1, 0.15, 0.05, 0.1, 0.6]]}


@harness('P14', [dict(cls='DFy', distance='L1', fn='PDF', y=(4, 9, 1, -6), t=1, k=2), dict(cls='MMy', distance='L1', fn='CDF', y=(4, 9, 1, -6), t=1, k=3), dict(cls='DFy', distance='HD', fn='PDF', y=(3, 2, 1, 0, 3), t=1, k=2),
                 dict(cls='DFy', distance='L2', fn='PDF', y=(0, 1, 2, 3), t=1, k=2)],
         more=[dict(cls='DFy', distance='L1', fn='PDF', y=(4, 9, 1, -6), t=2, k=3), dict(cls='DFy', distance='L1', fn='PDF', y=(3, 2, 1, 0, -1), t=1, k=2), dict(cls='DFy', distance='L2', fn='CDF', y=(3, 2, 1, 0, 2), t=2, k=2)])
def many_classes(e, cls, distance, fn, y, t, k):
    """four and five classes, given training predictions"""
    labels = sorted(set(y))
    n = len(labels)
    # example i belongs to the class with a large probability in row i
    P = e.arr([WIDE[n][labels.index(v)] if i < n else WIDE[n][n] for i, v in enumerate(y)])
    T = e.probs('t', t, n)
    q = build(e, cls, k, 'equal_width', distance, fn)
    q.fit(None, e.data(y), predictions_train=P)
    r, ps = run(e, q, T)
    cols, test = columns(e, P, T, y, labels, k, 'equal_width', fn == 'CDF')
    refs = [mixture_loss(e, distance, cols, test)]
    e.minimises('minimum of the distance', r, n, refs, (ps or [None])[-1])


@harness('P14', [dict(fn='PDF', y=(0, 1), k=2, free='t'), dict(fn='CDF', y=(3, 1, 1), k=3, free='t', row=True), dict(fn='PDF', y=(0, 1, 1), k=2, free='p')], more=[dict(fn='CDF', y=(0, 1, 1), k=3, free='p'), dict(fn='PDF', y=(4, 1, 9), k=2, free='t')])
def l2(e, fn, y, k, free, row=False):
    """L2: training predictions with distinct class histograms"""
    labels = sorted(set(y))
    n = len(labels)
    base = {2: {0: [0.9, 0.1], 1: [0.2, 0.8]}, 3: {0: [0.8, 0.1, 0.1], 1: [0.1, 0.8, 0.1], 2: [0.1, 0.1, 0.8]}}[n]
    P = e.arr([base[labels.index(v)] if i == 0 or y.index(v) == i or free == 't' else e.flat(e.simplex('p%d_' % i, n)) for i, v in enumerate(y)])
    T = e.probs('t', 2, n)
    q = build(e, 'DFy', k, 'equal_width', 'L2', fn)
    q.fit(None, e.data(y), predictions_train=P)
    r, ps = run(e, q, T)
    cols, test = columns(e, P, T, y, labels, k, 'equal_width', fn == 'CDF')
    e.minimises('minimum of the squared distance', r, n, mixture_loss(e, 'L2', cols, test), (ps or [None])[-1])


@harness('P14', [dict(cls='DFy', distance='HD', fn='PDF', y=(0, 1), k=2), dict(cls='MMy', distance='L1', fn='CDF', y=(2, 0, 1), k=2), dict(cls='DFy', distance='L1', fn='PDF', y=(1, 0), k=2)])
def second_test_set(e, cls, distance, fn, y, k):
    """the same object, another test set"""
    labels = sorted(set(y))
    n = len(labels)
    P, T, U = e.probs('p', len(y), n), e.probs('t', 1, n), e.probs('u', 2, n)
    q = build(e, cls, k, 'equal_width', distance, fn)
    q.fit(None, e.data(y), predictions_train=P)
    run(e, q, T)
    r, ps = run(e, q, U)
    cols, test = columns(e, P, U, y, labels, k, 'equal_width', fn == 'CDF')
    e.minimises('minimum of the distance', r, n, mixture_loss(e, distance, cols, test), (ps or [None])[-1])


TRAIN2 = [[0.9, 0.1], [0.45, 0.55], [0.2, 0.8], [0.05, 0.95]]


@harness('P14', [dict(fn='PDF', y=(0, 1, 0, 1), k=3, target=0.3), dict(fn='CDF', y=(7, 7, 2, 2), k=2, target=0.6), dict(fn='PDF', y=(0, 1, 0, 1), k=4, target=0.0)])
def callable_distance(e, fn, y, k, target):
    """a callable distance receives mixtures p*positive + (1-p)*negative and the test vector; the best p is returned"""
    labels = sorted(set(y))
    P = e.arr(TRAIN2)
    T = e.probs('t', 2, 2)
    cols, test = columns(e, P, T, y, labels, k, 'equal_width', fn == 'CDF')
    neg, pos = [[float(v) for v in c] for c in cols]
    j = [i for i in range(k) if abs(pos[i] - neg[i]) > 0.2][0]
    seen = []

    def dist(mix, tst):
        m = e.flat(mix)
        p = (float(m[j]) - neg[j]) / (pos[j] - neg[j])
        seen.append((p, m, e.flat(tst)))
        return (p - target) * (p - target)
    q = e.mod('multiclass.df').DFy(n_bins=k, distance=dist, distribution_function=fn, tol=1e-3)
    q.fit(None, e.data(y), predictions_train=P)
    r1 = q.predict(None, predictions_test=T)
    n1 = len(seen)
    r2 = q.predict(None, predictions_test=T)
    for r in (r1, r2):
        e.eq('the best prevalence is returned', r, [1 - target, target], tol=2e-3)
    e.true('the distance is used in both predictions', 0 < n1 < len(seen))
    for p, m, tst in (seen[:3] + seen[n1 - 3:n1 + 3] + seen[-3:]):
        e.eq('mixture of the class histograms', m, [p * b + (1 - p) * a for a, b in zip(neg, pos)], tol=1e-6)
        e.eq('histogram of the test predictions', tst, test)
    e.true('the grid covers both ends', min(s[0] for s in seen) < 0.011 and max(s[0] for s in seen) > 0.989)


BIG = [dict(distance='HD', fn='CDF', y=(7, -1, 12, 3), t=4, k=2), dict(distance='L1', fn='PDF', y=(-3, 4, 4, -3, 4, 4, -3), t=6, k=4), dict(distance='HD', fn='PDF', y=(4, -3, -3, 4, -3), t=5, k=4), dict(distance='L1', fn='CDF', y=(4, -3, -3, 4, -3, 4), t=5, k=5, cls='MMy'),
       dict(distance='L2', fn='PDF', y=(4, -3, -3, 4, -3), t=5, k=4), dict(distance='L1', fn='CDF', y=(7, -1, 3, 3, 7, 3), t=5, k=2), dict(distance='HD', fn='PDF', y=(7, -1, 3, 3, 7), t=4, k=2, cls='HDy'), dict(distance='L2', fn='CDF', y=(7, -1, 3, 3, 7), t=5, k=3),
       dict(distance='L1', fn='PDF', y=(7, -1, 3, 12, 7, 3), t=5, k=3), dict(distance='L1', fn='CDF', y=(7, -1, 3, 12, 20), t=4, k=2),
       dict(distance='L1', fn='PDF', y=(7, -1, 3, 3, 7, 3), t=5, k=3, strategy='equal_count'), dict(distance='HD', fn='PDF', y=(-3, 4, 4, -3, 4), t=4, k=3, strategy='normal'), dict(distance='L1', fn='CDF', y=(-3, 4, 4, -3, 4), t=4, k=4, strategy='binormal'),
       dict(distance='L1', fn='PDF', y=(0, 1), t=9, k=16)]


def answer(e, q, distance, fn, y, t, k, strategy, tag, free_train=True):
    labels = sorted(set(y))
    n, m = len(labels), len(y)
    P = mixed_probs(e, 'p' + tag, m, n, (m - 1,) if free_train and distance != 'L2' and strategy == 'equal_width' else ())
    T = mixed_probs(e, 't' + tag, t, n, (0, t - 1))
    q.fit(None, e.data(y), predictions_train=P)
    for tag2 in ('', 'u'):
        if tag2:
            T = mixed_probs(e, 'u' + tag, 2, n, (0,))
        r, ps = run(e, q, T)
        cols, test = columns(e, P, T, y, labels, k, strategy, fn == 'CDF')
        refs = [mixture_loss(e, distance, cols, test)]
        if fn == 'CDF' and n > 2 and distance == 'HD':
            c2, t2 = columns(e, P, T, y, labels, k, strategy, False)
            refs.append(mixture_loss(e, distance, [cum(c) for c in c2], cum(t2)))
        e.minimises('minimum of the distance', r, n, refs, (ps or [None])[-1])


@harness('P14', BIG, limit=60)
def larger(e, distance, fn, y, t, k, cls='DFy', strategy='equal_width'):
    """more examples, classes and bins: one training and two test predictions are symbolic; then a second test set"""
    answer(e, build(e, cls, k, strategy, distance, fn), distance, fn, y, t, k, strategy, '')


@harness('P14', [dict(distance='L1', fn='PDF', k=3), dict(distance='HD', fn='PDF', k=2, cls='HDy'), dict(distance='L1', fn='CDF', k=3, cls='MMy'), dict(distance='L2', fn='PDF', k=3), dict(distance='L1', fn='PDF', k=2, strategy='equal_count')], limit=60)
def again(e, distance, fn, k, cls='DFy', strategy='equal_width'):
    """fitted three times, with other labels and numbers of classes and examples: each answer from the present data alone"""
    q = build(e, cls, k, strategy, distance, fn)
    for j, y in enumerate(((4, -1, 4), (2, 0, 1, 1), (8, 3, 8, 3))):
        answer(e, q, distance, fn, y, 2, k, strategy, '%d_' % j, j == 1)
