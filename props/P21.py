"""Friedman's method."""
from symq.harness import harness
from props.common import *

BOUNDS = '2 classes: 2-4 training and 1-3 test examples; 3 classes: 3-5 training and 1-2 test examples; 4 and 5 classes with concrete training tables and every test set; every probability table (also values equal to the training prevalence); L2 with concrete training tables; L1, HD and a callable distance; given samples of 6-7 training and 4-5 test rows (9 thorough) with symbolic test rows, up to 4 classes (5 thorough), two test sets, and objects fitted three times'
OUTSIDE = 'larger samples; training tables with identical class columns for L2 (nearest_pd, see P16)'


def description(e, R, prevs):
    """fraction of rows whose probability reaches the training prevalence, per class"""
    R = list(R)
    return [e.sum([e.ind(r[c] >= prevs[c]) for r in R]) / len(R) for c in range(len(prevs))]


def rows(e, a):
    n, k = e.shape(a)
    return [[e.at(a, i, j) for j in range(k)] for i in range(n)]


def reference(e, P, T, y, labels):
    prevs = [sum(1 for v in y if v == l) / len(y) for l in labels]
    R = rows(e, P)
    return [description(e, [r for r, v in zip(R, y) if v == l], prevs) for l in labels], description(e, rows(e, T), prevs)


def quantifier(e, **kw):
    return e.mod('multiclass.friedman').FriedmanME(**kw)


@harness('P21', [dict(distance='L1', y=(0, 1), t=2), dict(distance='HD', y=(0, 1), t=2), dict(distance='L1', y=(6, 2, 2), t=2), dict(distance='L1', y=(3, 1, 2), t=1), dict(distance='HD', y=(3, 1, 2), t=1), dict(distance='L1', y=(-1, 5, 2, 5), t=1, verbose=1), dict(distance='HD', y=(1, 1, 0), t=1)],
         more=[dict(distance='L1', y=(-1, 5, 2, 5, 5), t=2), dict(distance='HD', y=(1, 2, 3, 3), t=2), dict(distance='L1', y=(1, 2, 3, 4), t=1), dict(distance='HD', y=(0, 1, 1, 0), t=3)], limit=60)
def friedman(e, distance, y, t, verbose=0):
    labels = sorted(set(y))
    n = len(labels)
    P, T = e.probs('p', len(y), n), e.probs('t', t, n)
    s = e.snap(P), e.snap(T)
    q = quantifier(e, distance=distance, verbose=verbose).fit(None, e.data(y), predictions_train=P)
    r, ps = run(e, q, T)
    cols, test = reference(e, P, T, y, labels)
    e.minimises('minimum of the distance', r, n, mixture_loss(e, distance, cols, test), (ps or [None])[-1])
    e.unchanged('training predictions unchanged', P, s[0])
    e.unchanged('test predictions unchanged', T, s[1])


TAB = {2: ([[0.9, 0.1], [0.2, 0.8], [0.7, 0.3], [0.25, 0.75], [0.1, 0.9]], (0, 1, 0, 1, 0)), 3: ([[0.8, 0.1, 0.1], [0.3, 0.6, 0.1], [0.1, 0.1, 0.8], [0.2, 0.5, 0.3], [0.45, 0.1, 0.45]], (2, 3, 8, 3, 2)),
       4: ([[0.7, 0.1, 0.15, 0.05], [0.1, 0.6, 0.1, 0.2], [0.05, 0.2, 0.7, 0.05], [0.25, 0.05, 0.1, 0.6], [0.25, 0.3, 0.2, 0.25]], (5, 6, 8, 9, 6))}


@harness('P21', [dict(n=2, t=2), dict(n=2, t=3, default=True), dict(n=3, t=1), dict(n=3, t=2)], more=[dict(n=3, t=3), dict(n=2, t=5)])
def l2(e, n, t, default=False):
    """L2, the default distance"""
    tab, y = TAB[n]
    labels = sorted(set(y))
    T = e.probs('t', t, n)
    q = quantifier(e, **({} if default else dict(distance='L2'))).fit(None, e.data(y), predictions_train=e.arr(tab))
    cols, test = reference(e, e.arr(tab), T, y, labels)
    for times in range(2):
        r, ps = run(e, q, T)
        e.minimises('minimum of the squared distance', r, n, mixture_loss(e, 'L2', cols, test), (ps or [None])[-1])


@harness('P21', [dict(distance='L1', t=1), dict(distance='HD', t=1), dict(distance='L2', t=1)], more=[dict(distance='L1', t=3), dict(distance='HD', t=2), dict(distance='L2', t=2)], limit=60)
def four_classes(e, distance, t):
    """given training predictions, every test set"""
    tab, y = TAB[4]
    y = (y[1], y[3], y[0], y[2], y[1])
    tab = [tab[1], tab[3], tab[0], tab[2], tab[4]]
    labels = sorted(set(y))
    T = e.probs('t', t, 4)
    q = quantifier(e, distance=distance).fit(None, e.data(y), predictions_train=e.arr(tab))
    cols, test = reference(e, e.arr(tab), T, y, labels)
    r, ps = run(e, q, T)
    e.minimises('minimum of the distance', r, 4, mixture_loss(e, distance, cols, test), (ps or [None])[-1])


@harness('P21', [dict(distance='L1', y=(0, 1, 1)), dict(distance='HD', y=(0, 1)), dict(distance='L1', y=(2, 0, 1))])
def second_test_set(e, distance, y):
    """the same object, another test set"""
    labels = sorted(set(y))
    n = len(labels)
    P, T, U = e.probs('p', len(y), n), e.probs('t', 1, n), e.probs('u', 2, n)
    q = quantifier(e, distance=distance).fit(None, e.data(y), predictions_train=P)
    run(e, q, T)
    r, ps = run(e, q, U)
    cols, test = reference(e, P, U, y, labels)
    e.minimises('minimum of the distance', r, n, mixture_loss(e, distance, cols, test), (ps or [None])[-1])


@harness('P21', [dict(target=0.3, t=2), dict(target=1.0, t=1)])
def callable_distance(e, target, t):
    tab, y = TAB[2]
    T = e.probs('t', t, 2)
    cols, test = reference(e, e.arr(tab), T, y, (0, 1))
    neg, pos = [[float(v) for v in c] for c in cols]
    seen = []

    def dist(mix, tst):
        m = e.flat(mix)
        p = (float(m[0]) - neg[0]) / (pos[0] - neg[0])
        seen.append((p, m, e.flat(tst)))
        return (p - target) * (p - target)
    q = quantifier(e, distance=dist, tol=1e-3).fit(None, e.data(y), predictions_train=e.arr(tab))
    r = q.predict(None, predictions_test=T)
    e.eq('the best prevalence is returned', r, [1 - target, target], tol=2e-3)
    e.true('the distance is used', len(seen) > 0)
    for p, m, tst in seen[::20]:
        e.eq('mixture of the class columns', m, [p * b + (1 - p) * a for a, b in zip(neg, pos)])
        e.eq('test vector', tst, test)


def solved(e, q, distance, y, t, tag, free):
    """fit on given rows, predict two test sets with symbolic rows"""
    labels = sorted(set(y))
    n, m = len(labels), len(y)
    P = mixed_probs(e, 'p' + tag, m, n, ())
    q.fit(None, e.data(y), predictions_train=P)
    for k, (tt, f) in enumerate(((t, free), (2, free[:1]))):
        T = mixed_probs(e, 't%s%d_' % (tag, k), tt, n, [i for i in f if i < tt])
        r, ps = run(e, q, T)
        cols, test = reference(e, P, T, y, labels)
        e.minimises('minimum of the distance', r, n, mixture_loss(e, distance, cols, test), (ps or [None])[-1])


@harness('P21', [dict(distance='L1', y=(-3, 5, -3, 5, 5, -3, 5), t=4), dict(distance='HD', y=(4, 0, 4, 0, 0, 4), t=5), dict(distance='L1', y=(7, -2, 3, 3, -2, 7, -2), t=5), dict(distance='HD', y=(1, 3, 2, 3, 1, 1, 2), t=4), dict(distance='L2', y=(7, -2, 3, 3, -2, 7, -2), t=5)],
         more=[dict(distance='L1', y=(4, -1, 3, 2, 2, 3, -1, 4, 4), t=5), dict(distance='HD', y=(4, -1, 3, 2, 2, 3, -1, 4, 4), t=4), dict(distance='L2', y=(4, -1, 3, 2, 2, 3, -1, 4, 4), t=4)], limit=60)
def larger(e, distance, y, t):
    """given rows but for two symbolic test rows; two test sets"""
    solved(e, quantifier(e, distance=distance), distance, y, t, '', (0, t - 1))


@harness('P21', [dict(distance=d, ys=((0, 1, 1), (5, -2, 3, 3, -2, 5), (9, 4, 9, 4))) for d in ('L1', 'HD', 'L2')], limit=60)
def again(e, distance, ys):
    """fitted three times with other labels, sizes and numbers of classes"""
    q = quantifier(e, distance=distance)
    for j, y in enumerate(ys):
        solved(e, q, distance, y, 3, '%d_' % j, (1,))
