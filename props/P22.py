"""Ordinal quantifiers."""
from symq.harness import harness
from props.common import *

BOUNDS = '3 classes (4 in some cases): 3-5 training, 1-3 test examples, every crisp or probability table; 4 and 5 classes with concrete training tables; 1, 2 and 4 bins per class gap; L2 (concrete training table), HD, L1, EMD; expected-position and winner-leaf scores; second test set with the same object; given samples of 7-8 training and 4-5 test rows with one symbolic row, up to 4 classes (5 thorough), two test sets, and objects fitted three times'
OUTSIDE = 'larger samples; probability rows that put all mass within rounding of a bin edge; distances given as functions (not supported by the class); training tables with identical class columns for L2'


def rows(e, a):
    n, k = e.shape(a)
    return [[e.at(a, i, j) for j in range(k)] for i in range(n)]


@harness('P22', [dict(y=(0, 1, 2), t=1), dict(y=(5, -1, 2, 2), t=2), dict(y=(0, 1, 2, 3), t=1), dict(y=(2, 1, 0), t=2, verbose=1)], more=[dict(y=(0, 1, 2, 3), t=2), dict(y=(0, 0, 1, 2, 2), t=2)], limit=60)
def acordinal(e, y, t, verbose=0):
    """cumulative confusion rates"""
    labels = sorted(set(y))
    n = len(labels)
    P, T = e.ints('p', len(y), labels), e.ints('t', t, labels)
    q = e.mod('ordinal.ac_ordinal').ACOrdinal(verbose=verbose).fit(None, e.data(y), predictions_train=P)
    cols = []
    for l in labels:
        idx = [i for i in range(len(y)) if y[i] == l]
        cols.append(cum([e.sum([e.ind(e.at(P, i) == k) for i in idx]) / len(idx) for k in labels]))
    for times in range(2):
        r, ps = run(e, q, T)
        test = cum([e.sum([e.ind(e.at(T, i) == k) for i in range(t)]) / t for k in labels])
        e.minimises('minimum of the cumulative L1 distance', r, n, mixture_loss(e, 'L1', cols, test), (ps or [None])[-1])
        t = 1
        T = e.ints('u', t, labels)


def scores(e, R, method):
    out = []
    for r in R:
        out.append(e.sum([(c + 1) * v for c, v in enumerate(r)]))
    return out


def closed(e, xs, cuts):
    """fraction of the values in each bin; the last bin is closed"""
    k = len(cuts) - 1
    return [e.sum([e.ind(e.and_(x >= cuts[b], x <= cuts[b + 1] if b == k - 1 else x < cuts[b + 1])) for x in xs]) / len(xs) for b in range(k)]


def columns(e, S, y, labels, k, U, distance):
    n = len(labels)
    bins = k * (n - 1)
    cuts = [1 + b / k for b in range(bins + 1)]
    cols = [closed(e, [s for s, v in zip(S, y) if v == l], cuts) for l in labels]
    test = closed(e, U, cuts)
    if distance == 'EMD':
        return [cum(c) for c in cols], cum(test)
    return cols, test


def winner_rows(e, name, m, n, first):
    """probability rows of a winner node: two consecutive classes share the probability"""
    out = []
    for i in range(m):
        v = e.real('%s%d' % (name, i), 0, 1)
        j = first[i % len(first)]
        out.append([0] * j + [1 - v, v] + [0] * (n - j - 2))
    return e.arr(out)


@harness('P22', [dict(distance=d, y=(0, 1, 2), t=1, k=2) for d in ('L1', 'HD', 'EMD')] + [dict(distance='EMD', y=(4, 9, -2, 4), t=2, k=1), dict(distance='L1', y=(4, 9, -2, 4, 9), t=2, k=4), dict(distance='EMD', y=(1, 2, 3, 4), t=1, k=1, verbose=1), dict(distance='HD', y=(3, 2, 1), t=2, k=1)],
         more=[dict(distance='EMD', y=(0, 1, 2, 2), t=3, k=4), dict(distance='HD', y=(0, 1, 2, 0), t=1, k=2), dict(distance='L1', y=(1, 2, 3, 4), t=2, k=2)], limit=80)
def pdf(e, distance, y, t, k, verbose=0):
    """histograms of the expected position"""
    labels = sorted(set(y))
    n = len(labels)
    P, T = e.probs('p', len(y), n), e.probs('t', t, n)
    s = e.snap(P), e.snap(T)
    q = e.mod('ordinal.pdf').PDFOrdinaly(n_bins=k, distance=distance, verbose=verbose).fit(None, e.data(y), predictions_train=P)
    S = scores(e, rows(e, P), 'full')
    r, ps = run(e, q, T)
    cols, test = columns(e, S, y, labels, k, scores(e, rows(e, T), 'full'), distance)
    e.minimises('minimum of the distance', r, n, mixture_loss(e, 'L1' if distance == 'EMD' else distance, cols, test), (ps or [None])[-1])
    e.unchanged('training predictions unchanged', P, s[0])
    e.unchanged('test predictions unchanged', T, s[1])


@harness('P22', [dict(distance='L1', y=(0, 1, 2), t=2, k=2, first=(0, 1, 1)), dict(distance='EMD', y=(0, 1, 2, 3), t=2, k=1, first=(1, 0, 2)), dict(distance='HD', y=(7, 3, 5), t=1, k=1, first=(0, 1))], more=[dict(distance='EMD', y=(0, 1, 2, 2), t=2, k=4, first=(1, 0))], limit=80)
def winner(e, distance, y, t, k, first):
    """histograms of the position within the winning leaf"""
    labels = sorted(set(y))
    n = len(labels)
    P, T = winner_rows(e, 'p', len(y), n, first), winner_rows(e, 't', t, n, first[::-1])
    q = e.mod('ordinal.pdf').PDFOrdinaly(n_bins=k, distance=distance, method='winner_node').fit(None, e.data(y), predictions_train=P)
    r, ps = run(e, q, T)
    cols, test = columns(e, scores(e, rows(e, P), 'winner'), y, labels, k, scores(e, rows(e, T), 'winner'), distance)
    e.minimises('minimum of the distance', r, n, mixture_loss(e, 'L1' if distance == 'EMD' else distance, cols, test), (ps or [None])[-1])


TAB = {3: ([[0.8, 0.1, 0.1], [0.3, 0.6, 0.1], [0.1, 0.1, 0.8], [0.2, 0.5, 0.3], [0.45, 0.1, 0.45]], (2, 3, 8, 3, 2)),
       4: ([[0.8, 0.1, 0.1, 0.0], [0.1, 0.7, 0.2, 0.0], [0.1, 0.1, 0.7, 0.1], [0.0, 0.1, 0.2, 0.7], [0.2, 0.5, 0.2, 0.1]], (0, 1, 2, 3, 1)),
       5: ([[0.8, 0.1, 0.1, 0.0, 0.0], [0.1, 0.7, 0.1, 0.1, 0.0], [0.05, 0.1, 0.65, 0.15, 0.05], [0.0, 0.1, 0.2, 0.6, 0.1], [0.0, 0.0, 0.15, 0.15, 0.7], [0.2, 0.4, 0.2, 0.1, 0.1]], (-4, 0, 2, 3, 9, 0))}


@harness('P22', [dict(n=3, t=2, k=2), dict(n=3, t=1, k=4, default=True), dict(n=4, t=1, k=2), dict(n=5, t=1, k=1), dict(n=5, t=1, k=2, distance='EMD'), dict(n=4, t=2, k=2, distance='L1'), dict(n=4, t=1, k=1, distance='HD')], more=[dict(n=5, t=2, k=2, distance='L1'), dict(n=5, t=1, k=2, distance='HD'), dict(n=4, t=2, k=4), dict(n=3, t=3, k=8)])
def pdf_l2(e, n, t, k, default=False, distance='L2'):
    """L2, the default distance"""
    tab, y = TAB[n]
    labels = sorted(set(y))
    T = e.probs('t', t, n)
    q = e.mod('ordinal.pdf').PDFOrdinaly(n_bins=k, **({} if default else dict(distance=distance))).fit(None, e.data(y), predictions_train=e.arr(tab))
    S = [sum((c + 1) * v for c, v in enumerate(r)) for r in tab]
    cols, test = columns(e, S, y, labels, k, scores(e, rows(e, T), 'full'), distance)
    r, ps = run(e, q, T)
    e.minimises('minimum of the distance', r, n, mixture_loss(e, 'L1' if distance == 'EMD' else distance, cols, test), (ps or [None])[-1])


@harness('P22', [dict(distance='L1', y=(0, 1, 2), k=2), dict(distance='EMD', y=(4, 9, -2), k=2), dict(distance='HD', y=(0, 1, 2), k=1)], limit=60)
def second_test_set(e, distance, y, k):
    """the same object, another test set"""
    labels = sorted(set(y))
    n = len(labels)
    P, T, U = e.probs('p', len(y), n), e.probs('t', 1, n), e.probs('u', 2, n)
    q = e.mod('ordinal.pdf').PDFOrdinaly(n_bins=k, distance=distance).fit(None, e.data(y), predictions_train=P)
    run(e, q, T)
    r, ps = run(e, q, U)
    cols, test = columns(e, scores(e, rows(e, P), 'full'), y, labels, k, scores(e, rows(e, U), 'full'), distance)
    e.minimises('minimum of the distance', r, n, mixture_loss(e, 'L1' if distance == 'EMD' else distance, cols, test), (ps or [None])[-1])


@harness('P22', [dict(y=(0, 1)), dict(y=(5, 5))])
def few_classes(e, y):
    """fewer than three classes are rejected"""
    P = e.probs('p', len(y), 2)
    e.raises('fewer than three classes', lambda: e.mod('ordinal.pdf').PDFOrdinaly().fit(None, e.data(y), predictions_train=P), TypeError)


@harness('P22', [dict()])
def unknown_method(e):
    P = e.probs('p', 3, 3)
    e.raises('unknown method', lambda: e.mod('ordinal.pdf').PDFOrdinaly(method='other').fit(None, e.data((0, 1, 2)), predictions_train=P), ValueError)


@harness('P22', [dict(y=(-3, 4, 9, -3, 9, 4, 4), t=5), dict(y=(3, 1, 2, 0, 1, 2, 3, 0), t=4)], more=[dict(y=(3, 1, 2, 0, 7, 2, 3, 0, 7, 1), t=6)], limit=60)
def acordinal_larger(e, y, t):
    """given labels but for some; two test sets"""
    ac_solved(e, e.mod('ordinal.ac_ordinal').ACOrdinal(), y, t, '')


@harness('P22', [dict(ys=((0, 1, 2), (5, -2, 3, 3, -2, 5, 8), (9, 4, 6, 4)))], limit=60)
def acordinal_again(e, ys):
    """fitted three times with other labels, sizes and numbers of classes"""
    q = e.mod('ordinal.ac_ordinal').ACOrdinal()
    for j, y in enumerate(ys):
        ac_solved(e, q, y, 3, '%d_' % j)


def ac_solved(e, q, y, t, tag):
    labels = sorted(set(y))
    m, n = len(y), len(labels)
    P = mixed_labels(e, 'p' + tag, [labels[(labels.index(v) + (i % 3 == 1)) % n] for i, v in enumerate(y)], labels, (1,))
    q.fit(None, e.data(y), predictions_train=P)
    cols = []
    for l in labels:
        idx = [i for i in range(m) if y[i] == l]
        cols.append(cum([e.sum([e.ind(e.at(P, i) == k) for i in idx]) / len(idx) for k in labels]))
    for k, tt in enumerate((t, 2)):
        T = mixed_labels(e, 't%s%d_' % (tag, k), [labels[(3 * i + k) % n] for i in range(tt)], labels, (0,))
        r, ps = run(e, q, T)
        test = cum([e.sum([e.ind(e.at(T, i) == k) for i in range(tt)]) / tt for k in labels])
        e.minimises('minimum of the cumulative L1 distance', r, n, mixture_loss(e, 'L1', cols, test), (ps or [None])[-1])


def pdf_solved(e, q, distance, y, t, k, tag):
    """fit on given rows, predict two test sets with one symbolic row each"""
    labels = sorted(set(y))
    m, n = len(y), len(labels)
    P = mixed_probs(e, 'p' + tag, m, n, ())
    q.fit(None, e.data(y), predictions_train=P)
    S = scores(e, rows(e, P), 'full')
    for j, tt in enumerate((t, 2)):
        T = mixed_probs(e, 't%s%d_' % (tag, j), tt, n, (tt - 1,))
        r, ps = run(e, q, T)
        cols, test = columns(e, S, y, labels, k, scores(e, rows(e, T), 'full'), distance)
        e.minimises('minimum of the distance', r, n, mixture_loss(e, 'L1' if distance == 'EMD' else distance, cols, test), (ps or [None])[-1])


@harness('P22', [dict(distance='L1', y=(-3, 4, 9, -3, 9, 4, 4), t=5, k=2), dict(distance='EMD', y=(3, 1, 2, 0, 1, 2, 3), t=4, k=1), dict(distance='HD', y=(1, 3, 2, 3, 1, 1, 2), t=5, k=1), dict(distance='L2', y=(-3, 4, 9, -3, 9, 4, 4), t=4, k=2)],
         more=[dict(distance='EMD', y=(3, 1, 2, 0, 7, 2, 3, 0, 7, 1), t=5, k=2), dict(distance='HD', y=(3, 1, 2, 0, 1, 2, 3), t=5, k=2), dict(distance='L1', y=(3, 1, 2, 0, 7, 2, 3, 0, 7, 1), t=5, k=4)], limit=60)
def pdf_larger(e, distance, y, t, k):
    """given rows but for one symbolic test row; two test sets"""
    pdf_solved(e, e.mod('ordinal.pdf').PDFOrdinaly(n_bins=k, distance=distance), distance, y, t, k, '')


@harness('P22', [dict(distance=d, ys=((0, 1, 2), (5, -2, 3, 3, -2, 5, 8), (9, 4, 6, 4)), k=k) for d, k in (('L1', 2), ('EMD', 1), ('HD', 1), ('L2', 2))], limit=60)
def pdf_again(e, distance, ys, k):
    """fitted three times with other labels, sizes and numbers of classes"""
    q = e.mod('ordinal.pdf').PDFOrdinaly(n_bins=k, distance=distance)
    for j, y in enumerate(ys):
        pdf_solved(e, q, distance, y, 3, k, '%d_' % j)
