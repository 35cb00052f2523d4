"""Stacked cross-validation predictions are matched with the labels of their originals."""
from symq.harness import harness
from props.common import *

BOUNDS = '2-3 classes, 2-3 training examples, 2 complete repetitions (3 in some thorough runs), 1-2 test examples, every probability/label table; every quantifier family that uses training predictions'
OUTSIDE = 'more examples or repetitions; the rank-based energy quantifier and equal-count bins for the second clause (ranks and boundaries of a sample change when it is repeated)'


def tables(e, fam, m, n, labels, name):
    if FAM[fam][3]:
        return e.ints(name, m, labels)
    return e.probs(name, m, n)


BIN = ('AC', 'PAC', 'DeBias', 'EM', 'DFy-HD', 'DFy-L1', 'EDy', 'Friedman-L1')
MULTI = ('EM', 'DFy-L1', 'Friedman-L1', 'ACOrdinal', 'PDF-EMD')


@harness('P08', [dict(fam=f, y=(1, 5)) for f in BIN + ('SORDy',)] + [dict(fam=f, y=(7, 2, 4)) for f in MULTI] + [dict(fam='EDy', y=(5, 1, 5))],
         more=[dict(fam='AC', y=(5, 1, 5), k=3), dict(fam='PAC', y=(5, 1, 5), k=3), dict(fam='DFy-HD', y=(5, 1, 5)), dict(fam='AC', y=(7, 2, 4)), dict(fam='PAC', y=(7, 2, 4)),
               dict(fam='CvMy', y=(1, 5)), dict(fam='EDy', y=(7, 2, 4)), dict(fam='PDF-L2', y=(7, 2, 4)), dict(fam='PDF-HD', y=(7, 2, 4)), dict(fam='Friedman-L2', y=(1, 5)), dict(fam='DFy-L2', y=(1, 5)), dict(fam='Friedman-HD', y=(7, 2, 4))])
def labels_tiled(e, fam, y, k=2):
    """fit(y, k stacked repetitions) = fit(y repeated k times, the same predictions)"""
    labels = sorted(set(y))
    n, m = len(labels), len(y)
    P = tables(e, fam, m * k, n, labels, 'p')
    t = 1 if fam in ('SORDy', 'EDy', 'CvMy') else 2
    T = tables(e, fam, t, n, labels, 't')
    covered(e, fam, P, y * k, labels)
    X = index_X(e, m)
    Y = e.data(y)
    q1 = make(e, fam)
    q1.fit(X, Y, predictions_train=P)
    r1, p1 = run(e, q1, T)
    q2 = make(e, fam)
    q2.fit(index_X(e, m * k), e.data(y * k), predictions_train=P)
    r2, p2 = run(e, q2, T)
    e.same_result('each repetition counts as an example with the label of its original', r1, p1, r2, p2, n)
    e.eq('labels of the caller unchanged', Y, e.data(y), tol=0)


@harness('P08', [dict(fam=f, y=(1, 5) if f == 'DFy-HD' else (1, 5, 1)) for f in BIN] + [dict(fam=f, y=(7, 2, 4)) for f in MULTI if f != 'ACOrdinal'] + [dict(fam='SORDy', y=(1, 5))],
         more=[dict(fam='AC', y=(5, 1, 5), k=3), dict(fam='DFy-L1', y=(7, 2, 4), k=3), dict(fam='EDy', y=(5, 1, 5), k=3), dict(fam='AC', y=(7, 2, 4)), dict(fam='PAC', y=(7, 2, 4)), dict(fam='EDy', y=(7, 2, 4)), dict(fam='PDF-L2', y=(7, 2, 4)), dict(fam='ACOrdinal', y=(7, 2, 4)), dict(fam='DFy-HD', y=(1, 5, 1))])
def repeated(e, fam, y, k=2):
    """repeating the same predictions k times does not change the estimate"""
    labels = sorted(set(y))
    n, m = len(labels), len(y)
    P = tables(e, fam, m, n, labels, 'p')
    t = 1 if fam in ('SORDy', 'EDy', 'CvMy') else 2
    T = tables(e, fam, t, n, labels, 't')
    covered(e, fam, P, y, labels)
    X = index_X(e, m)
    q1 = make(e, fam)
    q1.fit(X, e.data(y), predictions_train=P)
    r1, p1 = run(e, q1, T)
    q2 = make(e, fam)
    q2.fit(X, e.data(y), predictions_train=e.np.concatenate([P] * k))
    r2, p2 = run(e, q2, T)
    e.same_result('repeating the predictions changes nothing', r1, p1, r2, p2, n)


@harness('P08', [dict(strategy='equal_count', y=(5, 1)), dict(strategy='normal', y=(5, 1)), dict(strategy='binormal', y=(1, 5))],
         more=[dict(strategy='equal_count', y=(4, 2, 3)), dict(strategy='normal', y=(5, 1, 5))])
def bins(e, strategy, y):
    """the other binning strategies take repeated predictions too"""
    labels = sorted(set(y))
    n = len(labels)
    P = e.probs('p', 2 * len(y), n)
    T = e.probs('t', 1, n)
    kw = dict(bin_strategy=strategy, n_bins=2, distance='L1')
    q1 = e.mod('multiclass.df').DFy(**kw)
    q1.fit(index_X(e, len(y)), e.data(y), predictions_train=P)
    r1, p1 = run(e, q1, T)
    q2 = e.mod('multiclass.df').DFy(**kw)
    q2.fit(index_X(e, 2 * len(y)), e.data(y * 2), predictions_train=P)
    r2, p2 = run(e, q2, T)
    e.same_result('each repetition counts as an example with the label of its original', r1, p1, r2, p2, n)
