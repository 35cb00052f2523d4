"""Classify-and-count and probabilistic counting."""
from symq.harness import harness
from props.common import *

BOUNDS = 'up to 6 test examples (7 for PCC) and 5 classes; up to three test sets in a row and a second training set with other labels; labels of any order and value incl. negative, non-contiguous and names; probabilities, labels, (n,) and (n,1) positive scores'
OUTSIDE = 'more classes or test examples (see P40 for large test sets); rounding of binary64'


def fitted(e, cls, y, verbose=0):
    q = getattr(e.mod('baselines.cc'), cls)(verbose=verbose)
    q.fit(None, e.data(y))
    return q


@harness('P06', [dict(n=2, m=3, y=(0, 1)), dict(n=3, m=2, y=(9, 1, 5, 1)), dict(n=4, m=2, y=(2, 3, 5, 11), verbose=1),
                 dict(n=3, m=3, y=('b', 'a', 'c')), dict(n=2, m=6, y=(3, -3)), dict(n=3, m=4, y=(5, -1, 6))],
         more=[dict(n=3, m=4, y=(2, 1, 0)), dict(n=4, m=3, y=(-1, -2, -3, -4)), dict(n=2, m=5, y=(1, 0))])
def cc_probabilities(e, n, m, y, verbose=0):
    q = fitted(e, 'CC', y, verbose)
    P = e.probs('p', m, n)
    s = e.snap(P)
    r = q.predict(None, predictions_test=P)
    e.true('one prevalence per class', e.shape(r) == (n,))
    e.eq('CC counts the most probable class', r, crisp_freq(e, P, n))
    e.unchanged('predictions unchanged', P, s)


@harness('P06', [dict(y=(0, 1), m=4), dict(y=(9, 1, 5), m=3), dict(y=(-1, 3), m=3), dict(y=(1, 0, 2, 1, 7), m=3), dict(y=(4, -1, 0, -1, 9), m=6)],
         more=[dict(y=(4, 2, 0), m=5), dict(y=(-5, 5), m=5)])
def cc_labels(e, y, m):
    q = fitted(e, 'CC', y)
    lab = sorted(set(y))
    t = e.ints('t', m, lab)
    r = q.predict(None, predictions_test=t)
    e.true('one prevalence per class', e.shape(r) == (len(lab),))
    e.eq('CC returns the label frequencies in label order', r, [e.mean([e.ind(x == l) for x in t]) for l in lab])


@harness('P06', [dict(y=('no', 'yes'), m=3), dict(y=('b', 'a', 'c'), m=2)])
def cc_names(e, y, m):
    q = fitted(e, 'CC', y)
    lab = sorted(set(y))
    t = [e.pick('t%d' % i, lab) for i in range(m)]
    e.eq('CC returns the label frequencies in label order', q.predict(None, predictions_test=e.data(t)),
         [t.count(l) / m for l in lab])


@harness('P06', [dict(y=(0, 1), m=3, col=False), dict(y=(2, 7), m=3, col=True), dict(y=(1, -1), m=2, col=False), dict(y=(1, -1), m=1, col=True)])
def cc_scores(e, y, m, col):
    """one score per example, for the positive (second) class"""
    q = fitted(e, 'CC', y)
    s = e.vec('s', m)
    r = q.predict(None, predictions_test=e.col(s) if col else s)
    f = e.mean([e.ind(x >= 0.5) for x in e.flat(s)])
    e.eq('CC thresholds positive scores at 0.5 inclusive', r, [1 - f, f])


@harness('P06', [dict(n=2, m=3, y=(0, 1)), dict(n=3, m=2, y=(9, 1, 5)), dict(n=4, m=1, y=(2, 3, 5, 11), verbose=1), dict(n=3, m=5, y=(4, -1, 0, -1)), dict(n=5, m=4, y=(1, 2, 3, 4, 5)), dict(n=2, m=7, y=(-1, 1))],
         more=[dict(n=3, m=9, y=(9, 1, 5)), dict(n=6, m=6, y=(0, 1, 2, 3, 4, 5))])
def pcc(e, n, m, y, verbose=0):
    q = fitted(e, 'PCC', y, verbose)
    P = e.probs('p', m, n)
    s = e.snap(P)
    r = q.predict(None, predictions_test=P)
    e.true('one prevalence per class', e.shape(r) == (n,))
    e.eq('PCC averages the probabilities', r, [e.mean([e.at(P, i, k) for i in range(m)]) for k in range(n)])
    e.unchanged('predictions unchanged', P, s)


@harness('P06', [dict(n=2, y=(0, 1)), dict(n=3, y=(9, 1, 5))])
def with_estimator(e, n, y):
    """the fitted estimator's own predictions are counted the same way"""
    P = e.probs('p', 3, n)
    lab = sorted(set(y))
    L = e.ints('l', 3, lab)
    est = TableEstimator(P, L)
    X = index_X(e, 3)
    m = e.mod('baselines.cc')
    cc = m.CC(estimator_test=est)
    cc.fit(X[:len(y)], e.data(y))
    e.eq('CC counts the estimator labels', cc.predict(X), [e.mean([e.ind(x == l) for x in L]) for l in lab])
    pc = m.PCC(estimator_test=est)
    pc.fit(X[:len(y)], e.data(y))
    e.eq('PCC averages the estimator probabilities', pc.predict(X), [e.mean([e.at(P, i, k) for i in range(3)]) for k in range(n)])


@harness('P06', [dict(cls='CC', ys=((1, 0), (7, -2, 4)), ms=(3, 1, 2)), dict(cls='PCC', ys=((1, 0), (7, -2, 4, 4)), ms=(3, 1, 5)), dict(cls='PCC', ys=((3, 1, 2), (6, 5)), ms=(2, 2, 2)), dict(cls='CC', ys=((3, 1, 2), (6, 5)), ms=(2, 2, 2))])
def again(e, cls, ys, ms):
    """further test sets and a second training set: each answer from the present data alone"""
    q = getattr(e.mod('baselines.cc'), cls)()
    for j, y in enumerate(ys):
        n = len(set(y))
        q.fit(None, e.data(y))
        for i, m in enumerate(ms[:3 - j]):
            P = e.probs('p%d%d_' % (j, i), m, n)
            r = q.predict(None, predictions_test=P)
            e.true('one prevalence per class', e.shape(r) == (n,))
            e.eq('test set %d of fit %d' % (i + 1, j + 1), r, crisp_freq(e, P, n) if cls == 'CC' else [e.mean([e.at(P, a, k) for a in range(m)]) for k in range(n)])
