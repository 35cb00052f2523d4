"""Precomputed predictions and fitted estimators give the same quantifier; crisp conversion."""
from symq.harness import harness
from props.common import *

BOUNDS = '2-3 classes, 3-4 training and 2 test examples, every probability/label table; all quantifier families that use classifiers; fitted, unfitted and shared estimators; verbose on and off; one quantifier used with given predictions and with estimators in turns, on two data sets and four test sets of the same sizes (one test row symbolic each), with the caller refilling its array and another estimator'
OUTSIDE = 'estimators that are not deterministic; larger samples'


def tables(e, fam, m, t, n, labels):
    P = e.probs('p', m + t, n)
    L = e.ints('l', m + t, labels) if FAM[fam][3] else None
    return P, L


QUICK = [dict(fam=f, y=(1, 5, 1, 5)) for f in ('CC', 'PCC', 'AC', 'PAC', 'DeBias', 'EM', 'DFy-HD', 'DFy-L1', 'EDy', 'CvMy', 'Friedman-L1')] + [dict(fam='SORDy', y=(1, 5), t=1)] + \
        [dict(fam=f, y=(7, 2, 4)) for f in ('CC', 'PCC', 'EM', 'DFy-HD', 'DFy-L1', 'Friedman-L1', 'ACOrdinal', 'PDF-HD', 'PDF-EMD')]


@harness('P07', QUICK, more=[dict(fam='DFy-L2', y=(1, 5, 1)), dict(fam='AC', y=(7, 2, 4)), dict(fam='PAC', y=(7, 2, 4)), dict(fam='EDy', y=(7, 2, 4)), dict(fam='CvMy', y=(7, 2, 4)), dict(fam='PDF-L2', y=(7, 2, 4)), dict(fam='Friedman-L2', y=(7, 2, 4))])
def routes(e, fam, y, t=2):
    """estimator route = predictions route"""
    labels = sorted(set(y))
    n, m = len(labels), len(y)
    P, L = tables(e, fam, m, t, n, labels)
    covered(e, fam, P[:m], y, labels)
    X = index_X(e, m + t)
    Y = e.data(y)
    log = []
    est = TableEstimator(P, L, fitted=True, log=log)
    q1 = make(e, fam, estimator_test=est, **({} if fam in ('CC', 'PCC') else dict(estimator_train=est)))
    q1.fit(X[:m], Y)
    k = e.mark()
    r1 = q1.predict(X[m:])
    ps1 = e.since(k)
    T = L if FAM[fam][3] else P
    q2 = make(e, fam)
    if fam in ('CC', 'PCC'):
        q2.fit(X[:m], Y)
    else:
        q2.fit(X[:m], Y, predictions_train=T[:m])
    r2, ps2 = run(e, q2, T[m:])
    e.same_result('both routes give the same prevalences', r1, ps1, r2, ps2, n)
    e.true('a fitted estimator is not fitted again', len(log) == 0)


@harness('P07', [dict(fam=f, shared=s, verbose=v) for f, s, v in (('PAC', True, 0), ('AC', False, 0), ('CC', False, 1), ('DFy-L1', False, 0), ('EDy', True, 1))])
def unfitted(e, fam, shared, verbose):
    """an estimator that is not fitted is fitted on the training data, once"""
    y = (3, 8, 3, 8)
    labels = [3, 8]
    P, L = tables(e, fam, 4, 2, 2, labels)
    X = index_X(e, 6)
    Y = e.data(y)
    l1, l2 = [], []
    tr = TableEstimator(P, L, fitted=False, log=l1)
    te = tr if shared else TableEstimator(P, L, fitted=False, log=l2)
    kw = dict(estimator_test=te) if fam == 'CC' else dict(estimator_train=tr, estimator_test=te)
    q = make(e, fam, verbose=verbose, **kw)
    q.fit(X[:4], Y)
    logs = [l2] if fam == 'CC' else [l1] if shared else [l1, l2]
    for lg in logs:
        e.true('fitted exactly once', len(lg) == 1)
        if len(lg) == 1:
            e.eq('fitted on the training examples', lg[0][0], X[:4], tol=0)
            e.eq('fitted on the training labels', lg[0][1], Y, tol=0)
    k = e.mark()
    r1 = q.predict(X[4:])
    ps1 = e.since(k)
    T = L if FAM[fam][3] else P
    q2 = make(e, fam)
    q2.fit(X[:4], Y, **({} if fam == 'CC' else dict(predictions_train=T[:4])))
    r2, ps2 = run(e, q2, T[4:])
    e.same_result('same prevalences as with its predictions', r1, ps1, r2, ps2, 2)


@harness('P07', [dict(fam=f) for f in ('PAC', 'AC', 'DFy-L1', 'EM')])
def mixed(e, fam):
    """given predictions take precedence over the estimators, separately for training and test"""
    y = (3, 8, 3)
    P = e.probs('p', 5, 2)
    O = e.probs('o', 5, 2)
    L = e.ints('l', 5, [3, 8]) if FAM[fam][3] else None
    LO = e.ints('k', 5, [3, 8]) if FAM[fam][3] else None
    X = index_X(e, 5)
    T, TO = (L, LO) if FAM[fam][3] else (P, O)
    est = TableEstimator(O, LO)
    ref = make(e, fam)
    ref.fit(X[:3], e.data(y), predictions_train=T[:3])
    r0, p0 = run(e, ref, TO[3:])
    q = make(e, fam, estimator_train=est, estimator_test=est)
    q.fit(X[:3], e.data(y), predictions_train=T[:3])
    k = e.mark()
    r = q.predict(X[3:])
    e.same_result('training predictions given, test predictions computed', r, e.since(k), r0, p0, 2)
    ref2 = make(e, fam)
    ref2.fit(X[:3], e.data(y), predictions_train=TO[:3])
    r0, p0 = run(e, ref2, T[3:])
    q = make(e, fam, estimator_train=est, estimator_test=est)
    q.fit(X[:3], e.data(y))
    r, ps = run(e, q, T[3:])
    e.same_result('training predictions computed, test predictions given', r, ps, r0, p0, 2)


@harness('P07', [dict(fam=f) for f in ('AC', 'PAC', 'EM', 'DFy-L1', 'EDy')])
def missing(e, fam):
    """without estimator and predictions the quantifier refuses"""
    X = index_X(e, 4)
    Y = e.data((0, 1, 0, 1))
    e.raises('fit without estimator and predictions is an error', lambda: make(e, fam).fit(X, Y), ValueError)
    P = e.probs('p', 4, 2)
    q = make(e, fam)
    q.fit(X, Y, predictions_train=P)
    e.raises('predict without estimator and predictions is an error', lambda: q.predict(X), ValueError)


@harness('P07', [dict(fam='AC', y=(3, 8, 3, 8)), dict(fam='CC', y=(-2, 5)), dict(fam='CC', y=(1, 5, 3))],
         more=[dict(fam='AC', y=(1, 2, 3)), dict(fam='ACOrdinal', y=(5, 1, 3))])
def crisp(e, fam, y):
    """probabilities = their most probable labels (first on ties)"""
    labels = sorted(set(y))
    n = len(labels)
    P, Q = e.probs('p', len(y), n), e.probs('q', 2, n)

    def lab(M, k):
        out = []
        for i in range(k):
            row = e.flat(M[i])
            v = labels[-1]
            for c in range(n - 2, -1, -1):
                v = e.ite(argmax_is(e, row, c), labels[c], v)
            out.append(v)
        return e.arr(out, 'i')
    q = make(e, fam)
    X = index_X(e, len(y))
    q.fit(X, e.data(y), predictions_train=P)
    r1, p1 = run(e, q, Q)
    q2 = make(e, fam)
    q2.fit(X, e.data(y), predictions_train=lab(P, len(y)))
    r2, p2 = run(e, q2, lab(Q, 2))
    e.same_result('probabilities count as their most probable label', r1, p1, r2, p2, n)


@harness('P07', [dict(y=(3, 8, 3), col=False), dict(y=(0, 1, 1), col=True), dict(y=(3, 8, 3), col=False, single=True), dict(y=(8, 3, 3), col=True, single=True)])
def scores(e, y, col, single=False):
    """one positive score per example: threshold 0.5 inclusive"""
    labels = sorted(set(y))
    s, t = e.vec('s', 3), e.vec('t', 2)
    if single:
        s, t = e.single(s), e.single(t)
    lab = lambda v: e.arr([e.ite(x >= 0.5, labels[1], labels[0]) for x in e.flat(v)], 'i')
    sh = (lambda v: e.col(v)) if col else (lambda v: v)
    q = make(e, 'AC')
    X = index_X(e, 3)
    s0, t0 = e.snap(s), e.snap(t)
    q.fit(X, e.data(y), predictions_train=sh(s))
    r1, p1 = run(e, q, sh(t))
    q2 = make(e, 'AC')
    q2.fit(X, e.data(y), predictions_train=lab(s))
    r2, p2 = run(e, q2, lab(t))
    e.same_result('positive scores are thresholded at 0.5', r1, p1, r2, p2, 2)
    e.unchanged('scores unchanged', s, s0)
    e.unchanged('scores unchanged', t, t0)


LARGER = [('CC', (4, -1, 4, -1, -1), 6), ('PCC', (4, -1, 4, -1, -1), 6), ('AC', (4, -1, 4, -1, -1), 5), ('PAC', (4, -1, 4, -1, -1), 5), ('DeBias', (4, -1, 4, -1, -1, 4), 5), ('EM', (4, -1, 4, -1, -1), 5), ('DFy-HD', (4, -1, 4, -1, -1), 4),
          ('DFy-L1', (4, -1, 4, -1, -1), 5), ('EDy', (4, -1, 4, -1, -1), 4), ('CC', (9, -2, 4, 6, 9), 5), ('PCC', (9, -2, 4, 6, 9), 5), ('AC', (9, -2, 4, 6, 9), 4), ('PAC', (9, -2, 4, 6), 4), ('EM', (9, -2, 4, 6, 9), 4), ('DFy-L1', (9, -2, 4, 6), 3),
          ('ACOrdinal', (9, -2, 4, 6, 9, 4), 4), ('PDF-EMD', (9, -2, 4, 6), 3), ('Friedman-L1', (9, -2, 4, 6), 3)]


@harness('P07', [dict(fam=f, y=y, t=t, fitted=k % 2 == 0) for k, (f, y, t) in enumerate(LARGER)])
def larger(e, fam, y, t, fitted):
    """larger samples and more classes: the first and the last test prediction are symbolic; then a second fit and test set"""
    labels = sorted(set(y))
    n = len(labels)
    q1, q2 = None, None
    for j, yy in enumerate((y, tuple(reversed(y[:-1])) if len(set(y[:-1])) == n else tuple(reversed(y)))):
        m = len(yy)
        crisp = FAM[fam][3]
        P = e.arr([row(i, n) for i in range(m)])
        T = mixed_probs(e, 't%d_' % j, t - j, n, (0, t - 1 - j), lo=0.01 if fam == 'EM' else 0)
        L = mixed_labels(e, 'u%d_' % j, [v if i % 4 != 3 else labels[(labels.index(v) + 1) % n] for i, v in enumerate(yy)] + [labels[i % n] for i in range(t - j)], labels, (m, m + t - 1 - j)) if crisp else None
        A = e.np.vstack((P, T))
        X = index_X(e, m + t - j)
        log = []
        est = TableEstimator(A, L, fitted=fitted, log=log)
        kw = dict(estimator_test=est, **({} if fam in ('CC', 'PCC') else dict(estimator_train=est)))
        if q1 is None:
            q1, q2 = make(e, fam, **kw), make(e, fam)
        else:
            q1.set_params(**kw)
        q1.fit(X[:m], e.data(yy))
        k = e.mark()
        r1 = q1.predict(X[m:])
        ps1 = e.since(k)
        D = L if crisp else A
        q2.fit(X[:m], e.data(yy), **({} if fam in ('CC', 'PCC') else dict(predictions_train=D[:m])))
        r2, ps2 = run(e, q2, D[m:])
        e.same_result('both routes give the same prevalences (fit %d)' % (j + 1), r1, ps1, r2, ps2, n)
        e.true('an estimator is fitted only if it is not fitted', len(log) == (0 if fitted else 1))


TURNS = [('CC', (4, -1, 4, -1)), ('PCC', (4, -1, 4, -1)), ('AC', (4, -1, 4, -1)), ('PAC', (4, -1, 4, -1)), ('DeBias', (4, -1, 4, -1)), ('EM', (4, -1, 4, -1)), ('DFy-HD', (4, -1, 4, -1)), ('DFy-L1', (4, -1, 4, -1)), ('HDy', (4, -1, 4, -1)),
         ('MMy', (4, -1, 4, -1)), ('EDy', (4, -1, 4, -1)), ('CvMy', (4, -1, 4, -1)), ('SORDy', (4, -1, 4, -1)), ('Friedman-L1', (4, -1, 4, -1)), ('PCC', (7, 2, 4, 4)), ('AC', (7, 2, 4)), ('EM', (7, 2, 4, 2)), ('DFy-L1', (7, 2, 4)),
         ('ACOrdinal', (7, 2, 4, 4)), ('PDF-EMD', (7, 2, 4))]


@harness('P07', [dict(fam=f, y=y) for f, y in TURNS], more=[dict(fam='PAC', y=(7, 2, 4)), dict(fam='EDy', y=(7, 2, 4)), dict(fam='Friedman-L1', y=(7, 2, 4)), dict(fam='PDF-HD', y=(7, 2, 4))], limit=60)
def turns(e, fam, y, t=2):
    """one quantifier with estimators, and the predictions given now and then: always those of the present call"""
    labels = sorted(set(y))
    n, m = len(labels), len(y)
    crisp, counting = FAM[fam][3], fam in ('CC', 'PCC')
    k = 2 * m + 4 * t
    free = tuple(2 * m + t * j for j in range(4 if fam != 'SORDy' else 0))
    P = mixed_probs(e, 'p', k, n, free, lo=0.01 if fam == 'EM' else 0)
    # labels of the examples: mostly right
    given = [v if i % 4 != 3 else labels[(labels.index(v) + 1) % n] for i, v in enumerate(y + y[1:] + y[:1])] + [labels[(i * i // 2) % n] for i in range(4 * t)]
    L = mixed_labels(e, 'l', given, labels, free) if crisp else None
    S = L if crisp else P
    est = TableEstimator(P, L, fitted=True)
    q = make(e, fam, estimator_test=est, **({} if counting else dict(estimator_train=est)))
    X = index_X(e, k)
    rows = [2 * m + t * j for j in range(4)]

    def like_given(what, r, first, train, yy):
        o = make(e, fam)
        o.fit(X[:m], e.data(yy), **({} if counting else dict(predictions_train=S[train:train + m])))
        a, pa = r
        b, pb = run(e, o, S[first:first + t])
        e.same_result(what, a, pa, b, pb, n)

    def predict(Z, **kw):
        k0 = e.mark()
        return q.predict(Z, **kw), e.since(k0)
    # predictions given, although there are estimators
    q.fit(X[:m], e.data(y), **({} if counting else dict(predictions_train=S[m:2 * m])))
    like_given('given', predict(X[:t], predictions_test=S[rows[0]:rows[0] + t]), rows[0], m, y)
    Z = X[rows[1]:rows[1] + t].copy()
    like_given('estimator after given', predict(Z), rows[1], m, y)
    # the caller fills its array with other examples
    Z[...] = X[rows[3]:rows[3] + t]
    like_given('the same array with other examples', predict(Z), rows[3], m, y)
    like_given('another test set', predict(X[rows[2]:rows[2] + t]), rows[2], m, y)
    # the estimator for training too
    y2 = y[1:] + y[:1]
    q.fit(X[m:2 * m], e.data(y2))
    like_given('fitted with the estimator', predict(X[rows[0]:rows[0] + t]), rows[0], m, y2)
    q.fit(X[:m], e.data(y))
    like_given('fitted again', predict(X[rows[0]:rows[0] + t]), rows[0], 0, y)
    # another estimator: the same outputs in another order
    o = (2 * m + 2 * t, 2 * m)
    est2 = TableEstimator(e.np.vstack((P[:2 * m], P[o[0]:], P[o[1]:o[0]])), e.np.concatenate((L[:2 * m], L[o[0]:], L[o[1]:o[0]])) if crisp else None, fitted=True)
    q.set_params(estimator_test=est2)
    like_given('another estimator', predict(X[rows[0]:rows[0] + t]), rows[2], 0, y)
