"""Ordinal decomposition (Frank & Hall quantifier)."""
from symq.harness import harness
from props.common import *

BOUNDS = '3-5 classes (6 thorough), every answer of the base quantifiers; prediction columns of 3-4 training and 1-3 test examples with PCC, CC and adjusted counts as base; models taken from Frank & Hall classifiers, fitted before or by the quantifier; 7 training and 4-6 test rows, one symbolic, up to 5 classes, two test sets; objects fitted four times'
OUTSIDE = 'two classes (the ordinal encoding needs three); larger samples; other base quantifiers than PCC/CC/AC/PAC and arbitrary answers'


def quantifier(e, base, **kw):
    return e.mod('decomposition.ordinal').FrankAndHallQuantifier(base, **kw)


def differences(e, v):
    q = running(e, v)
    return [q[0]] + [b - a for a, b in zip(q, q[1:])] + [1 - q[-1]]


Y = [(0, 1, 2), (5, -1, 2, 2), (4, 3, 2, 1), (1, 2, 4, 3, 5)]


@harness('P26', [dict(y=y, using=u) for y in Y for u in (True, False)] + [dict(y=('no', 'yes', 'maybe', 'yes'), using=u) for u in (True, False)], more=[dict(y=(1, 2, 3, 4, 5, 6), using=u) for u in (True, False)], limit=60)
def any_answer(e, y, using):
    """arbitrary answers of the base quantifiers"""
    n, m = len(set(y)), len(y)
    keys = ordered_keys(y)
    v = [e.real('v%d' % i, 0, 1) for i in range(n - 1)]
    Stub, log = binary_quantifier(e, SharedDict(zip(keys, v)), using)
    q = quantifier(e, Stub(setting=3))
    P, T = e.probs('p', m, n - 1), e.probs('t', 2, n - 1)
    s = e.snap(P), e.snap(T)
    X, Xt = index_X(e, m), index_X(e, 2, first=m)
    if using:
        q.fit(X, e.data(y), predictions_train=P)
        r = q.predict(Xt, predictions_test=T)
    else:
        q.fit(X, e.data(y))
        r = q.predict(Xt)
    e.eq('prevalences', r, differences(e, v))
    e.distribution('prevalences', r, n)
    e.eq('classes', e.flat(q.classes_), sorted(set(y)))
    e.true('every base quantifier has the settings', all(x[2] == 3 for x in log))
    if using:
        for i, k in enumerate(keys):
            for kind, M, rows in (('fit', P, m), ('predict', T, 2)):
                got = [x[3] for x in log if x[0] == kind and x[1] == k]
                e.true('base quantifier %d: %s' % (i, kind), len(got) == 1)
                for g in got:
                    e.eq('shape of the columns (%s)' % kind, e.shape(g), (rows, 2))
                    for j in range(rows):
                        e.eq('column %d, row %d (%s)' % (i, j, kind), g[j], [1 - e.at(M, j, i), e.at(M, j, i)])
        e.unchanged('training predictions unchanged', P, s[0])
        e.unchanged('test predictions unchanged', T, s[1])


@harness('P26', [dict(y=(0, 1, 2), t=2), dict(y=(5, -1, 2, 2), t=1), dict(y=(1, 4, 3, 2), t=2)], more=[dict(y=(1, 2, 3, 4, 5), t=2)], limit=60)
def pcc(e, y, t):
    n = len(set(y))
    T = e.probs('t', t, n - 1)
    q = quantifier(e, e.mod('baselines.cc').PCC(), verbose=1)
    q.fit(index_X(e, len(y)), e.data(y))
    r = q.predict(index_X(e, t), predictions_test=T)
    e.eq('prevalences', r, differences(e, [e.mean([e.at(T, j, i) for j in range(t)]) for i in range(n - 1)]))
    e.distribution('prevalences', r, n)


@harness('P26', [dict(y=(0, 1, 2), t=2), dict(y=(1, 4, 3, 2), t=1)], more=[dict(y=(3, 5, 7, 7), t=3)], limit=60)
def cc(e, y, t):
    n = len(set(y))
    T = e.probs('t', t, n - 1)
    for v in e.flat(T):
        e.assume(e.abs(v - 0.5) >= 0.001)
    q = quantifier(e, e.mod('baselines.cc').CC())
    q.fit(index_X(e, len(y)), e.data(y))
    r = q.predict(index_X(e, t), predictions_test=T)
    e.eq('prevalences', r, differences(e, [e.mean([e.ind(e.at(T, j, i) > 0.5) for j in range(t)]) for i in range(n - 1)]))


def adjusted(e, trues, falses, test):
    """two-class adjusted count: mean test score corrected by the mean scores of the positives and negatives"""
    tpr, fpr = e.mean(trues), e.mean(falses)
    return e.clip01((e.mean(test) - fpr) / (tpr - fpr))


@harness('P26', [dict(y=(0, 1, 2), t=1, repeats=1), dict(y=(1, 0, 2), t=2, repeats=1), dict(y=(0, 1, 2), t=1, repeats=2)], more=[dict(y=(0, 1, 2, 2), t=2, repeats=1), dict(y=(0, 1, 2, 3), t=1, repeats=1)], limit=90)
def pac(e, y, t, repeats):
    """adjusted counts as base: training and test columns go to the same quantifier, repeated predictions included"""
    n, m = len(set(y)), len(y)
    labels = sorted(set(y))
    P, T = e.probs('p', m * repeats, n - 1), e.probs('t', t, n - 1)
    for i in range(n - 1):
        tr = [e.at(P, j, i) for j in range(m * repeats) if y[j % m] <= labels[i]]
        fa = [e.at(P, j, i) for j in range(m * repeats) if y[j % m] > labels[i]]
        e.assume(e.abs(e.mean(tr) - e.mean(fa)) >= 0.05)
    q = quantifier(e, e.mod('baselines.ac').PAC())
    q.fit(index_X(e, m), e.data(y), predictions_train=P)
    r = q.predict(index_X(e, t), predictions_test=T)
    v = []
    for i in range(n - 1):
        tr = [e.at(P, j, i) for j in range(m * repeats) if y[j % m] <= labels[i]]
        fa = [e.at(P, j, i) for j in range(m * repeats) if y[j % m] > labels[i]]
        v.append(adjusted(e, tr, fa, [e.at(T, j, i) for j in range(t)]))
    e.eq('prevalences', r, differences(e, v), tol=1e-5)
    e.distribution('prevalences', r, n)


@harness('P26', [dict(y=(0, 1, 2), fitted=f, tree=False) for f in (True, False)] + [dict(y=(4, 1, 3, 2), fitted=False, tree=True)], limit=60)
def models(e, y, fitted, tree):
    """the models of Frank & Hall classifiers, one for training (not needed by PCC) and one for test"""
    n, m, t = len(set(y)), len(y), 2
    keys = ordered_keys(y)
    tabs = [e.probs('m%d' % i, m + t, 2) for i in range(n - 1)]
    fh = e.mod('estimators.frank_and_hall')
    clf = (fh.FrankAndHallMonotoneClassifier if tree else fh.FrankAndHallClassifier)(estimator=BinaryModels(SharedDict(zip(keys, tabs))))
    if fitted:
        clf.fit(index_X(e, m), e.data(y))
    q = quantifier(e, e.mod('baselines.cc').PCC(), estimator_test=clf)
    q.fit(index_X(e, m), e.data(y))
    for times in range(2):
        r = q.predict(index_X(e, t, first=m))
        e.eq('prevalences', r, differences(e, [e.mean([e.at(tab, m + j, 1) for j in range(t)]) for tab in tabs]))


@harness('P26', [dict(y=(0, 1, 2), shared=s) for s in (True, False)] + [dict(y=(2, 6, 3, 9), shared=False)], limit=60)
def two_estimators(e, y, shared):
    """training predictions come from the training estimator, test predictions from the test estimator"""
    n, m, t = len(set(y)), len(y), 1
    keys = ordered_keys(y)
    A = [e.probs('a%d' % i, m + t, 2) for i in range(n - 1)]
    B = A if shared else [e.probs('b%d' % i, m + t, 2) for i in range(n - 1)]
    fh = e.mod('estimators.frank_and_hall')
    tr = fh.FrankAndHallClassifier(estimator=BinaryModels(SharedDict(zip(keys, A))))
    te = tr if shared else fh.FrankAndHallClassifier(estimator=BinaryModels(SharedDict(zip(keys, B))))
    v = [e.real('v%d' % i, 0, 1) for i in range(n - 1)]
    Stub, log = binary_quantifier(e, SharedDict(zip(keys, v)))
    q = quantifier(e, Stub(), estimator_train=tr, estimator_test=te)
    q.fit(index_X(e, m), e.data(y))
    q.predict(index_X(e, t, first=m))
    for i, k in enumerate(keys):
        for kind, M, rows, off in (('fit', A, m, 0), ('predict', B, t, m)):
            got = [x[3] for x in log if x[0] == kind and x[1] == k]
            e.true('base quantifier %d: %s' % (i, kind), len(got) == 1)
            for g in got:
                for j in range(rows):
                    e.eq('model %d, row %d (%s)' % (i, j, kind), g[j], [e.at(M[i], off + j, 0), e.at(M[i], off + j, 1)])


@harness('P26', [dict(using=u) for u in (True, False)])
def refit(e, using):
    y1, y2 = (0, 1, 2), (7, 3, 9, 5)
    keys = ordered_keys(y1) + ordered_keys(y2)
    v = [e.real('v%d' % i, 0, 1) for i in range(5)]
    Stub, log = binary_quantifier(e, SharedDict(zip(keys, v)), using)
    q = quantifier(e, Stub())
    for y, w in ((y1, v[:2]), (y2, v[2:])):
        kw = dict(predictions_train=e.arr([[0.5] * (len(y) - 1)] * len(y))) if using else {}
        q.fit(index_X(e, len(y)), e.data(y), **kw)
        r = q.predict(index_X(e, 1), **(dict(predictions_test=e.arr([[0.5] * (len(y) - 1)])) if using else {}))
        e.eq('prevalences', r, differences(e, w))
        e.eq('classes', e.flat(q.classes_), sorted(y))


@harness('P26', [dict(n=2), dict(n=3), dict(n=4)], more=[dict(n=5), dict(n=6)])
def correction(e, n):
    """the ascending correction on its own"""
    v = e.vec('v', n)
    s = e.snap(v)
    r = e.mod('decomposition.ordinal').FrankAndHallQuantifier.check_and_correct_prevalences_asc(v)
    e.eq('corrected', r, running(e, list(s)))
    e.unchanged('argument unchanged', v, s)


@harness('P26', [dict()])
def misuse(e):
    Stub, log = binary_quantifier(e, {})
    X, y = index_X(e, 3), e.data((0, 1, 2))
    e.raises('not a quantifier', lambda: quantifier(e, object()).fit(X, y), ValueError)
    e.raises('training estimator of another kind', lambda: quantifier(e, Stub(), estimator_train=BinaryModels({})).fit(X, y), ValueError)
    e.raises('test estimator of another kind', lambda: quantifier(e, Stub(), estimator_test=BinaryModels({})).fit(X, y, predictions_train=e.arr([[.1, .2]] * 3)), ValueError)
    e.raises('nothing for training', lambda: quantifier(e, Stub()).fit(X, y), ValueError)


YS = [(3, -1, 0, 2, 3, -1, 7), (9, 4, 6, 4, 5, 6, 9), (5, 1, 4, 2, 0, 3, 1, 5)]


def columns(e, tag, m, k, free):
    """m rows of k independent probabilities (scores of the positive class)"""
    return e.arr([[e.real('%s%d_%d' % (tag, i, j), 0, 1) if i in free else row(2 * i + j, 3)[j % 3] for j in range(k)] for i in range(m)])


def separated(e, y, labels, k):
    """given training scores that tell the two groups of every column apart (the second column the wrong way round)"""
    return e.arr([[(0.625 if (v <= labels[j]) == (j != 1) else 0.25) + row(2 * i + j, 3)[j % 3] / 4 for j in range(k)] for i, v in enumerate(y)])


def solved(e, q, base, y, t, tag, free=True):
    labels = sorted(set(y))
    m, n = len(y), len(labels)
    P = separated(e, y, labels, n - 1)
    kw = {} if base == 'PCC' else dict(predictions_train=P)
    q.fit(index_X(e, m), e.data(y), **kw)
    e.eq('classes', e.flat(q.classes_), labels)
    for k, tt in enumerate((t, 2)):
        T = columns(e, 't%s%d_' % (tag, k), tt, n - 1, (0,) if free and k == 0 else ())
        r = q.predict(index_X(e, tt), predictions_test=T)
        v = []
        for i in range(n - 1):
            test = [e.at(T, j, i) for j in range(tt)]
            tr = [e.at(P, j, i) for j in range(m) if y[j] <= labels[i]]
            fa = [e.at(P, j, i) for j in range(m) if y[j] > labels[i]]
            v.append(e.mean(test) if base == 'PCC' else adjusted(e, tr, fa, test))
        e.eq('prevalences', r, differences(e, v), tol=1e-5)
        e.distribution('prevalences', r, n)


def base_of(e, name):
    return e.mod('baselines.cc').PCC() if name == 'PCC' else e.mod('baselines.ac').PAC()


@harness('P26', [dict(base=b, y=y, t=t) for b, y, t in (('PCC', YS[0], 5), ('PCC', YS[1], 4), ('PAC', YS[1], 4), ('PAC', (1, -3, 1, 4, -3, 4, 1), 6))] + [dict(base='PCC', y=('d', 'a', 'c', 'b', 'd', 'b'), t=3)], more=[dict(base=b, y=YS[i], t=5) for b, i in (('PCC', 2), ('PAC', 0))], limit=60)
def larger(e, base, y, t):
    """given predictions but for one test row; two test sets"""
    solved(e, quantifier(e, base_of(e, base)), base, y, t, '')


@harness('P26', [dict(base=b, at=i) for b, i in (('PCC', 1), ('PAC', 2), ('PCC', 3), ('PAC', 3))], limit=60)
def again(e, base, at):
    """fitted four times with other labels, sizes and numbers of classes"""
    q = quantifier(e, base_of(e, base))
    for j, y in enumerate(((0, 2, 1), YS[0], YS[1], (8, -2, 8, 3))):
        solved(e, q, base, y, 3, '%d_' % j, j == at)
