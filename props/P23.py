"""Frank & Hall classifiers."""
from symq.harness import harness
from props.common import *

BOUNDS = '3-5 classes (6 thorough) with consecutive and other label values, training labels in any order, every output of every binary model for 1-3 test examples; 5-6 classes with 7-8 training and 5 test rows, one symbolic; objects fitted four times'
OUTSIDE = 'two classes (the encoding needs at least three: LabelBinarizer collapses two classes into one column); more examples'


def setup(e, y, t, cls, **kw):
    """(classifier fitted on y, left-group probabilities of the test rows per model, test examples, labels)"""
    labels = sorted(set(y))
    m = len(y)
    keys = ordered_keys(y)
    tabs = [e.probs('m%d' % i, m + t, 2) for i in range(len(keys))]
    log = SharedList()
    clf = getattr(e.mod('estimators.frank_and_hall'), cls)(estimator=BinaryModels(SharedDict(zip(keys, tabs)), log), **kw)
    clf.fit(index_X(e, m), e.data(y))
    left = [[e.at(tab, m + r, 1) for tab in tabs] for r in range(t)]
    return clf, left, index_X(e, t, first=m), labels, keys, log


def winner(e, label, pred, rows, labels, shown):
    rows = [list(r) for r in rows]
    pred = e.flat(pred)
    for i, r in enumerate(rows):
        for k, l in enumerate(labels):
            others = [r[k] > v + 1e-9 for j, v in enumerate(r) if j != k]
            e.true('%s of example %d is the most probable class' % (label, i), e.or_(e.not_(e.and_(*others)), pred[i] == l))


def classic(e, p):
    return [p[0]] + [(1 - p[c - 1]) * p[c] for c in range(1, len(p))] + [1 - p[-1]]


def monotone(e, p):
    q = running(e, p)
    return [q[0]] + [b - a for a, b in zip(q, q[1:])] + [1 - q[-1]]


CONFIGS = [dict(y=(0, 1, 2), t=2), dict(y=(5, -1, 2, 2), t=1), dict(y=(4, 3, 2, 1), t=1), dict(y=(1, 2, 4, 3, 5), t=1)]
MORE = [dict(y=(0, 2, 1, 1), t=3), dict(y=(1, 4, 3, 9), t=2), dict(y=(1, 2, 3, 4, 5, 6), t=1)]


@harness('P23', CONFIGS + [dict(y=('no', 'yes', 'maybe', 'yes'), t=1)], more=MORE)
def probabilities(e, y, t):
    clf, left, X, labels, keys, log = setup(e, y, t, 'FrankAndHallClassifier')
    P = clf.predict_proba(X)
    e.eq('shape', e.shape(P), (t, len(labels)))
    for r in range(t):
        e.eq('probabilities of example %d' % r, P[r], classic(e, left[r]))
    e.eq('classes', e.flat(clf.classes_), labels)
    winner(e, 'prediction', clf.predict(X), [classic(e, p) for p in left], labels, P)


@harness('P23', CONFIGS, more=MORE)
def monotone_probabilities(e, y, t):
    clf, left, X, labels, keys, log = setup(e, y, t, 'FrankAndHallMonotoneClassifier')
    P = clf.predict_proba(X)
    e.eq('shape', e.shape(P), (t, len(labels)))
    for r in range(t):
        e.eq('probabilities of example %d' % r, P[r], monotone(e, left[r]))
        e.distribution('row %d' % r, P[r], len(labels))


@harness('P23', CONFIGS[:3] + [dict(y=('no', 'yes', 'maybe', 'yes'), t=1)], more=MORE[:2])
def monotone_prediction(e, y, t):
    clf, left, X, labels, keys, log = setup(e, y, 1, 'FrankAndHallMonotoneClassifier')
    winner(e, 'prediction', clf.predict(X), [monotone(e, p) for p in left], labels, None)


@harness('P23', [dict(cls=c, y=y, verbose=v, params=p) for c, y, v, p in (('FrankAndHallClassifier', (2, 0, 1, 1), 0, True), ('FrankAndHallMonotoneClassifier', (3, 5, 4, 9), 1, True), ('FrankAndHallClassifier', (1, 2, 3), 1, False))])
def training(e, cls, y, verbose, params):
    """one model per split, in order, each with its own parameters"""
    n = len(set(y))
    kw = dict(params_fit=[dict(param=10 + i) for i in range(n - 1)]) if params else {}
    clf, left, X, labels, keys, log = setup(e, y, 1, cls, verbose=verbose, **kw)
    e.true('number of models', len(clf.estimators_) == n - 1)
    for i, k in enumerate(keys):
        e.true('model %d is trained on its split' % i, clf.estimators_[i].key_ == k)
        e.true('model %d has its parameters' % i, clf.estimators_[i].param == (10 + i if params else 0))
    e.true('every model is trained once', sorted(k for k, _ in log) == sorted(keys))
    e.true('the base estimator stays unfitted', not hasattr(clf.estimator, 'table_'))
    P, Q = clf.predict_proba(X), clf.predict_proba(X)
    e.eq('repeated', e.flat(P), e.flat(Q))


@harness('P23', [dict(cls='FrankAndHallClassifier'), dict(cls='FrankAndHallMonotoneClassifier')])
def refit(e, cls):
    """a second fit with other labels replaces models and classes"""
    y1, y2 = (0, 1, 2), (7, 3, 9, 5)
    keys = ordered_keys(y1) + ordered_keys(y2)
    tabs = [e.probs('m%d' % i, 5, 2) for i in range(len(keys))]
    clf = getattr(e.mod('estimators.frank_and_hall'), cls)(estimator=BinaryModels(SharedDict(zip(keys, tabs))))
    clf.fit(index_X(e, 3), e.data(y1))
    clf.predict_proba(index_X(e, 1, first=3))
    clf.fit(index_X(e, 4), e.data(y2))
    P = clf.predict_proba(index_X(e, 1, first=4))
    f = classic if cls == 'FrankAndHallClassifier' else monotone
    e.eq('probabilities', P[0], f(e, [e.at(tab, 4, 1) for tab in tabs[2:]]))
    e.eq('classes', e.flat(clf.classes_), (3, 5, 7, 9))


@harness('P23', [dict(labels=(0, 1, 2), m=3), dict(labels=(-3, 1, 8, 11), m=2), dict(labels=(1, 2, 3, 4, 5), m=2)], more=[dict(labels=(0, 1, 2), m=6), dict(labels=(1, 2, 3, 4, 5), m=4)])
def encoding(e, labels, m):
    """every label sequence"""
    b = e.mod('estimators.frank_and_hall').FHLabelBinarizer()
    b.fit(e.data(labels))
    y = e.ints('y', m, labels)
    s = e.snap(y)
    Z = b.transform(y)
    e.eq('shape', e.shape(Z), (m, len(labels)))
    for i in range(m):
        for k, l in enumerate(labels):
            e.eq('entry %d,%d' % (i, k), e.at(Z, i, k), e.ind(e.at(y, i) <= l))
    e.eq('classes', e.flat(b.classes_), labels)
    e.unchanged('labels unchanged', y, s)


@harness('P23', [dict(cls=c) for c in ('FrankAndHallClassifier', 'FrankAndHallMonotoneClassifier', 'FrankAndHallTreeClassifier')])
def misuse(e, cls):
    C = getattr(e.mod('estimators.frank_and_hall'), cls)
    e.raises('fit without estimator', lambda: C().fit(index_X(e, 3), e.data((0, 1, 2))), ValueError)
    e.raises('predict before fit', lambda: C(estimator=BinaryModels({})).predict(index_X(e, 1)), NotFittedError)
    e.raises('predict_proba before fit', lambda: C(estimator=BinaryModels({})).predict_proba(index_X(e, 1)), NotFittedError)


def table(e, tag, m, t, i, free):
    """outputs of one model: given rows but for the test rows in `free`"""
    given = [row(3 * i + r, 2) for r in range(m + t)]
    for r in free:
        v = e.real('%s%d_%d' % (tag, i, r), 0, 1)
        given[m + r] = [1 - v, v]
    return e.arr(given)


def solved(e, clf, cls, tables, y, t, tag, free, given=True):
    """fit on y, probabilities and predictions of t test examples"""
    labels = sorted(set(y))
    m = len(y)
    tabs = []
    for i, k in enumerate(ordered_keys(y)):
        tabs.append(table(e, tag, m, t, i, free))
        tables[k] = tabs[-1]
    clf.fit(index_X(e, m), e.data(y))
    f = classic if cls == 'FrankAndHallClassifier' else monotone
    for lo, hi in ((0, t), (1, t), (t - 1, t)):
        P = clf.predict_proba(index_X(e, hi - lo, first=m + lo))
        e.eq('shape', e.shape(P), (hi - lo, len(labels)))
        refs = [f(e, [e.at(tab, m + r, 1) for tab in tabs]) for r in range(lo, hi)]
        for r in range(hi - lo):
            e.eq('probabilities of example %d' % (lo + r), P[r], refs[r])
    e.eq('classes', e.flat(clf.classes_), labels)
    winner(e, 'prediction', clf.predict(index_X(e, hi - lo, first=m + lo)), refs, labels, None)


YS = [(3, -1, 0, 2, 3, -1, 7), (9, 4, 6, 4, 5, 6, 9), (5, 1, 4, 2, 0, 3, 1, 5)]


@harness('P23', [dict(cls=c, y=y, t=5) for c, y in (('FrankAndHallClassifier', YS[0]), ('FrankAndHallMonotoneClassifier', YS[0]), ('FrankAndHallClassifier', YS[2]), ('FrankAndHallMonotoneClassifier', YS[1]))] + [dict(cls='FrankAndHallClassifier', y=('d', 'a', 'c', 'b', 'd', 'b'), t=3)], more=[dict(cls='FrankAndHallMonotoneClassifier', y=YS[2], t=7)], limit=60)
def larger(e, cls, y, t):
    """given outputs but for one test example; three test sets"""
    tables = SharedDict()
    clf = getattr(e.mod('estimators.frank_and_hall'), cls)(estimator=BinaryModels(tables))
    solved(e, clf, cls, tables, y, t, 'm', (t - 1,))


@harness('P23', [dict(cls=c, at=i) for c, at in (('FrankAndHallClassifier', (1,)), ('FrankAndHallMonotoneClassifier', (1, 2))) for i in at], limit=60)
def again(e, cls, at):
    """fitted four times with other labels, sizes and numbers of classes"""
    tables = SharedDict()
    clf = getattr(e.mod('estimators.frank_and_hall'), cls)(estimator=BinaryModels(tables))
    for j, y in enumerate(((2, 0, 1, 1),) + (YS[0], YS[1], (8, -2, 8, 3))):
        solved(e, clf, cls, tables, y, 2 + j % 2, 'm%d_' % j, (1,) if j == at else ())
