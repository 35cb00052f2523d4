"""DDAG ordinal classifier."""
from symq.harness import harness
from props.common import *

BOUNDS = '2-5 classes (6 thorough), both methods, other label values, every pairwise model output on 1-2 test examples; larger samples with one symbolic test row, up to 6 classes; objects fitted four times'
OUTSIDE = 'more classes or examples; the training of the pairwise models (scikit-learn code, executed on concrete labels)'


def pair_keys(y):
    cl = sorted(set(y))
    return {(i, j): tuple((r, int(v == cl[j])) for r, v in enumerate(y) if v in (cl[i], cl[j])) for i in range(len(cl)) for j in range(i + 1, len(cl))}


def setup(e, y, t, **kw):
    n, m = len(set(y)), len(y)
    keys = pair_keys(y)
    tabs = {k: e.probs('m%d%d_' % k, m + t, 2) for k in keys}
    clf = e.mod('estimators.ordinal_ddag').DDAGClassifier(estimator=BinaryModels(SharedDict((keys[k], tabs[k]) for k in keys)), **kw)
    clf.fit(index_X(e, m), e.data(y))
    left = [{k: e.at(tabs[k], m + r, 0) for k in tabs} for r in range(t)]
    return clf, left, index_X(e, t, first=m), n


def graph(e, p, n, winner):
    """mass arriving at each remaining interval of classes"""
    mass = {(0, n - 1): 1}
    for width in range(n - 1, 0, -1):
        for i in range(n - width):
            a = mass[(i, i + width)]
            q = p[(i, i + width)]
            if winner and width > 1:
                q = e.ind(q >= 0.5)
            for k, w in (((i, i + width - 1), q), ((i + 1, i + width), 1 - q)):
                mass[k] = mass.get(k, 0) + a * w
    return [mass[(i, i)] for i in range(n)]


CONFIGS = [dict(y=(0, 1), t=2), dict(y=(0, 1, 2), t=2), dict(y=(7, -2, 3), t=1), dict(y=(3, 1, 2, 4, 4), t=1), dict(y=(1, 2, 3, 4, 5), t=1)]
MORE = [dict(y=(0, 1, 2, 3), t=2), dict(y=(1, 2, 3, 4, 5, 6), t=1)]


@harness('P25', CONFIGS + [dict(y=('no', 'yes', 'maybe', 'yes'), t=1)], more=MORE, limit=60)
def full_probabilistic(e, y, t):
    clf, left, X, n = setup(e, y, t)
    P = clf.predict_proba(X)
    e.eq('shape', e.shape(P), (t, n))
    for r in range(t):
        e.eq('probabilities of example %d' % r, P[r], graph(e, left[r], n, False))
        e.distribution('row %d' % r, P[r], n)
    e.eq('classes', e.flat(clf.classes_), sorted(set(y)))


@harness('P25', CONFIGS[:4], more=CONFIGS[4:] + MORE, limit=60)
def winner_node(e, y, t):
    clf, left, X, n = setup(e, y, t, predict_method='winner_node')
    P = clf.predict_proba(X)
    e.eq('shape', e.shape(P), (t, n))
    for r in range(t):
        e.eq('probabilities of example %d' % r, P[r], graph(e, left[r], n, True))
        e.distribution('row %d' % r, P[r], n)


@harness('P25', [dict(y=(0, 1, 2), method='full_probabilistic', t=2), dict(y=(9, 4, 5, 7), method='full_probabilistic', t=1), dict(y=(3, 2, 1), method='winner_node', t=2), dict(y=(1, 2, 3, 4), method='winner_node', t=1)],
         more=[dict(y=(1, 2, 3, 4, 5), method='winner_node', t=1)], limit=60)
def prediction(e, y, method, t):
    clf, left, X, n = setup(e, y, t, predict_method=method, verbose=1)
    labels = sorted(set(y))
    pred = e.flat(clf.predict(X))
    for i in range(t):
        ref = graph(e, left[i], n, method == 'winner_node')
        for k, l in enumerate(labels):
            strict = e.and_(*[ref[k] > v + 1e-9 for j, v in enumerate(ref) if j != k])
            e.true('prediction of example %d is the most probable class' % i, e.or_(e.not_(strict), pred[i] == l))


@harness('P25', [dict(n=3, method='full_probabilistic'), dict(n=4, method='winner_node')])
def repeated(e, n, method):
    """the same answer again, and after other examples; a refit with other labels"""
    y = tuple(range(n))
    clf, left, X, n = setup(e, y, 2, predict_method=method)
    X1 = index_X(e, 1, first=n)
    P = e.snap(clf.predict_proba(X1))
    clf.predict_proba(X)
    e.eq('probabilities again', e.flat(clf.predict_proba(X1)), e.flat(P))


@harness('P25', [dict()])
def misuse(e):
    C = e.mod('estimators.ordinal_ddag').DDAGClassifier
    e.raises('predict before fit', lambda: C(BinaryModels({})).predict(index_X(e, 1)), NotFittedError)
    e.raises('predict_proba before fit', lambda: C(BinaryModels({})).predict_proba(index_X(e, 1)), NotFittedError)


def solved(e, clf, tables, y, t, method, tag, free):
    """fit on y; probabilities and predictions of given test rows but for one symbolic"""
    labels = sorted(set(y))
    n, m = len(labels), len(y)
    keys, left = pair_keys(y), []
    for i, k in enumerate(keys):
        v = [row(2 * i + r, 2)[0] for r in range(m + t)]
        if free:
            v[m + t - 1] = e.real('%s%d' % (tag, i), 0, 1)
        tables[keys[k]] = e.arr([[x, 1 - x] for x in v])
        left.append((k, v[m:]))
    clf.fit(index_X(e, m), e.data(y))
    for lo in (0, t - 1):
        P = clf.predict_proba(index_X(e, t - lo, first=m + lo))
        refs = [graph(e, {k: v[r] for k, v in left}, n, method == 'winner_node') for r in range(lo, t)]
        for r in range(t - lo):
            e.eq('probabilities of example %d' % (lo + r), P[r], refs[r])
            e.distribution('row %d' % r, P[r], n)
    e.eq('classes', e.flat(clf.classes_), labels)
    pred = e.flat(clf.predict(index_X(e, 1, first=m + t - 1)))
    for k, l in enumerate(labels):
        strict = e.and_(*[refs[0][k] > v + 1e-9 for j, v in enumerate(refs[0]) if j != k])
        e.true('prediction is the most probable class', e.or_(e.not_(strict), pred[0] == l))


YS = [(3, -1, 0, 2, 3, -1, 7), (9, 4, 6, 4, 5, 6, 9), (5, 1, 4, 2, 0, 3, 1, 5)]


@harness('P25', [dict(y=(4, -2, 4, -2, -2), t=4, method='full_probabilistic'), dict(y=YS[1], t=4, method='full_probabilistic'), dict(y=YS[0], t=3, method='full_probabilistic'), dict(y=YS[1], t=4, method='winner_node'), dict(y=YS[2], t=3, method='full_probabilistic', free=False), dict(y=YS[2], t=4, method='winner_node', free=False)] + [dict(y=('d', 'a', 'c', 'b', 'd', 'b'), t=3, method='full_probabilistic')],
         more=[dict(y=YS[0], t=3, method='winner_node')], limit=60)
def larger(e, y, t, method, free=True):
    """given outputs but for one test example"""
    tables = SharedDict()
    clf = e.mod('estimators.ordinal_ddag').DDAGClassifier(estimator=BinaryModels(tables), predict_method=method)
    solved(e, clf, tables, y, t, method, 't', free)


@harness('P25', [dict(method=m, at=i) for m, i in (('full_probabilistic', 1), ('full_probabilistic', 3), ('winner_node', 2))], limit=60)
def again(e, method, at):
    """fitted four times with other labels, sizes and numbers of classes"""
    tables = SharedDict()
    clf = e.mod('estimators.ordinal_ddag').DDAGClassifier(estimator=BinaryModels(tables), predict_method=method)
    for j, y in enumerate(((2, 0, 1, 1), YS[0], (6, 4, 9, 4, 5, 9), (8, -2, 8))):
        solved(e, clf, tables, y, 2 + j % 2, method, 't%d_' % j, j == at)
