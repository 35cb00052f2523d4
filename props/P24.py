"""Frank & Hall trees and ordinal quantification trees."""
from symq.harness import harness
from props.common import *

BOUNDS = '3-4 classes (5 thorough), every tree shape (arbitrary scores of the binary models), every model output on 1-2 test examples; training outputs symbolic with the absolute error and concrete with the default measure; given tree shapes for 5-6 classes (8 thorough) with larger samples; objects fitted four times'
OUTSIDE = 'symbolic training outputs with the logarithmic default measure (its value is covered by P02); more classes'


def path_probs(e, p, scores, n):
    """product along the path of the tree built with the smallest score of each range"""
    def rec(first, last, acc):
        if first > last:
            return {first: acc}
        out = {}
        for b in range(first, last + 1):
            c = argmin_is(e, scores[first:last + 1], b - first)
            sub = {**rec(first, b - 1, acc * p[b]), **rec(b + 1, last, acc * (1 - p[b]))}
            for k, v in sub.items():
                out[k] = out[k] + e.ite(c, v, 0) if k in out else e.ite(c, v, 0)
        return out
    r = rec(0, n - 2, 1)
    return [r[k] for k in range(n)]


def concrete_tree(p, scores, n):
    def rec(first, last, acc):
        if first > last:
            return {first: acc}
        b = first + min(range(last - first + 1), key=lambda i: scores[first + i])
        return {**rec(first, b - 1, acc * p[b]), **rec(b + 1, last, acc * (1 - p[b]))}
    r = rec(0, n - 2, 1)
    return [r[k] for k in range(n)]


def build(e, y, tabs, **kw):
    keys = ordered_keys(y)
    est = BinaryModels(SharedDict(zip(keys, tabs)))
    return est, e.mod('estimators.frank_and_hall').FrankAndHallTreeClassifier(estimator=est, **kw)


@harness('P24', [dict(y=(0, 1, 2), t=2), dict(y=(3, 1, 2, 2), t=1, verbose=1), dict(y=(1, 2, 4, 3), t=1), dict(y=(0, -5, 9, 4, 9), t=1)] + [dict(y=('c', 'a', 'b', 'b'), t=1)], more=[dict(y=(1, 2, 3, 4, 5), t=1), dict(y=(0, 1, 2, 3), t=2)], limit=60)
def every_tree(e, y, t, verbose=0):
    """arbitrary scores: every tree shape"""
    labels = sorted(set(y))
    n, m = len(labels), len(y)
    tabs = [e.probs('m%d' % i, m + t, 2) for i in range(n - 1)]
    scores = [e.real('score%d' % i, 0, 1) for i in range(n - 1)]
    for i in range(n - 1):
        for j in range(i):
            e.assume(e.abs(scores[i] - scores[j]) >= 0.001)
    true = [sum(1 for v in y if v <= c) / m for c in labels[:-1]]
    seen = []

    def measure(p_true, p_pred):
        seen.append((p_true, p_pred))
        for k, v in enumerate(true):
            if abs(float(p_true) - v) < 1e-9:
                return scores[k]
        return 7.0
    est, clf = build(e, y, tabs, performance_measure=measure, verbose=verbose)
    clf.fit(index_X(e, m), e.data(y))
    for k in range(n - 1):
        mine = [b for a, b in seen if abs(float(a) - true[k]) < 1e-9]
        e.true('model %d is scored with the true prevalence of its left group' % k, len(mine) > 0)
        for b in mine:
            e.eq('predicted prevalence of model %d' % k, b, e.sum([e.at(tabs[k], r, 1) for r in range(m)]) / m)
    X = index_X(e, t, first=m)
    P = clf.predict_proba(X)
    e.eq('shape', e.shape(P), (t, n))
    for r in range(t):
        e.eq('probabilities of example %d' % r, P[r], path_probs(e, [e.at(tab, m + r, 1) for tab in tabs], scores, n))
        e.distribution('row %d' % r, P[r], n)
    e.eq('classes', e.flat(clf.classes_), labels)


@harness('P24', [dict(y=(0, 1, 2), m=3), dict(y=(4, 7, 5, 5), m=4)], more=[dict(y=(0, 1, 2, 3), m=4)], limit=60)
def trained_tree(e, y, m):
    """the tree follows the training outputs (absolute error of the left prevalence)"""
    labels = sorted(set(y))
    n = len(labels)
    tabs = [e.arr([[0.5, 0.5]] * m + [[0.8 - 0.3 * i, 0.2 + 0.3 * i]]) for i in range(n - 1)]
    left = [e.vec('left%d_' % i, m) for i in range(n - 1)]
    for i, tab in enumerate(tabs):
        cells = [[1 - e.at(left[i], r), e.at(left[i], r)] for r in range(m)] + [[0.8 - 0.3 * i, 0.2 + 0.3 * i]]
        tabs[i] = e.arr(cells)
    scores = [e.abs(e.sum(list(left[i])) / m - sum(1 for v in y if v <= labels[i]) / m) for i in range(n - 1)]
    for i in range(n - 1):
        for j in range(i):
            e.assume(e.abs(scores[i] - scores[j]) >= 0.001)
    est, clf = build(e, y, tabs, performance_measure=lambda a, b: abs(a - b))
    clf.fit(index_X(e, m), e.data(y))
    P = clf.predict_proba(index_X(e, 1, first=m))
    e.eq('probabilities', P[0], path_probs(e, [0.2 + 0.3 * i for i in range(n - 1)], scores, n))


OUT = {3: ((0, 1, 1, 2), [[.9, .2, .1, .2], [.85, .9, .8, .7]]), 4: ((1, 2, 3, 5, 5), [[.5, .1, .3, .2, .1], [.9, .6, .2, .3, .1], [.8, .9, .7, .2, .4]]),
       5: ((4, 0, 1, 2, 3, 3), [[.3, .9, .4, .5, .1, .2], [.3, .8, .6, .1, .1, .2], [.1, .6, .8, .4, .3, .5], [.2, .9, .9, .9, .6, .7]])}


def kld(p, q, eps=1e-12):
    import math
    return sum(a * math.log(a / b) for a, b in ((p, q), (1 - p, 1 - q)) if a > 0)


def default_setup(e, n, t):
    y, out = OUT[n]
    m = len(y)
    labels = sorted(set(y))
    T = [e.vec('t%d_' % i, t) for i in range(n - 1)]
    tabs = [e.arr([[1 - v, v] for v in out[i]] + [[1 - e.at(T[i], r), e.at(T[i], r)] for r in range(t)]) for i in range(n - 1)]
    scores = [kld(sum(1 for v in y if v <= labels[i]) / m, sum(out[i]) / m) for i in range(n - 1)]
    refs = [concrete_tree([e.at(T[i], r) for i in range(n - 1)], scores, n) for r in range(t)]
    return y, m, labels, tabs, refs


@harness('P24', [dict(n=3, t=2), dict(n=4, t=2), dict(n=5, t=1)], more=[dict(n=5, t=4)])
def default_measure(e, n, t):
    """Kullback-Leibler divergence, concrete training outputs; predictions and labels"""
    y, m, labels, tabs, refs = default_setup(e, n, t)
    est, clf = build(e, y, tabs)
    clf.fit(index_X(e, m), e.data(y))
    X = index_X(e, t, first=m)
    P = clf.predict_proba(X)
    for r in range(t):
        e.eq('probabilities of example %d' % r, P[r], refs[r])
        e.distribution('row %d' % r, P[r], n)
    pred = e.flat(clf.predict(X))
    for r in range(t):
        for k, l in enumerate(labels):
            strict = e.and_(*[refs[r][k] > v + 1e-9 for j, v in enumerate(refs[r]) if j != k])
            e.true('prediction of example %d is the most probable class' % r, e.or_(e.not_(strict), pred[r] == l))


@harness('P24', [dict(n=3, t=2), dict(n=4, t=1, verbose=1), dict(n=4, t=2)], more=[dict(n=5, t=3)])
def quantification_tree(e, n, t, verbose=0):
    y, m, labels, tabs, refs = default_setup(e, n, t)
    est = BinaryModels(SharedDict(zip(ordered_keys(y), tabs)))
    q = e.mod('ordinal.trees').OrdinalQuantificationTree(estimator_test=est, verbose=verbose)
    q.fit(index_X(e, m), e.data(y))
    for i in range(2):
        r = q.predict(index_X(e, t, first=m))
        e.eq('prevalences', r, [e.sum([refs[i][k] for i in range(t)]) / t for k in range(n)])
        e.distribution('prevalences', r, n)


@harness('P24', [dict(n1=3, n2=3), dict(n1=4, n2=3), dict(n1=3, n2=4)])
def refit(e, n1, n2):
    """a second fit builds the tree anew"""
    score = {}
    tables = SharedDict()
    ys = {}
    for step, n in ((1, n1), (2, n2)):
        y = tuple(range(n)) + ((0,) if step == 1 else (n - 1,))
        ys[step] = y
        m = len(y)
        T = [e.real('t%d_%d' % (step, i), 0, 1) for i in range(n - 1)]
        keys = ordered_keys(y)
        outs = [[0.1 * ((3 * i + r + step) % 8) for r in range(m)] for i in range(n - 1)]
        for i, k in enumerate(keys):
            tables[k] = e.arr([[1 - v, v] for v in outs[i]] + [[1 - T[i], T[i]]])
        sc = [(i * 2 + step) % 3 for i in range(n - 1)] if step == 1 else [(i + 1) % (n - 1) for i in range(n - 1)]
        trues = [sum(1 for v in y if v <= c) / m for c in range(n - 1)]
        score[step] = (trues, sc, T)
    now = [1]

    def measure(p_true, p_pred):
        trues, sc, _ = score[now[0]]
        return float(sc[min(range(len(sc)), key=lambda k: abs(trues[k] - float(p_true)))])
    clf = e.mod('estimators.frank_and_hall').FrankAndHallTreeClassifier(estimator=BinaryModels(tables), performance_measure=measure)
    for step in (1, 2):
        now[0] = step
        y = ys[step]
        clf.fit(index_X(e, len(y)), e.data(y))
        P = clf.predict_proba(index_X(e, 1, first=len(y)))
        trues, sc, T = score[step]
        e.eq('probabilities after fit %d' % step, P[0], concrete_tree(T, sc, len(set(y))))


@harness('P24', [dict(y=(0, 1, 2)), dict(y=(3, -1, 2, 9)), dict(y=(5, 1, 2, 3, 4))], limit=60)
def drawing(e, y):
    """the text of a tree: one line per node, the classes in order as its leaves"""
    labels = sorted(set(y))
    n, m = len(labels), len(y)
    scores = [e.real('score%d' % i, 0, 1) for i in range(n - 1)]
    for i in range(n - 1):
        for j in range(i):
            e.assume(e.abs(scores[i] - scores[j]) >= 0.001)
    true = [sum(1 for v in y if v <= c) / m for c in labels[:-1]]

    def measure(p_true, p_pred):
        for k, v in enumerate(true):
            if abs(float(p_true) - v) < 1e-9:
                return scores[k]
        return 7.0
    tabs = [e.data([[0.5, 0.5]] * m) for _ in range(n - 1)]
    _, clf = build(e, y, tabs, performance_measure=measure)
    clf.fit(index_X(e, m), e.data(y))
    lines = str(clf.tree_).split('\n')
    splits = {'%svs%s' % (labels[:b + 1], labels[b + 1:]): b for b in range(n - 1)}

    def rec(first, last, level):
        line = lines.pop(0) if lines else ''
        e.true('level %d' % level, len(line) - len(line.lstrip('\t')) == level)
        if first > last:
            e.true('leaf of class %d' % labels[first], line.strip() == str(labels[first]))
            return
        b = splits.get(line.strip())
        e.true('node of classes %d to %d' % (labels[first], labels[last + 1]), b is not None and first <= b <= last)
        if b is not None and first <= b <= last:
            e.true('its model has the best score', argmin_is(e, scores[first:last + 1], b - first))
            rec(first, b - 1, level + 1)
            rec(b + 1, last, level + 1)
    rec(0, n - 2, 0)
    e.true('no more lines', not lines)


def solved(e, clf, tables, y, t, tag, score, quantify=False):
    """fit on y with given scores; probabilities and predictions of given test rows but for one symbolic"""
    labels = sorted(set(y))
    m, n = len(y), len(labels)
    T = []
    for i, k in enumerate(ordered_keys(y)):
        v = [row(3 * i + r, 2)[1] for r in range(m + t)]
        v[m + t - 1] = e.real('%s%d' % (tag, i), 0, 1)
        T.append(v[m:])
        tables[k] = e.arr([[1 - x, x] for x in v])
    clf.fit(index_X(e, m), e.data(y))
    if quantify:
        for lo in (0, t - 1):
            r = clf.predict(index_X(e, t - lo, first=m + lo))
            refs = [concrete_tree([v[i] for v in T], score, n) for i in range(lo, t)]
            e.eq('prevalences', r, [e.sum([p[k] for p in refs]) / (t - lo) for k in range(n)])
            e.distribution('prevalences', r, n)
        return
    for lo in (0, t - 1):
        P = clf.predict_proba(index_X(e, t - lo, first=m + lo))
        refs = [concrete_tree([v[i] for v in T], score, n) for i in range(lo, t)]
        for r in range(t - lo):
            e.eq('probabilities of example %d' % (lo + r), P[r], refs[r])
            e.distribution('row %d' % r, P[r], n)
    e.eq('classes', e.flat(clf.classes_), labels)
    pred = e.flat(clf.predict(index_X(e, 1, first=m + t - 1)))
    for k, l in enumerate(labels):
        strict = e.and_(*[refs[0][k] > v + 1e-9 for j, v in enumerate(refs[0]) if j != k])
        e.true('prediction is the most probable class', e.or_(e.not_(strict), pred[0] == l))


def scored(y, order):
    """a measure that gives the k-th split of y the score order[k]"""
    labels = sorted(set(y))
    true = [sum(1 for v in y if v <= c) / len(y) for c in labels[:-1]]
    assert len(set(true)) == len(order) == len(true)
    return lambda a, b: float(order[min(range(len(true)), key=lambda k: abs(true[k] - float(a)))]), true


YS = [(3, -1, 0, 2, 3, -1, 7), (9, 4, 6, 4, 5, 6, 9), (5, 1, 4, 2, 0, 3, 1, 5)]


@harness('P24', [dict(y=YS[0], order=o, t=4) for o in ((2, 0, 1, 3), (0, 1, 2, 3), (3, 2, 1, 0), (1, 3, 0, 2), (2, 3, 1, 0))] + [dict(y=YS[2], order=o, t=3) for o in ((2, 4, 0, 1, 3), (4, 0, 3, 2, 1))] + [dict(y=('d', 'a', 'c', 'b', 'e', 'b'), order=(2, 0, 1, 3), t=3)],
         more=[dict(y=YS[2] + (6, 8), order=o, t=3) for o in ((2, 6, 4, 0, 5, 1, 3), (6, 1, 4, 0, 5, 2, 3), (1, 0, 2, 5, 3, 6, 4))], limit=60)
def larger(e, y, order, t):
    """trees of given shape; given outputs but for one test example"""
    tables = SharedDict()
    clf = e.mod('estimators.frank_and_hall').FrankAndHallTreeClassifier(estimator=BinaryModels(tables), performance_measure=scored(y, order)[0])
    solved(e, clf, tables, y, t, 't', order)


@harness('P24', [dict(ys=((2, 0, 1, 1), YS[0], YS[1], (8, -2, 8, 3)), orders=((1, 0), (2, 0, 1, 3), (0, 2, 1), (0, 1)))], limit=60)
def again(e, ys, orders):
    """fitted four times with other labels, sizes and numbers of classes"""
    tables = SharedDict()
    now = [0]
    clf = e.mod('estimators.frank_and_hall').FrankAndHallTreeClassifier(estimator=BinaryModels(tables), performance_measure=lambda a, b: scored(ys[now[0]], orders[now[0]])[0](a, b))
    for j, y in enumerate(ys):
        now[0] = j
        solved(e, clf, tables, y, 2 + j % 2, 't%d_' % j, orders[j])


def sums(y, tables_of):
    """scores of the default measure for given left outputs"""
    labels = sorted(set(y))
    return [kld(sum(1 for v in y if v <= labels[i]) / len(y), sum(out) / len(out)) for i, out in enumerate(tables_of)]


@harness('P24', [dict(y=YS[0], t=4), dict(y=(8, -2, 8, 3), t=5), dict(y=YS[2], t=3)], limit=60)
def quantifier_larger(e, y, t):
    """the quantifier with larger samples, default measure; two test sets"""
    tables = SharedDict()
    q = e.mod('ordinal.trees').OrdinalQuantificationTree(estimator_test=BinaryModels(tables))
    score = sums(y, [[row(3 * i + r, 2)[1] for r in range(len(y))] for i in range(len(set(y)) - 1)])
    assert min([abs(a - b) for i, a in enumerate(score) for b in score[:i]]) > 1e-6
    solved(e, q, tables, y, t, 't', score, True)
