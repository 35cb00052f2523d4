"""Weighted nearest neighbours: classifier and quantifier."""
from symq.harness import harness
from props.common import *

BOUNDS = 'every labelling of 3-5 training examples with 2-4 classes (all present), 1-4 neighbours, concrete positions of the examples (1-2 features), up to 3 test examples; for one test example every neighbour assignment follows from the labellings by symmetry; eight examples with 2-4 classes, up to 8 neighbours, one or two labels symbolic; objects fitted four times with two test sets each; five metrics besides the Euclidean one'
OUTSIDE = 'ties between the weights of two classes (excluded: closer than 0.001); the neighbour search itself, which is scikit-learn; a single training class'

X5 = {3: [[0., 0.], [1., .2], [3., .1]], 4: [[0., 0.], [1., .2], [3., .1], [7., .4]], 5: [[0., 0.], [1., .2], [3., .1], [7., .4], [7.5, 2.]]}
# neighbours on both sides: predictions worse than chance are possible
CHAIN = [[0., 0.], [1., .2], [2.05, .1], [3.2, .3], [4.45, 0.]]
T5 = [[.1, 0.], [2.1, .3], [6.5, .5], [8., 3.]]


def neighbours(train, test, k, p=2, w=(1, 1)):
    """positions of the k nearest training examples"""
    def far(x, t):
        v = [c * abs(a - b) ** (p or 1) for c, a, b in zip(w, x, t)]
        return sum(v) if p else max(v)
    d = [[(far(x, t), i) for i, x in enumerate(train)] for t in test]
    return [[i for _, i in sorted(r)[:k]] for r in d]


def labelled(e, m, labels):
    y = e.ints('y', m, labels)
    for l in labels:
        e.assume(e.or_(*[v == l for v in y]))
    return y


def totals(e, y, nb, labels):
    """total weight of each class among the neighbours"""
    m = len(y)
    freq = [e.sum([e.ind(e.at(y, i) == l) for i in range(m)]) / m for l in labels]
    return [e.sum([e.ind(e.at(y, i) == l) for i in nb]) * (1 - f) for l, f in zip(labels, freq)]


def untied(e, w):
    for a in range(len(w)):
        for b in range(a):
            e.assume(e.or_(e.abs(w[a] - w[b]) >= 0.001, e.and_(w[a] == 0, w[b] == 0)))


LAB = {2: (3, 8), 3: (1, 5, 9), 4: (-2, 1, 5, 9)}


def pwk(e, k, **kw):
    return e.mod('estimators.weighted_knn').PWK(n_neighbors=k, **kw)


@harness('P35', [dict(m=3, n=2, k=1), dict(m=3, n=2, k=2), dict(m=4, n=2, k=3), dict(m=4, n=3, k=2), dict(m=4, n=3, k=3), dict(m=5, n=2, k=4), dict(m=5, n=2, k=3, t=2), dict(m=4, n=2, k=3, p=1)],
         more=[dict(m=5, n=4, k=3), dict(m=5, n=3, k=3, t=1), dict(m=5, n=3, k=4), dict(m=5, n=2, k=5)], limit=90)
def classifier(e, m, n, k, t=1, p=2):
    lab = LAB[n]
    y = labelled(e, m, lab)
    test = T5[1:1 + t]
    nb = neighbours(X5[m], test, k, p)
    W = [totals(e, y, r, lab) for r in nb]
    for w in W:
        untied(e, w)
    c = pwk(e, k, p=p)
    e.true('fit returns the classifier', c.fit(e.data(X5[m]), y) is c)
    e.eq('classes', c.classes_, e.data(lab))
    T = e.data(test)
    P = c.predict_proba(T)
    L = c.predict(T)
    e.true('shapes', e.shape(P) == (t, n) and e.shape(L) == (t,))
    for i, w in enumerate(W):
        s = e.sum(w)
        for j in range(n):
            e.eq('probability %d of example %d' % (j, i), e.at(P, i, j) * s, w[j])
            e.true('largest total weight', e.or_(e.not_(e.at(L, i) == lab[j]), *[e.and_(*[w[j] >= v for v in w])]))
        e.true('one of the classes', e.or_(*[e.at(L, i) == l for l in lab]))
        e.eq('probabilities sum to 1', e.sum([e.at(P, i, j) for j in range(n)]), 1)


@harness('P35', [dict(m=3, n=2, k=1), dict(m=4, n=3, k=2)])
def weights(e, m, n, k):
    """the weight of a training example is one minus the frequency of its class, in every position"""
    lab = LAB[n]
    y = labelled(e, m, lab)
    c = pwk(e, k).fit(e.data(X5[m]), y)
    for i in range(m):
        own = e.sum([e.ind(e.at(y, j) == e.at(y, i)) for j in range(m)]) / m
        e.eq('weight of example %d' % i, e.at(c.weights_, i), 1 - own)


def predicted(e, y, nb, lab):
    """position of the predicted class as one indicator per class, for each row of neighbours"""
    out = []
    for r in nb:
        w = totals(e, y, r, lab)
        untied(e, w)
        out.append([e.ind(argmax_is(e, w, j)) for j in range(len(lab))])
    return out


@harness('P35', [dict(m=3, k=1, t=3), dict(m=4, k=2, t=2), dict(m=4, k=3, t=3), dict(m=5, k=3, t=2), dict(m=5, k=3, t=2, chain=True)], more=[dict(m=5, k=2, t=4), dict(m=5, k=4, t=3)], limit=90)
def two_classes(e, m, k, t, chain=False):
    """adjusted count"""
    lab = LAB[2]
    X = CHAIN if chain else X5[m]
    y = labelled(e, m, lab)
    train = predicted(e, y, neighbours(X, X, k), lab)
    test = predicted(e, y, neighbours(X, T5[:t], k), lab)
    pos = [e.ind(e.at(y, i) == lab[1]) for i in range(m)]
    tpr = e.sum([a * b[1] for a, b in zip(pos, train)]) / e.sum(pos)
    fpr = e.sum([(1 - a) * b[1] for a, b in zip(pos, train)]) / e.sum([1 - a for a in pos])
    cc = e.sum([b[1] for b in test]) / t
    d = tpr - fpr
    e.assume(e.or_(e.abs(d) >= 0.01, e.abs(d) <= 1e-6))
    q = e.mod('multiclass.knn').PWKQuantifier(n_neighbors=k)
    q.fit(e.data(X), y)
    r = q.predict(e.data(T5[:t]))
    e.distribution('prevalences', r, 2)
    flat = e.abs(d) <= 1e-6
    # (cc - fpr) / (tpr - fpr), clipped: compared without dividing
    p = e.at(r, 1)
    num = e.ite(d > 0, cc - fpr, fpr - cc)
    den = e.abs(d)
    e.eq('adjusted count', e.ite(flat, p, p * den), e.ite(flat, cc, e.ite(num <= 0, 0, e.ite(num >= den, den, num))))
    e.eq('again', q.predict(e.data(T5[:t])), r)


@harness('P35', [dict(m=4, k=2, t=3), dict(m=5, k=2, t=2, y=(1, 9, 9, 9, 5), times=2), dict(m=5, k=2, t=3, y=(1, 9, -2, 9, 5), n=4)], more=[dict(m=4, k=1, t=2), dict(m=5, k=1, t=3), dict(m=5, k=2, t=3, y=(5, 9, 9, 9, 1), times=2), dict(m=4, k=3, t=2)], limit=90)
def three_classes(e, m, k, t, y=None, times=1, n=3):
    """L1 match of the confusion rates"""
    lab = LAB[n]
    y = labelled(e, m, lab) if y is None else e.data(y)
    train = predicted(e, y, neighbours(X5[m], X5[m], k), lab)
    test = predicted(e, y, neighbours(X5[m], T5[:t], k), lab)
    own = [[e.ind(e.at(y, i) == l) for i in range(m)] for l in lab]
    cols = [[e.sum([own[c][i] * train[i][j] for i in range(m)]) / e.sum(own[c]) for j in range(n)] for c in range(n)]
    freq = [e.sum([b[j] for b in test]) / t for j in range(n)]
    q = e.mod('multiclass.knn').PWKQuantifier(n_neighbors=k)
    q.fit(e.data(X5[m]), y)
    for again in range(times):
        k0 = e.mark()
        r = q.predict(e.data(T5[:t]))
        ps = e.since(k0)
        e.minimises('prediction %d' % again, r, n, mixture_loss(e, 'L1', cols, freq), *([ps[-1]] if ps else []))


XL = [[0., 0.], [1., .2], [3., .1], [7., .4], [7.5, 2.], [2.1, 3.], [5.2, 1.1], [4.1, .9]]
TL = [[.1, 0.], [2.1, .3], [6.5, .5], [8., 3.], [3.6, 1.], [1.4, 2.2]]
YL = {2: (4, -1, -1, 4, -1, -1, 4, -1), 3: (7, -2, 3, 3, -2, 7, -2, 3), 4: (5, 0, -3, 9, 0, 5, 0, -3)}


def solved(e, c, y, test, k, free, tag, quantify, X=XL, **kw):
    """fit on given labels but for those in `free`"""
    m = len(y)
    lab = sorted(set(y))
    n, X = len(lab), X[:m]
    y = mixed_labels(e, 'y' + tag, y, lab, free)
    for l in lab:
        e.assume(e.or_(*[e.at(y, i) == l for i in range(m)]))
    c.fit(e.data(X), y)
    e.eq('classes', c.classes_, e.data(lab))
    if not quantify:
        for lo in (0, 1):
            T = test[lo:]
            P, L = c.predict_proba(e.data(T)), c.predict(e.data(T))
            for i, r in enumerate(neighbours(X, T, k, **kw)):
                w = totals(e, y, r, lab)
                s = e.sum(w)
                for j in range(n):
                    e.eq('probability %d of example %d' % (j, i), e.at(P, i, j) * s, w[j])
                    e.true('largest total weight', e.or_(e.not_(e.at(L, i) == lab[j]), *[e.and_(*[w[j] >= v - 1e-9 for v in w])]))
                e.true('one of the classes', e.or_(*[e.at(L, i) == l for l in lab]))
        return
    train = predicted(e, y, neighbours(X, X, k, **kw), lab)
    own = [[e.ind(e.at(y, i) == l) for i in range(m)] for l in lab]
    cols = [[e.sum([own[a][i] * train[i][b] for i in range(m)]) / e.sum(own[a]) for b in range(n)] for a in range(n)]
    for lo in (0, 1):
        T = test[lo:]
        freq = predicted(e, y, neighbours(X, T, k, **kw), lab)
        freq = [e.sum([b[j] for b in freq]) / len(T) for j in range(n)]
        k0 = e.mark()
        r = c.predict(e.data(T))
        ps = e.since(k0)
        if n == 2:
            d = cols[1][1] - cols[0][1]
            e.distribution('prevalences', r, 2)
            e.assume(e.abs(d) >= 0.01)
            p, num = e.at(r, 1) * e.abs(d), e.ite(d > 0, freq[1] - cols[0][1], cols[0][1] - freq[1])
            e.eq('adjusted count', p, e.ite(num <= 0, 0, e.ite(num >= e.abs(d), e.abs(d), num)))
        else:
            e.minimises('prediction', r, n, mixture_loss(e, 'L1', cols, freq), *([ps[-1]] if ps else []))


@harness('P35', [dict(n=2, k=3), dict(n=3, k=4), dict(n=4, k=5), dict(n=2, k=8)], limit=60)
def larger_classifier(e, n, k):
    """eight examples, two labels symbolic; two test sets"""
    solved(e, pwk(e, k), YL[n], TL, k, (1, 6), '', False)


@harness('P35', [dict(n=2, k=3), dict(n=3, k=2), dict(n=4, k=2)], limit=60)
def larger_quantifier(e, n, k):
    """eight examples, one label symbolic; two test sets"""
    solved(e, e.mod('multiclass.knn').PWKQuantifier(n_neighbors=k), YL[n], TL, k, (6,), '', True)


@harness('P35', [dict(quantify=False), dict(quantify=True)], limit=60)
def again(e, quantify):
    """one object fitted three times, with other labels, sizes and numbers of classes"""
    c = e.mod('multiclass.knn').PWKQuantifier(n_neighbors=2) if quantify else pwk(e, 2)
    for j, y in enumerate(((0, 1, 1, 0, 1), YL[4], YL[3][:7], YL[2])):
        solved(e, c, y, TL[:3 + j % 2], 2, (2,) if j == 2 else (), '%d_' % j, quantify)


# the order of the neighbours differs between the metrics
XM = [[1.2, 1.7], [4.2, 3.4], [1.4, 4.2], [4.2, 1.], [3.1, 2.6], [2.1, 2.], [3.9, 2.5], [3.9, 5.7]]
TM = [[5.2, .3], [2., 4.1], [.9, 3.5], [4.4, 4.6]]
METRICS = {'p 1': (dict(p=1), dict(p=1)), 'p 3': (dict(p=3), dict(p=3)), 'manhattan': (dict(metric='manhattan'), dict(p=1)), 'chebyshev': (dict(metric='chebyshev'), dict(p=0)),
           'weighted': (dict(metric_params=dict(w=[.04, 1.])), dict(w=(.04, 1)))}


@harness('P35', [dict(metric=m, quantify=q) for m in METRICS for q in (False, True)], limit=60)
def metrics(e, metric, quantify):
    """the neighbours are those of the configured metric"""
    args, ref = METRICS[metric]
    c = e.mod('multiclass.knn').PWKQuantifier(n_neighbors=2, **args) if quantify else pwk(e, 2, **args)
    solved(e, c, YL[2], TM, 2, (0, 3, 6), '', quantify, XM, **ref)
