"""One-vs-rest decomposition."""
from symq.harness import harness
from props.common import *
from sklearn.multiclass import OneVsRestClassifier

BOUNDS = '3-4 classes (5 thorough), every answer of the base quantifiers; prediction columns of 3-4 training and 1-3 test examples with PCC, CC and adjusted counts as base; models of one-vs-rest classifiers fitted before or by the quantifier; 7 training and 4-6 test rows, one symbolic, up to 5 classes, two test sets; objects fitted four times'
OUTSIDE = 'two classes (LabelBinarizer collapses two classes into one column, the quantifier fails); the training of scikit-learn OneVsRestClassifier (replaced by one that fits copies of the base model on the one-vs-rest labels)'


class OVR(OneVsRestClassifier):
    """one copy of the base model per class, trained on class versus rest"""

    def fit(self, X, y):
        cl = sorted(set(np.asarray(y).tolist()))
        self.estimators_ = []
        for c in cl:
            b = BinaryModels(self.estimator.tables, self.estimator.log)
            self.estimators_.append(b.fit(X, [int(v == c) for v in np.asarray(y).tolist()]))
        return self

    def predict(self, X):
        if 'estimators_' not in self.__dict__:
            raise NotFittedError('not fitted')
        return np.zeros(len(X))

    def predict_proba(self, X):
        if 'estimators_' not in self.__dict__:
            raise NotFittedError('not fitted')
        return np.array([b.predict_proba(X)[:, 1] for b in self.estimators_]).T


def keys_of(y):
    return [tuple((r, int(v == c)) for r, v in enumerate(y)) for c in sorted(set(y))]


def quantifier(e, base, **kw):
    return e.mod('decomposition.multiclass').OneVsRestQuantifier(base, **kw)


def normalised(e, label, r, v):
    """v divided by its sum; zeros if all are zero"""
    s = e.sum(v)
    r = e.flat(r)
    e.eq('%s: length' % label, len(r), len(v))
    for i, x in enumerate(v):
        e.eq('%s %d' % (label, i), r[i] * s, e.ite(s > 0, x, 0))
        e.true('%s %d in range' % (label, i), e.and_(r[i] >= 0, r[i] <= 1 + 1e-9))
    e.true('%s: sum' % label, e.or_(e.not_(s > 1e-6), e.abs(e.sum(list(r)) - 1) <= 1e-9))


Y = [(0, 1, 2), (5, -1, 2, 2), (4, 3, 2, 1)]


@harness('P27', [dict(y=y, using=u) for y in Y for u in (True, False)] + [dict(y=('no', 'yes', 'maybe', 'yes'), using=u) for u in (True, False)], more=[dict(y=(1, 2, 4, 3, 5), using=u) for u in (True, False)], limit=60)
def any_answer(e, y, using):
    n, m = len(set(y)), len(y)
    keys = keys_of(y)
    v = [e.real('v%d' % i, 0, 1) for i in range(n)]
    Stub, log = binary_quantifier(e, SharedDict(zip(keys, v)), using)
    q = quantifier(e, Stub(setting=3))
    P, T = e.probs('p', m, n), e.probs('t', 2, n)
    s = e.snap(P), e.snap(T)
    X, Xt = index_X(e, m), index_X(e, 2, first=m)
    if using:
        q.fit(X, e.data(y), predictions_train=P)
        r = q.predict(Xt, predictions_test=T)
    else:
        q.fit(X, e.data(y))
        r = q.predict(Xt)
    normalised(e, 'prevalence', r, v)
    e.eq('classes', e.flat(q.classes_), sorted(set(y)))
    e.true('every base quantifier has the settings', all(x[2] == 3 for x in log))
    if using:
        for i, k in enumerate(keys):
            for kind, M, rows in (('fit', P, m), ('predict', T, 2)):
                got = [x[3] for x in log if x[0] == kind and x[1] == k]
                e.true('base quantifier %d: %s' % (i, kind), len(got) == 1)
                for g in got:
                    e.eq('shape of the columns (%s)' % kind, e.shape(g), (rows, 2))
                    for j in range(rows):
                        e.eq('column %d, row %d (%s)' % (i, j, kind), g[j], [1 - e.at(M, j, i), e.at(M, j, i)])
        e.unchanged('training predictions unchanged', P, s[0])
        e.unchanged('test predictions unchanged', T, s[1])


@harness('P27', [dict(y=(0, 1, 2), t=2), dict(y=(5, -1, 2, 2), t=1), dict(y=(1, 4, 3, 2), t=2)], more=[dict(y=(1, 2, 3, 4, 5), t=2)], limit=60)
def pcc(e, y, t):
    n = len(set(y))
    T = e.mat('t', t, n)
    q = quantifier(e, e.mod('baselines.cc').PCC(), verbose=1)
    q.fit(index_X(e, len(y)), e.data(y))
    r = q.predict(index_X(e, t), predictions_test=T)
    normalised(e, 'prevalence', r, [e.mean([e.at(T, j, i) for j in range(t)]) for i in range(n)])


@harness('P27', [dict(y=(0, 1, 2), t=2), dict(y=(1, 4, 3, 2), t=1)], more=[dict(y=(3, 5, 7, 7), t=3)], limit=60)
def cc(e, y, t):
    n = len(set(y))
    T = e.mat('t', t, n)
    for v in e.flat(T):
        e.assume(e.abs(v - 0.5) >= 0.001)
    q = quantifier(e, e.mod('baselines.cc').CC())
    q.fit(index_X(e, len(y)), e.data(y))
    r = q.predict(index_X(e, t), predictions_test=T)
    normalised(e, 'prevalence', r, [e.mean([e.ind(e.at(T, j, i) > 0.5) for j in range(t)]) for i in range(n)])


@harness('P27', [dict(y=(0, 1, 2), t=1, repeats=1), dict(y=(1, 0, 2), t=2, repeats=1), dict(y=(0, 1, 2), t=1, repeats=2)], more=[dict(y=(0, 1, 2, 3), t=1, repeats=1)], limit=90)
def pac(e, y, t, repeats):
    n, m = len(set(y)), len(y)
    labels = sorted(set(y))
    P, T = e.mat('p', m * repeats, n), e.mat('t', t, n)
    v = []
    for i in range(n):
        tr = e.mean([e.at(P, j, i) for j in range(m * repeats) if y[j % m] == labels[i]])
        fa = e.mean([e.at(P, j, i) for j in range(m * repeats) if y[j % m] != labels[i]])
        e.assume(e.abs(tr - fa) >= 0.05)
        v.append(e.clip01((e.mean([e.at(T, j, i) for j in range(t)]) - fa) / (tr - fa)))
    q = quantifier(e, e.mod('baselines.ac').PAC())
    q.fit(index_X(e, m), e.data(y), predictions_train=P)
    r = q.predict(index_X(e, t), predictions_test=T)
    normalised(e, 'prevalence', r, v)


@harness('P27', [dict(y=(0, 1, 2), fitted=f) for f in (True, False)] + [dict(y=(4, 1, 3, 2), fitted=False)], limit=60)
def models(e, y, fitted):
    n, m, t = len(set(y)), len(y), 2
    tabs = [e.probs('m%d' % i, m + t, 2) for i in range(n)]
    clf = OVR(BinaryModels(SharedDict(zip(keys_of(y), tabs))))
    if fitted:
        clf.fit(index_X(e, m), e.data(y))
    q = quantifier(e, e.mod('baselines.cc').PCC(), estimator_test=clf)
    q.fit(index_X(e, m), e.data(y))
    for times in range(2):
        r = q.predict(index_X(e, t, first=m))
        normalised(e, 'prevalence', r, [e.mean([e.at(tab, m + j, 1) for j in range(t)]) for tab in tabs])


@harness('P27', [dict(y=(0, 1, 2), shared=s) for s in (True, False)] + [dict(y=(2, 6, 3, 9), shared=False)], limit=60)
def two_estimators(e, y, shared):
    n, m, t = len(set(y)), len(y), 1
    keys = keys_of(y)
    A = [e.probs('a%d' % i, m + t, 2) for i in range(n)]
    B = A if shared else [e.probs('b%d' % i, m + t, 2) for i in range(n)]
    tr = OVR(BinaryModels(SharedDict(zip(keys, A))))
    te = tr if shared else OVR(BinaryModels(SharedDict(zip(keys, B))))
    Stub, log = binary_quantifier(e, SharedDict(zip(keys, [e.real('v%d' % i, 0, 1) for i in range(n)])))
    q = quantifier(e, Stub(), estimator_train=tr, estimator_test=te)
    q.fit(index_X(e, m), e.data(y))
    q.predict(index_X(e, t, first=m))
    for i, k in enumerate(keys):
        for kind, M, rows, off in (('fit', A, m, 0), ('predict', B, t, m)):
            got = [x[3] for x in log if x[0] == kind and x[1] == k]
            e.true('base quantifier %d: %s' % (i, kind), len(got) == 1)
            for g in got:
                for j in range(rows):
                    e.eq('model %d, row %d (%s)' % (i, j, kind), g[j], [e.at(M[i], off + j, 0), e.at(M[i], off + j, 1)])


@harness('P27', [dict(using=u) for u in (True, False)])
def refit(e, using):
    y1, y2 = (0, 1, 2), (7, 3, 9, 5)
    keys = keys_of(y1) + keys_of(y2)
    v = [e.real('v%d' % i, 0, 1) for i in range(7)]
    Stub, log = binary_quantifier(e, SharedDict(zip(keys, v)), using)
    q = quantifier(e, Stub())
    for y, w in ((y1, v[:3]), (y2, v[3:])):
        kw = dict(predictions_train=e.arr([[0.5] * len(y)] * len(y))) if using else {}
        q.fit(index_X(e, len(y)), e.data(y), **kw)
        r = q.predict(index_X(e, 1), **(dict(predictions_test=e.arr([[0.5] * len(y)])) if using else {}))
        normalised(e, 'prevalence', r, w)
        e.eq('classes', e.flat(q.classes_), sorted(y))


@harness('P27', [dict()])
def misuse(e):
    Stub, log = binary_quantifier(e, {})
    X, y = index_X(e, 3), e.data((0, 1, 2))
    e.raises('not a quantifier', lambda: quantifier(e, object()).fit(X, y), ValueError)
    e.raises('training estimator of another kind', lambda: quantifier(e, Stub(), estimator_train=BinaryModels({})).fit(X, y), ValueError)
    e.raises('test estimator of another kind', lambda: quantifier(e, Stub(), estimator_test=BinaryModels({})).fit(X, y, predictions_train=e.arr([[.1, .2, .7]] * 3)), ValueError)
    e.raises('nothing for training', lambda: quantifier(e, Stub()).fit(X, y), ValueError)


YS = [(3, -1, 0, 2, 3, -1, 7), (9, 4, 6, 4, 5, 6, 9), (5, 1, 4, 2, 0, 3, 1, 5)]


def columns(e, tag, m, k, free):
    """m rows of k independent scores"""
    return e.arr([[e.real('%s%d_%d' % (tag, i, j), 0, 1) if i in free else row(2 * i + j, 3)[j % 3] for j in range(k)] for i in range(m)])


def separated(e, y, labels, k):
    """given training scores that tell the two groups of every column apart (the second column the wrong way round)"""
    return e.arr([[(0.625 if (v == labels[j]) == (j != 1) else 0.25) + row(2 * i + j, 3)[j % 3] / 4 for j in range(k)] for i, v in enumerate(y)])


def solved(e, q, base, y, t, tag, free=True):
    labels = sorted(set(y))
    m, n = len(y), len(labels)
    P = separated(e, y, labels, n)
    q.fit(index_X(e, m), e.data(y), **({} if base == 'PCC' else dict(predictions_train=P)))
    e.eq('classes', e.flat(q.classes_), labels)
    for k, tt in enumerate((t, 2)):
        T = columns(e, 't%s%d_' % (tag, k), tt, n, (0,) if free and k == 0 else ())
        r = q.predict(index_X(e, tt), predictions_test=T)
        v = []
        for i in range(n):
            x = e.mean([e.at(T, j, i) for j in range(tt)])
            if base != 'PCC':
                tr = e.mean([e.at(P, j, i) for j in range(m) if y[j] == labels[i]])
                fa = e.mean([e.at(P, j, i) for j in range(m) if y[j] != labels[i]])
                x = e.clip01((x - fa) / (tr - fa))
            v.append(x)
        normalised(e, 'prevalence', r, v)


def base_of(e, name):
    return e.mod('baselines.cc').PCC() if name == 'PCC' else e.mod('baselines.ac').PAC()


@harness('P27', [dict(base=b, y=y, t=t) for b, y, t in (('PCC', YS[0], 5), ('PCC', YS[1], 4), ('PAC', YS[1], 4), ('PAC', (1, -3, 1, 4, -3, 4, 1), 6))] + [dict(base='PCC', y=('d', 'a', 'c', 'b', 'd', 'b'), t=3)], more=[dict(base=b, y=YS[i], t=5) for b, i in (('PCC', 2), ('PAC', 0))], limit=60)
def larger(e, base, y, t):
    """given predictions but for one test row; two test sets"""
    solved(e, quantifier(e, base_of(e, base)), base, y, t, '')


@harness('P27', [dict(base=b, at=i) for b, i in (('PCC', 1), ('PAC', 2), ('PCC', 3), ('PAC', 3))], limit=60)
def again(e, base, at):
    """fitted four times with other labels, sizes and numbers of classes"""
    q = quantifier(e, base_of(e, base))
    for j, y in enumerate(((0, 2, 1), YS[0], YS[1], (8, -2, 8, 3))):
        solved(e, q, base, y, 3, '%d_' % j, j == at)
