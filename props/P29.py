"""Training of the members of an ensemble of quantifiers and of the ensemble of classifiers."""
from sklearn.base import BaseEstimator
from sklearn.exceptions import NotFittedError
from symq.harness import harness
from props.common import *

BOUNDS = '2-3 members (4 thorough), every matrix of bag indexes with bags of 2-3 examples over 3 training examples, concrete labels, every prediction of 1-3 repetitions (probability rows, crisp labels and per-model predictions), every output of 2-3 models on 2-3 test examples, generated and given bags; 5 members over 8 examples with 4 classes, one bag index symbolic; objects fitted three times with two test sets each'
OUTSIDE = 'base estimators that are not deterministic functions of their training data; a second fit on an already fitted EnsembleOfClassifiers, which is a no-op by design; parallel training of the models (n_jobs); larger bags'


def base_quantifier(e, using=True, crisp=False):
    """remembers what it is fitted on and what it predicts; answers `answer`, which the harness sets on each member"""
    base = e.mod('base')
    parent = base.UsingClassifiers if using else base.WithoutClassifiers

    class Member(parent):
        def __init__(self):
            if using:
                super().__init__(probabilistic_predictions=not crisp)
            else:
                super().__init__()
            self.fits, self.tests, self.answer = [], [], None

        def fit(self, X, y, predictions_train=None):
            self.fits.append((X, y, predictions_train))
            return self

        def predict(self, X, predictions_test=None):
            self.tests.append((X, predictions_test))
            return self.answer
    return Member()


class Models(BaseEstimator):
    """a base classifier: the k-th fitted copy outputs the k-th table (row number = first column of X)"""

    def __init__(self, tables, count, crisp=False):
        self.tables, self.count, self.crisp = tables, count, crisp

    def __deepcopy__(self, memo):
        m = Models(self.tables, self.count, self.crisp)
        if hasattr(self, 'number_'):
            m.number_, m.seen_ = self.number_, self.seen_
        return m

    def fit(self, X, y):
        self.number_ = len(self.count)
        self.count.append(1)
        self.seen_ = (X, y)
        return self

    def rows(self, X):
        if not hasattr(self, 'number_'):
            raise NotFittedError('not fitted')
        return np.array([int(v) for v in np.asarray(X[:, 0]).reshape(-1)])

    def predict_proba(self, X):
        assert not self.crisp, 'probabilities of a crisp model'
        return self.tables[self.number_][self.rows(X)]

    def predict(self, X):
        r = self.rows(X)
        return self.tables[self.number_][r] if self.crisp else np.zeros(len(r))


def index_matrix(e, size, k, m=3):
    return e.ints('b', size * k, tuple(range(m))).reshape(size, k)


def ensemble(e, k, base, **kw):
    return e.mod('ensembles.eoq').EoQ(**dict(dict(base_quantifier=base, n_quantifiers=k, combination_strategy='mean', n_bins=1), **kw))


def separate(e, q, base, k):
    members = [q.quantifiers_[i] for i in range(k)]
    e.true('one member per bag', len(q.quantifiers_) == k)
    e.true('separate copies', len(set(map(id, members)) | {id(base)}) == k + 1)
    e.true('each fitted once, the base never', all(len(m.fits) == 1 for m in members) and not base.fits)
    return members


def answers(e, members, n):
    M = [e.simplex('m%d_' % i, n) for i in range(len(members))]
    for m, a in zip(members, M):
        m.answer = a
    return M


def result(e, r, M, n):
    e.eq('combination of the members', r, [e.sum([e.at(m, c) for m in M]) / len(M) for c in range(n)])


Y = {2: (0, 1, 1), 3: (2, 0, 1)}
X3 = [[0., 3.], [1., 5.], [2., 4.]]


def table(e, name, rows, n):
    return e.probs(name, rows, n)


def seen_rows(e, label, got, table, idx, i, columns, first=0):
    """row j of `got` is row idx[j, i] of the table"""
    for j in range(idx.shape[0]):
        for c in range(columns):
            want = e.sum([e.ind(e.at(idx, j, i) == r) * (e.at(table, r, c) if columns > 1 else e.at(table, r)) for r in range(len(table))])
            e.eq('%s %d %d' % (label, j, c), e.at(got, first + j, c) if columns > 1 else e.at(got, first + j), want)


@harness('P29', [dict(k=2, size=2), dict(k=2, size=3, n=3), dict(k=3, size=2)], more=[dict(k=4, size=3), dict(k=3, size=3, n=3)])
def without_classifiers(e, k, size, n=2):
    base = base_quantifier(e, False)
    q = ensemble(e, k, base)
    X, y, idx = e.data(X3), e.data(Y[n]), index_matrix(e, size, k)
    q.fit(X, y, prevalences=e.arr([[1 / n] * k] * n), indexes=idx)
    members = separate(e, q, base, k)
    for i, m in enumerate(members):
        gx, gy, _ = m.fits[0]
        e.true('bag size', e.shape(gx) == (size, 2) and e.shape(gy) == (size,))
        seen_rows(e, 'example of bag %d' % i, gx, X, idx, i, 2)
        seen_rows(e, 'label of bag %d' % i, gy, y, idx, i, 1)
    M = answers(e, members, n)
    T = e.mat('t', 2, 2, lo=-2, hi=2)
    r = q.predict(T)
    result(e, r, M, n)
    for m in members:
        e.true('one prediction', len(m.tests) == 1)
        e.eq('the test set', m.tests[0][0], T)


@harness('P29', [dict(k=2, size=3, kind='proba'), dict(k=3, size=2, kind='proba', n=3), dict(k=2, size=2, kind='proba', reps=2), dict(k=2, size=3, kind='proba', reps=3), dict(k=2, size=2, kind='crisp'), dict(k=2, size=2, kind='crisp', reps=2, n=3),
                 dict(k=2, size=2, kind='model'), dict(k=3, size=2, kind='model', n=3), dict(k=2, size=2, kind='model', reps=2)],
         more=[dict(k=3, size=4, kind='proba', reps=2), dict(k=3, size=3, kind='model', reps=2, n=3), dict(k=4, size=2, kind='model')])
def given_predictions(e, k, size, kind, n=2, reps=1):
    """predictions are given; repetition r holds the predictions of all the training examples"""
    base = base_quantifier(e, True, kind == 'crisp')
    q = ensemble(e, k, base, n_bins=1)
    y, idx = e.data(Y[n]), index_matrix(e, size, k)
    rows = 3 * reps
    if kind == 'proba':
        P = table(e, 'p', rows, n)
        T = table(e, 't', 2, n)
    elif kind == 'crisp':
        P = e.ints('p', rows, tuple(range(n)))
        T = e.ints('t', 2, tuple(range(n)))
    else:
        P = table(e, 'p', rows * k, n).reshape(rows, k, n)
        T = table(e, 't', 2 * k, n).reshape(2, k, n)
    q.fit(e.data(X3), y, predictions_train=P, prevalences=e.arr([[1 / n] * k] * n), indexes=idx)
    members = separate(e, q, base, k)
    for i, m in enumerate(members):
        _, gy, gp = m.fits[0]
        e.true('every repetition of the bag', e.shape(gy) == (size * reps,) and e.shape(gp) == ((size * reps,) if kind == 'crisp' else (size * reps, n)))
        own = P if kind != 'model' else P[:, i, :]
        for r in range(reps):
            seen_rows(e, 'label of bag %d repetition %d' % (i, r), gy, y, idx, i, 1, r * size)
            seen_rows(e, 'prediction of bag %d repetition %d' % (i, r), gp, own[3 * r:3 * r + 3], idx, i, 1 if kind == 'crisp' else n, r * size)
    M = answers(e, members, n)
    r = q.predict(None, predictions_test=T)
    result(e, r, M, n)
    for i, m in enumerate(members):
        e.true('one prediction', len(m.tests) == 1)
        e.eq('own predictions', m.tests[0][1], T if kind != 'model' else T[:, i, :])


@harness('P29', [dict(k=2, size=2), dict(k=2, size=2, crisp=True), dict(k=3, size=2, n=3), dict(k=2, size=2, n=3, crisp=True), dict(k=2, size=2, before=True), dict(k=2, size=2, before=True, crisp=True), dict(k=2, size=2, separate_test=True)],
         more=[dict(k=3, size=3, n=3, crisp=True), dict(k=4, size=3)])
def classifier_ensemble(e, k, size, n=2, crisp=False, before=False, separate_test=False):
    """the predictions come from ensembles of classifiers"""
    base = base_quantifier(e, True, crisp)
    E = e.mod('estimators.ensembles').EnsembleOfClassifiers
    y, X, idx = e.data(Y[n]), e.data(X3), index_matrix(e, size, k)

    def classifiers(name):
        tabs = SharedList([e.ints('%s%d_' % (name, i), 5, tuple(range(n))) if crisp else table(e, '%s%d_' % (name, i), 5, n) for i in range(k)])
        return tabs, E(base_estimator=Models(tabs, SharedList(), crisp))
    tabs, ens = classifiers('a')
    tabs2, ens2 = classifiers('z') if separate_test else (tabs, ens)
    if before:
        ens.fit(X, y, idx)
        if separate_test:
            ens2.fit(X, y, idx)
    q = ensemble(e, k, base, ensemble_estimator_train=ens, ensemble_estimator_test=ens2)
    q.fit(X, y, prevalences=e.arr([[1 / n] * k] * n), indexes=idx)
    members = separate(e, q, base, k)
    for en in {id(ens): ens, id(ens2): ens2}.values():
        models = [en.estimators_[i] for i in range(k)]
        e.true('one separate model per bag', len(en.estimators_) == k and len(set(map(id, models)) | {id(en.base_estimator)}) == k + 1 and len(en.base_estimator.count) == k)
        for i, m in enumerate(models):
            e.true('model bag size', e.shape(m.seen_[0]) == (size, 2) and e.shape(m.seen_[1]) == (size,))
            seen_rows(e, 'example of model %d' % i, m.seen_[0], X, idx, i, 2)
            seen_rows(e, 'label of model %d' % i, m.seen_[1], y, idx, i, 1)
    for i, m in enumerate(members):
        _, gy, gp = m.fits[0]
        seen_rows(e, 'label of bag %d' % i, gy, y, idx, i, 1)
        seen_rows(e, 'prediction of bag %d' % i, gp, tabs[ens.estimators_[i].number_][:3], idx, i, 1 if crisp else n)
    M = answers(e, members, n)
    r = q.predict(e.data([[3., 0.], [4., 1.]]))
    result(e, r, M, n)
    for i, m in enumerate(members):
        e.eq('own model', m.tests[-1][1], tabs2[ens2.estimators_[i].number_][3:5])


@harness('P29', [dict(n=2), dict(n=3, crisp=True), dict(n=2, fitted=True)])
def single_estimator(e, n, crisp=False, fitted=False):
    """one classifier for all the members"""
    k, size = 2, 2
    base = base_quantifier(e, True, crisp)
    y, X, idx = e.data(Y[n]), e.data(X3), index_matrix(e, size, k)
    log = SharedList()
    tab = e.ints('a', 5, tuple(range(n))) if crisp else table(e, 'a', 5, n)
    est = TableEstimator(None if crisp else tab, tab if crisp else None, fitted=fitted, log=log)
    q = ensemble(e, k, base, ensemble_estimator_train=est, ensemble_estimator_test=est)
    q.fit(X, y, prevalences=e.arr([[1 / n] * k] * n), indexes=idx)
    e.true('fitted only when needed', len(log) == (0 if fitted else 1))
    if not fitted:
        e.eq('on all the examples', log[0][0], X)
        e.eq('and labels', log[0][1], y)
    members = separate(e, q, base, k)
    for i, m in enumerate(members):
        _, gy, gp = m.fits[0]
        seen_rows(e, 'label of bag %d' % i, gy, y, idx, i, 1)
        seen_rows(e, 'prediction of bag %d' % i, gp, tab[:3], idx, i, 1 if crisp else n)
    M = answers(e, members, n)
    result(e, q.predict(e.data([[3., 0.], [4., 1.]])), M, n)
    for m in members:
        e.eq('its predictions', m.tests[-1][1], tab[3:5])


@harness('P29', [dict(using=True), dict(using=False), dict(using=True, n=3)])
def generated_bags(e, using, n=2, k=2, size=2):
    """bags come from the generator, as many as members"""
    base = base_quantifier(e, using)
    idx = index_matrix(e, size, k)
    prev = e.arr([[1 / n] * k] * n)
    calls = []
    B = e.mod('bag_generator').BagGenerator

    class Given(B):
        def __init__(self):
            self.n_bags = 77

        def generate_bags(self, X, y):
            calls.append((X, y, self.n_bags))
            return prev, idx
    q = ensemble(e, k, base, bag_generator=Given())
    X, y = e.data(X3), e.data(Y[n])
    P = table(e, 'p', 3, n)
    q.fit(X, y, **(dict(predictions_train=P) if using else {}))
    e.true('as many bags as members', len(calls) == 1 and calls[0][2] == k)
    e.eq('bags of the examples', calls[0][0], X)
    e.eq('bags of the labels', calls[0][1], y)
    e.eq('the indexes', q.indexes_, idx)
    e.eq('the prevalences', q.prevalences_, prev)
    members = separate(e, q, base, k)
    for i, m in enumerate(members):
        gx, gy, gp = m.fits[0]
        seen_rows(e, 'label of bag %d' % i, gy, y, idx, i, 1)
        if using:
            seen_rows(e, 'prediction of bag %d' % i, gp, P, idx, i, n)
        else:
            seen_rows(e, 'example of bag %d' % i, gx, X, idx, i, 2)


@harness('P29', [dict(k=2), dict(k=3, n=3), dict(k=2, crisp=True), dict(k=3, n=3, crisp=True)])
def ensemble_outputs(e, k, n=2, crisp=False):
    """the ensemble of classifiers alone"""
    E = e.mod('estimators.ensembles').EnsembleOfClassifiers
    X, y, idx = e.data(X3), e.data([5, 9, 5] if n == 2 else [9, 2, 5]), index_matrix(e, 2, k)
    lab = (5, 9) if n == 2 else (2, 5, 9)
    tabs = SharedList([e.ints('a%d_' % i, 5, lab) if crisp else table(e, 'a%d_' % i, 5, n) for i in range(k)])
    ens = E(base_estimator=Models(tabs, SharedList(), crisp))
    T = e.data([[3., 0.], [1., 1.]])
    e.raises('predict before fit', lambda: ens.predict(T), NotFittedError)
    e.raises('probabilities before fit', lambda: ens.predict_proba(T), NotFittedError)
    e.raises('no estimator', lambda: E().fit(X, y, idx), ValueError)
    e.true('fit returns the ensemble', ens.fit(X, y, idx) is ens)
    e.eq('classes', ens.classes_, e.data(list(lab)))
    out = ens.predict(T) if crisp else ens.predict_proba(T)
    e.true('shape', e.shape(out) == ((2, k) if crisp else (2, k, n)))
    for i in range(k):
        own = tabs[ens.estimators_[i].number_]
        for j, row in enumerate((3, 1)):
            e.eq('model %d example %d' % (i, j), out[j, i] if crisp else out[j, i, :], own[row])


YL = ((0, 1, 1, 0), (5, 0, -3, 9, 0, 5, 9, -3), (7, -2, 3, 3, -2, 7, -2))


def solved(e, q, base, k, y, size, reps, kind, tag, free):
    """fit on bags of given indexes but for one; members, their data and the combination"""
    labels = sorted(set(y))
    m, n = len(y), len(labels)
    del base.fits[:]
    rows = [[(3 * i + j * (i + 1) + j) % m for i in range(k)] for j in range(size)]
    if free:
        rows[size - 1][k - 1] = e.int('b' + tag, tuple(range(m)))
    idx = e.arr(rows, 'i')
    X = [[float(i), float((3 * i) % 5)] for i in range(m)]
    kw = dict(prevalences=e.arr([[1 / n] * k] * n), indexes=idx)
    T = e.data([[1., 2.], [0., 7.], [3., 3.]])
    if kind != 'features':
        if kind == 'proba':
            P, T = [row(i, n) for i in range(m * reps)], [row(2 * i + 1, n) for i in range(3)]
        elif kind == 'crisp':
            P, T = [labels[(2 * i + i // 3) % n] for i in range(m * reps)], [labels[(i + 1) % n] for i in range(3)]
        else:
            P, T = [[row(k * i + c, n) for c in range(k)] for i in range(m * reps)], [[row(k * i + c + 1, n) for c in range(k)] for i in range(3)]
        P, T = e.data(P), e.data(T)
        kw['predictions_train'] = P
    q.fit(e.data(X), e.data(y), **kw)
    members = separate(e, q, base, k)
    e.eq('classes', e.flat(q.classes_), labels)
    for i, mem in enumerate(members):
        gx, gy, gp = mem.fits[0]
        for r in range(reps):
            seen_rows(e, 'label of bag %d repetition %d' % (i, r), gy, e.data(y), idx, i, 1, r * size)
            if kind == 'features':
                seen_rows(e, 'example of bag %d' % i, gx, e.data(X), idx, i, 2)
            else:
                own = P if kind != 'model' else P[:, i, :]
                seen_rows(e, 'prediction of bag %d repetition %d' % (i, r), gp, own[m * r:m * r + m], idx, i, 1 if kind == 'crisp' else n, r * size)
        e.true('size of bag %d' % i, e.shape(gy) == (size * reps,) and e.shape(gx if kind == 'features' else gp)[0] == size * reps)
    M = answers(e, members, n)
    for step in (1, 2):
        t = T[step - 1:]
        r = q.predict(t if kind == 'features' else None, **({} if kind == 'features' else dict(predictions_test=t)))
        result(e, r, M, n)
        for i, mem in enumerate(members):
            e.true('one prediction per test set', len(mem.tests) == step)
            e.eq('what the member sees', mem.tests[-1][0 if kind == 'features' else 1], t if kind != 'model' else t[:, i, :])


@harness('P29', [dict(kind=k, y=YL[1], size=6, reps=r, members=c) for k, r, c in (('features', 1, 5), ('proba', 1, 5), ('proba', 2, 4), ('crisp', 3, 4), ('model', 1, 5), ('model', 2, 3))], limit=60)
def larger(e, kind, y, size, reps, members):
    """4 classes, 8 examples, up to 5 members; two test sets"""
    base = base_quantifier(e, kind != 'features', kind == 'crisp')
    solved(e, ensemble(e, members, base, n_bins=2), base, members, y, size, reps, kind, '', True)


@harness('P29', [dict(kind=k) for k in ('features', 'proba', 'crisp', 'model')], limit=60)
def again(e, kind):
    """one object fitted three times, with other labels, sizes, repetitions and numbers of classes"""
    base = base_quantifier(e, kind != 'features', kind == 'crisp')
    q = ensemble(e, 3, base, n_bins=2)
    for j, y in enumerate(YL):
        solved(e, q, base, 3, y, 2 + j, 2 if j == 1 and kind != 'features' else 1, kind, '%d' % j, j == 2)
