"""Estimator formed by the models of a cross-validation."""
import itertools
from sklearn.base import BaseEstimator, ClassifierMixin
from sklearn.exceptions import NotFittedError
from sklearn.model_selection import KFold, StratifiedKFold, GroupKFold, LeaveOneOut, RepeatedKFold
from symq.harness import harness
from props.common import *

BOUNDS = '3-6 training examples, 2-3 classes (labels other than 0,1,..), 2-4 folds, 1-2 repetitions; integer, default, k-fold (shuffled, unseeded), stratified, grouped, leave-one-out and listed folds; every output of every model; 1-2 test examples, or sets that share rows with the training set; 6-9 training examples, 2-4 classes, 2-4 folds, up to 3 repetitions with one symbolic output row; objects fitted four times, and twice on as many examples of the same classes'
OUTSIDE = 'folds that do not cover the training set; models that do not know every class because their fold lacks it; ties between the mean probabilities or votes of the classes in predict (excluded or answered by either class); the splitting itself and the fitting of each model, which are scikit-learn'


class Tables(Shared):
    """one table of probabilities per set of training rows"""

    def __init__(self, e, rows, n):
        self.e, self.rows, self.n, self.of = e, rows, n, {}

    def get(self, key):
        if key not in self.of:
            self.of[key] = self.e.probs('m%s_' % '.'.join(map(str, key)), self.rows, self.n)
        return self.of[key]


class Model(BaseEstimator, ClassifierMixin):
    """outputs the table of the rows it was trained on"""

    def __init__(self, tables=None, log=None, classes=None):
        self.tables, self.log, self.classes = tables, log, classes

    def fit(self, X, y, **kw):
        rows = [int(v) for v in np.asarray(X[:, 0]).reshape(-1)]
        self.key_ = tuple(sorted(rows))
        self.classes_ = self.classes
        self.log.append((rows, [int(v) for v in np.asarray(y).reshape(-1)], kw))
        return self

    def predict_proba(self, X):
        rows = [int(v) for v in np.asarray(X[:, 0]).reshape(-1)]
        return self.tables.get(self.key_)[np.array(rows)]

    def predict(self, X):
        return np.zeros(len(X))

    def score(self, X, y):
        return 0.0


def rows_X(e, first, n):
    return np.array([[float(first + i), 1.] for i in range(n)])


SPLITS = {
    'int': lambda m, k, r: k,
    'none': lambda m, k, r: None,
    'kfold': lambda m, k, r: KFold(k),
    'shuffled': lambda m, k, r: KFold(k, shuffle=True),
    'stratified': lambda m, k, r: StratifiedKFold(k, shuffle=True, random_state=3),
    'repeated': lambda m, k, r: RepeatedKFold(n_splits=k, n_repeats=r, random_state=1),
    'loo': lambda m, k, r: LeaveOneOut(),
    'groups': lambda m, k, r: GroupKFold(k),
    'listed': lambda m, k, r: [(np.array([i for i in range(m) if i % k != f]), np.array([i for i in range(m) if i % k == f])) for f in range(k)],
}


def fitted(e, cv, m, n, k, r, labels, given=True, **kw):
    y = np.array([labels[i % n] for i in range(m)])
    log = SharedList()
    tabs = Tables(e, 2 * m + 2, n)
    if cv == 'groups':
        kw['groups'] = [i * k // m for i in range(m)]
    if given:
        kw['cv'] = SPLITS[cv](m, k, r)
    c = e.mod('estimators.cross_validation').CV_estimator(estimator=Model(tabs, log, np.array(labels)), **kw)
    X = rows_X(e, 0, m)
    e.true('fit returns the estimator', c.fit(X, y) is c)
    return c, X, tabs, log


def models(e, log, m, k, r, labels, n):
    """training rows of each model, in order; every model is trained on the examples out of its fold, with their labels"""
    keys = [tuple(sorted(rows)) for rows, _, _ in log]
    e.true('one model per fold and repetition', len(keys) == k * r)
    e.true('labels go with their examples', all(l == labels[i % n] for rows, ys, _ in log for i, l in zip(rows, ys)))
    for rep in range(r):
        out = [i for key in keys[rep * k:rep * k + k] for i in range(m) if i not in key]
        e.true('each example is held out once', sorted(out) == list(range(m)))
    return keys


def held_out(keys, k, rep, i):
    return [key for key in keys[rep * k:rep * k + k] if i not in key][0]


def rows_of(e, tabs, keys, m, k, r, where, t):
    """outputs[repetition or model][example]"""
    if where == 'train':
        return [[[e.at(tabs.get(held_out(keys, k, rep, i)), i, c) for c in range(tabs.n)] for i in range(m)] for rep in range(r)]
    return [[[e.at(tabs.get(key), m + j, c) for c in range(tabs.n)] for j in range(t)] for key in keys]


CFG = [dict(cv='int', m=4, k=2), dict(cv='kfold', m=3, k=3, n=3), dict(cv='shuffled', m=6, k=3), dict(cv='repeated', m=4, k=2, r=2), dict(cv='loo', m=3, k=3), dict(cv='groups', m=4, k=2), dict(cv='listed', m=4, k=2, n=3), dict(cv='stratified', m=6, k=3), dict(cv='none', m=10, k=5)]
LAB = {2: (3, 7), 3: (-1, 4, 6)}


def data(e, X, m, where, t):
    return X.copy() if where == 'train' else rows_X(e, m, t)


@harness('P36', [dict(c, where=w) for c in CFG for w in ('train', 'test')] + [dict(cv='int', m=4, k=2, where='train', copied=False), dict(cv='int', m=4, k=2, where='test', t=4)], more=[dict(cv='repeated', m=5, k=3, r=2, where=w) for w in ('train', 'test')])
def probabilities(e, cv, m, k, where, n=2, r=1, t=2, copied=True):
    c, X, tabs, log = fitted(e, cv, m, n, k, r, LAB[n])
    keys = models(e, log, m, k, r, LAB[n], n)
    want = rows_of(e, tabs, keys, m, k, r, where, t)
    T = data(e, X, m, where, t) if copied else X
    N = len(T)
    P = c.predict_proba(T)
    e.true('one row per example', e.shape(P) == (N, n))
    for i in range(N):
        for j in range(n):
            e.eq('mean %d %d' % (i, j), e.at(P, i, j), e.mean([w[i][j] for w in want]))
    c.averaged_predictions = False
    P = c.predict_proba(T)
    e.true('one row per output', e.shape(P) == (N * len(want), n))
    for b, w in enumerate(want):
        for i in range(N):
            e.eq('block %d row %d' % (b, i), P[b * N + i, :], w[i])


ALIKE = {'reversed': lambda X: X[::-1].copy(), 'last row other': lambda X: np.vstack([X[:-1], [[float(len(X)), 1.]]]), 'first row other': lambda X: np.vstack([[[float(len(X)), 1.]], X[1:]]),
         'inner row other': lambda X: np.vstack([X[:2], [[float(len(X)), 1.]], X[3:]]), 'slightly other': lambda X: X + np.array([[0., 5e-6]]), 'without the last': lambda X: X[:-1], 'twice': lambda X: np.vstack([X, X]), 'one row often': lambda X: np.vstack([X[:1]] * len(X))}


@harness('P36', [dict(alike=a) for a in ALIKE])
def resembling(e, alike, m=4, k=2, n=2):
    """data that shares rows with the training set but is not the training set is predicted by all the models"""
    c, X, tabs, log = fitted(e, 'int', m, n, k, 1, LAB[n])
    keys = models(e, log, m, k, 1, LAB[n], n)
    T = ALIKE[alike](X)
    P = c.predict_proba(T)
    e.true('one row per example', e.shape(P) == (len(T), n))
    for i, x in enumerate(T):
        for j in range(n):
            e.eq('mean %d %d' % (i, j), e.at(P, i, j), e.mean([e.at(tabs.get(key), int(x[0]), j) for key in keys]))


def clear(e, row, gap=0.001):
    for a in range(len(row)):
        for b in range(a):
            e.assume(e.abs(row[a] - row[b]) >= gap)


@harness('P36', [dict(cv='int', m=4, k=2, where='train'), dict(cv='kfold', m=3, k=3, where='test', t=1), dict(cv='repeated', m=4, k=2, r=2, where='train'), dict(cv='listed', m=3, k=3, n=3, where='test', t=1), dict(cv='shuffled', m=3, k=3, n=3, where='train')],
         more=[dict(cv='repeated', m=4, k=2, r=2, where='test', t=1)], limit=60)
def soft(e, cv, m, k, where, n=2, r=1, t=2):
    """the class with the largest mean"""
    c, X, tabs, log = fitted(e, cv, m, n, k, r, LAB[n], voting='soft')
    keys = models(e, log, m, k, r, LAB[n], n)
    want = rows_of(e, tabs, keys, m, k, r, where, t)
    T = data(e, X, m, where, t)
    means = [[e.mean([w[i][j] for w in want]) for j in range(n)] for i in range(len(T))]
    for row in means:
        clear(e, row)
    L = c.predict(T)
    e.true('one label per example', e.shape(L) == (len(T),))
    for i, row in enumerate(means):
        e.eq('label %d' % i, e.at(L, i), e.sum([e.ind(argmax_is(e, row, j)) * LAB[n][j] for j in range(n)]))


@harness('P36', [dict(cv='int', m=4, k=2, where='train'), dict(cv='kfold', m=3, k=3, where='test', t=1), dict(cv='repeated', m=3, k=3, r=2, where='train', n=2), dict(cv='listed', m=3, k=3, n=3, where='test', t=1), dict(cv='shuffled', m=4, k=4, where='test', t=1)],
         more=[dict(cv='repeated', m=4, k=2, r=2, where='test', t=1)], limit=60)
def hard(e, cv, m, k, where, n=2, r=1, t=2):
    """the class with most votes, one vote per model (or repetition)"""
    c, X, tabs, log = fitted(e, cv, m, n, k, r, LAB[n])
    keys = models(e, log, m, k, r, LAB[n], n)
    want = rows_of(e, tabs, keys, m, k, r, where, t)
    T = data(e, X, m, where, t)
    for w in want:
        for row in w:
            clear(e, row)
    votes = [[e.sum([e.ind(argmax_is(e, w[i], j)) for w in want]) for j in range(n)] for i in range(len(T))]
    L = c.predict(T)
    e.true('one label per example', e.shape(L) == (len(T),))
    for i, v in enumerate(votes):
        for j in range(n):
            e.true('most voted %d' % i, e.or_(e.not_(e.at(L, i) == LAB[n][j]), *[e.and_(*[v[j] >= x for x in v])]))
        e.true('a class', e.or_(*[e.at(L, i) == l for l in LAB[n]]))


@harness('P36', [dict(cv='int', m=4, k=2, where='train'), dict(cv='kfold', m=3, k=3, where='test', t=1), dict(cv='repeated', m=4, k=2, r=2, where='train'), dict(cv='listed', m=3, k=3, n=3, where='test', t=1)], limit=60)
def stacked_labels(e, cv, m, k, where, n=2, r=1, t=2):
    """predictions that are not averaged"""
    c, X, tabs, log = fitted(e, cv, m, n, k, r, LAB[n], averaged_predictions=False)
    keys = models(e, log, m, k, r, LAB[n], n)
    want = rows_of(e, tabs, keys, m, k, r, where, t)
    T = data(e, X, m, where, t)
    for w in want:
        for row in w:
            clear(e, row)
    L = c.predict(T)
    e.true('one label per output', e.shape(L) == (len(T) * len(want),))
    for b, w in enumerate(want):
        for i in range(len(T)):
            e.eq('block %d label %d' % (b, i), e.at(L, b * len(T) + i), e.sum([e.ind(argmax_is(e, w[i], j)) * LAB[n][j] for j in range(n)]))


@harness('P36', [dict(avg=True), dict(avg=False)])
def with_a_quantifier(e, avg):
    """a quantifier gets the held-out predictions, repeated when they are not averaged"""
    m, k, r, n = 4, 2, 2, 2
    tabs, log = Tables(e, m + 2, n), SharedList()
    c = e.mod('estimators.cross_validation').CV_estimator(estimator=Model(tabs, log, np.array(LAB[2])), cv=SPLITS['repeated'](m, k, r), averaged_predictions=avg)
    q = e.mod('baselines.ac').PAC(estimator_train=c, estimator_test=c)
    y = np.array([LAB[2][i % n] for i in range(m)])
    X = rows_X(e, 0, m)
    q.fit(X, y)
    keys = models(e, log, m, k, r, LAB[2], n)
    want = rows_of(e, tabs, keys, m, k, r, 'train', 0)
    rows = [row for w in want for row in w] if not avg else [[e.mean([w[i][j] for w in want]) for j in range(n)] for i in range(m)]
    e.true('number of predictions', e.shape(q.predictions_train_) == (len(rows), n))
    for i, row in enumerate(rows):
        e.eq('prediction %d' % i, q.predictions_train_[i, :], row)


@harness('P36', [dict()])
def defaults(e):
    C = e.mod('estimators.cross_validation').CV_estimator
    tabs, log = Tables(e, 12, 2), SharedList()
    c = C(estimator=Model(tabs, log, np.array((3, 7))))
    X = rows_X(e, 0, 10)
    e.raises('predict before fit', lambda: c.predict(X), NotFittedError)
    e.raises('probabilities before fit', lambda: c.predict_proba(X), NotFittedError)
    y = np.array([3, 7] * 5)
    c.fit(X, y)
    e.eq('classes', c.classes_, [3, 7])
    e.true('no example is predicted by a model trained with it', len(log) >= 2 and all(any(i not in rows for rows, _, _ in log) for i in range(10)))
    c2 = C(estimator=Model(tabs, SharedList(), np.array((3, 7))), fit_params={'sample_weight': np.arange(10.)}, cv=2)
    c2.fit(X, y)
    e.true('fit parameters reach the models', all('sample_weight' in kw and [int(v) for v in kw['sample_weight']] == rows for rows, _, kw in c2.estimator.log))


class GivenTables(Tables):
    """given tables with one symbolic row"""

    def __init__(self, e, rows, n, tag, free):
        super().__init__(e, rows, n)
        self.tag, self.free = tag, free

    def get(self, key):
        if key not in self.of:
            w = {2: (.7, .3), 3: (.5, .3, .2), 4: (.1, .4, .3, .2)}[self.n]
            rot = [(sum(key) + i * (i + len(self.of))) % self.n for i in range(self.rows)]
            rows = [[w[(c + r) % self.n] for c in range(self.n)] for r in rot]
            if self.free is not None and len(self.of) == 0:
                rows[self.free] = list(self.e.flat(self.e.simplex(self.tag, self.n)))
            self.of[key] = self.e.arr(rows)
        return self.of[key]


def solved(e, c, tables_of, cv, labels_of, k, r, t, tag, free, second=1.):
    """fit on the labels; probabilities and labels of the training set and of two test sets"""
    y = np.array(labels_of)
    lab = sorted(set(labels_of))
    m, n = len(y), len(lab)
    tabs, log = GivenTables(e, 2 * m + 2, n, tag, m if free else None), SharedList()
    c.set_params(estimator=Model(tabs, log, np.array(lab)), cv=SPLITS[cv](m, k, r), groups=[i * k // m for i in range(m)] if cv == 'groups' else None)
    X = rows_X(e, 0, m)
    X[:, 1] = second
    e.true('fit returns the estimator', c.fit(X, y) is c)
    e.eq('classes', c.classes_, lab)
    keys = [tuple(sorted(rows)) for rows, _, _ in log]
    e.true('one model per fold and repetition', len(keys) == k * r)
    e.true('labels go with their examples', all(l == labels_of[i] for rows, ys, _ in log for i, l in zip(rows, ys)))
    for rep in range(r):
        out = [i for key in keys[rep * k:rep * k + k] for i in range(m) if i not in key]
        e.true('each example is held out once', sorted(out) == list(range(m)))
    for T, where, first in ((rows_X(e, m, t), 'test', 0), (X.copy(), 'train', 0), (rows_X(e, m + 1, t - 1), 'test', 1)):
        want = rows_of(e, tabs, keys, m, k, r, where, t)
        want = [w[first:] for w in want]
        N = len(T)
        T[:, 1] = second
        c.set_params(averaged_predictions=True, voting='soft')
        P = c.predict_proba(T)
        e.true('one row per example', e.shape(P) == (N, n))
        means = [[e.mean([w[i][j] for w in want]) for j in range(n)] for i in range(N)]
        for i in range(N):
            e.eq('mean %d' % i, P[i, :], means[i])
        if free and where == 'test' and not first:
            clear(e, means[0])
            for w in want:
                clear(e, w[0])
        L = c.predict(T)
        e.true('one label per example', e.shape(L) == (N,))
        votes = [[e.sum([e.ind(argmax_is(e, w[i], j)) for w in want]) for j in range(n)] for i in range(N)]
        for name, score in (('largest mean', means), ('most voted', votes)):
            if name == 'most voted':
                c.set_params(voting='hard')
                L = c.predict(T)
            for i, v in enumerate(score):
                for j in range(n):
                    e.true('%s %d' % (name, i), e.or_(e.not_(e.at(L, i) == lab[j]), *[e.and_(*[v[j] >= x - 1e-9 for x in v])]))
                e.true('a class', e.or_(*[e.at(L, i) == l for l in lab]))
        c.set_params(averaged_predictions=False)
        P, L = c.predict_proba(T), c.predict(T)
        e.true('one row and label per output', e.shape(P) == (N * len(want), n) and e.shape(L) == (N * len(want),))
        for b, w in enumerate(want):
            for i in range(N):
                e.eq('block %d row %d' % (b, i), P[b * N + i, :], w[i])
                e.eq('block %d label %d' % (b, i), e.at(L, b * N + i), e.sum([e.ind(argmax_is(e, w[i], j)) * lab[j] for j in range(n)]))


YL = ((0, 1, 1, 0), (5, 0, -3, 9, 0, 5, 9, -3), (7, -2, 3, 3, -2, 7, -2, 3, 7), (4, -1, 4, -1, -1, 4))


@harness('P36', [dict(cv=v, y=y, k=k, r=r) for v, y, k, r in (('kfold', YL[1], 4, 1), ('repeated', YL[2], 3, 2), ('stratified', YL[2], 3, 1), ('groups', YL[2], 3, 1), ('listed', YL[1], 2, 1), ('repeated', YL[3], 2, 3), ('shuffled', YL[2], 4, 1), ('int', YL[2], 3, 1))], limit=60)
def larger(e, cv, y, k, r):
    """more classes, folds and repetitions; one output row symbolic"""
    c = e.mod('estimators.cross_validation').CV_estimator(estimator=None)
    solved(e, c, None, cv, y, k, r, 4, 'm', True)


@harness('P36', [dict(cvs=('kfold', 'repeated', 'int', 'listed'), at=i) for i in (1, 2)] + [dict(cvs=('repeated', 'int', 'repeated', 'loo'), at=3)], limit=60)
def again(e, cvs, at):
    """one object fitted four times with other labels, sizes, folds and numbers of classes"""
    c = e.mod('estimators.cross_validation').CV_estimator(estimator=None)
    for j, (cv, y) in enumerate(zip(cvs, YL)):
        solved(e, c, None, cv, y, len(y) if cv == 'loo' else (2, 2, 3, 3)[j], 2 if cv == 'repeated' else 1, 3, 'm%d' % j, j == at)


@harness('P36', [dict(cv=v, other=o, r=r) for v, o, r in (('kfold', 'models', 1), ('repeated', 'models', 2), ('stratified', 'labels', 1), ('listed', 'rows', 1))], limit=60)
def again_same_shape(e, cv, other, r):
    """fitted twice on as many examples of the same classes: with other models, with labels in another order, on other rows"""
    c = e.mod('estimators.cross_validation').CV_estimator(estimator=None)
    y = YL[3]
    solved(e, c, None, cv, y, 2, r, 3, 'm0', False)
    solved(e, c, None, cv, y[1:] + y[:1] if other == 'labels' else y, 2, r, 3, 'm1', True, 20. if other == 'rows' else 1.)
