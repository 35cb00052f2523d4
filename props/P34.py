"""Quantifiers that learn a regression from bag histograms to prevalences."""
from sklearn.base import BaseEstimator
from symq.harness import harness
from props.common import *

BOUNDS = '2-3 bags of 1-3 examples (every matrix of bag indexes), 3-5 training examples, 2-4 classes, 2-3 bins, 1-2 features, every training prediction (equal width cut points) or concrete training data (other cut points), every test set of 1-3 examples, every output of the regressor; 3-5 bags over 7-10 examples with 2-4 classes, 2-4 bins, given but for one index, one test value and one output; objects fitted three times with two test sets each'
OUTSIDE = 'the default regressor (statsmodels GLM), which the engine cannot encode; 1-D feature arrays, which the code rejects; larger bags and data sets'

PREV = {2: [[.25, .5, .75], [.75, .5, .25]], 3: [[.25, .5, .125], [.5, .375, .0625], [.25, .125, .8125]], 4: [[.25, .5, .125], [.25, .375, .0625], [.125, .125, .5], [.375, 0., .3125]]}


class Regressor(BaseEstimator):
    """a regressor that knows by its targets for which class it was fitted, and answers what it is told for that class"""

    def __init__(self, answers=None, log=None, targets=None):
        self.answers, self.log, self.targets = answers, log, targets

    def __deepcopy__(self, memo):
        return Regressor(self.answers, self.log, self.targets)

    def fit(self, X, y):
        y = [float(v) for v in np.asarray(y).reshape(-1)]
        self.class_ = [i for i, t in enumerate(self.targets) if all(abs(a - b) < 1e-9 for a, b in zip(t, y)) and len(t) == len(y)]
        assert len(self.class_) == 1, 'a regressor was fitted on targets that are no prevalences of a class: %r' % (y,)
        self.class_ = self.class_[0]
        self.log.append(('fit', self.class_, X, self))
        return self

    def predict(self, X):
        self.log.append(('predict', self.class_, X, self))
        return self.answers[self.class_].reshape(-1)


def bags(e, prev, idx):
    B = e.mod('bag_generator').BagGenerator

    class Given(B):
        def __init__(self):
            self.n_bags = idx.shape[1]
            self.calls = []

        def generate_bags(self, X, y):
            self.calls.append((X, y))
            return prev, idx
    return Given()


def setting(e, n, k, size, m):
    prev = e.arr([r[:k] for r in PREV[n]])
    idx = e.ints('b', size * k, tuple(range(m))).reshape(size, k)
    answers = [e.vec('r%d_' % c, 1, lo=-1, hi=2) for c in range(n)]
    log = SharedList()
    reg = Regressor(answers, log, [list(r[:k]) for r in PREV[n]])
    return prev, idx, answers, log, reg


def hist(e, v, cuts):
    v, out = list(v), []
    for b in range(len(cuts) - 1):
        cs = []
        for x in v:
            c = [x >= cuts[b]] if np.isfinite(float(cuts[b])) else []
            if np.isfinite(float(cuts[b + 1])):
                c.append((x <= cuts[b + 1]) if b == len(cuts) - 2 else (x < cuts[b + 1]))
            cs.append(e.ind(e.and_(*c)) if c else 1)
        out.append(e.sum(cs) / len(v))
    return out


def chosen(e, col, idx, i):
    """values of the column for the examples of bag i"""
    return [e.sum([e.ind(e.at(idx, j, i) == r) * v for r, v in enumerate(col)]) for j in range(idx.shape[0])]


def training(e, log, reg, cols, cuts, idx, n):
    """one separate regressor per class, fitted on the histograms of the bags"""
    fits = [l for l in log if l[0] == 'fit']
    e.true('one regressor per class (the positive one if binary)', sorted(l[1] for l in fits) == ([1] if n == 2 else list(range(n))))
    e.true('separate regressors', len({id(l[3]) for l in fits} | {id(reg)}) == len(fits) + 1)
    k = idx.shape[1]
    want = [[h for col, c in zip(cols, cuts) for h in hist(e, chosen(e, col, idx, i), c)] for i in range(k)]
    for l in fits:
        e.true('one row per bag', e.shape(l[2]) == (k, len(want[0])))
        for i in range(k):
            e.eq('histograms of bag %d' % i, l[2][i, :], want[i])


def testing(e, log, q_predict, cols, cuts, answers, n, before):
    a = [e.at(v, 0) for v in answers]
    clip = [e.clip01(v) for v in a] if n > 2 else [e.clip01(1 - a[1]), e.clip01(a[1])]
    s = e.sum(clip)
    if n > 2:
        e.assume(s >= 0.01)
    r = q_predict()
    want = [h for col, c in zip(cols, cuts) for h in hist(e, col, c)]
    asked = [l for l in log if l[0] == 'predict'][before:]
    e.true('each regressor is asked once', sorted(l[1] for l in asked) == ([1] if n == 2 else list(range(n))))
    for l in asked:
        e.true('one row', len(e.flat(l[2])) == len(want))
        e.eq('histograms of the test set', l[2].reshape(-1), want)
    e.true('one value per class', e.shape(r) == (n,))
    for c in range(n):
        e.eq('prevalence %d' % c, e.at(r, c) * s, clip[c])
    e.distribution('prevalences', r, n)


Y = {2: (0, 1, 1), 3: (0, 2, 1), 4: (4, 2, 8, 1)}


@harness('P34', [dict(n=2, k=2, size=2), dict(n=2, k=3, size=1, bins=3), dict(n=3, k=2, size=1), dict(n=2, k=2, size=3, y=(7, 3, 3)), dict(n=3, k=3, size=2, t=1), dict(n=2, k=2, size=2, reps=2), dict(n=4, k=2, size=1, t=1)], more=[dict(n=3, k=2, size=2, bins=3, t=2), dict(n=2, k=3, size=3, t=3)], limit=90)
def predictions(e, n, k, size, bins=2, t=2, y=None, reps=1):
    """REGy: equal width cut points on [0,1], any predictions"""
    y = y or Y[n]
    m = len(y) * reps
    prev, idx, answers, log, reg = setting(e, n, k, size, m)
    P = e.probs('p', m, n)
    g = bags(e, prev, idx)
    q = e.mod('multiclass.regression').REGy(bag_generator=g, n_bins=bins, regression_estimator=reg)
    q.fit(index_X(e, len(y)), e.data(y), predictions_train=P)
    e.true('bags are asked for once', len(g.calls) == 1)
    e.eq('labels for the bags', g.calls[0][1], e.data(list(y) * reps))
    cols = range(1) if n == 2 else range(n)
    cuts = [[i / bins for i in range(bins + 1)]] * n
    training(e, log, reg, [[e.at(P, j, c) for j in range(m)] for c in cols], cuts, idx, n)
    T = e.probs('t', t, n)
    testing(e, log, lambda: q.predict(None, predictions_test=T), [[e.at(T, j, c) for j in range(t)] for c in cols], cuts, answers, n, 0)


TABLE = {2: [[.9, .1], [.2, .8], [.7, .3], [.4, .6], [.1, .9]], 3: [[.7, .2, .1], [.2, .5, .3], [.1, .1, .8], [.3, .6, .1], [.25, .3, .45]]}
FEAT = [[0.1, 5.0], [0.3, 4.0], [0.5, 3.0], [0.8, 1.0], [1.0, 2.0]]
Y5 = {2: (0, 1, 0, 1, 1), 3: (0, 1, 2, 1, 2)}


@harness('P34', [dict(n=2, strategy='equal_count'), dict(n=2, strategy='normal'), dict(n=3, strategy='equal_count'), dict(n=2, strategy='binormal'), dict(n=3, strategy='equal_width', repeat=True)], more=[dict(n=3, strategy='equal_count', bins=3), dict(n=3, strategy='normal')])
def prediction_cuts(e, n, strategy, bins=2, t=2, k=2, size=2, repeat=False):
    """REGy with other cut points: concrete training predictions"""
    prev, idx, answers, log, reg = setting(e, n, k, size, 5)
    q = e.mod('multiclass.regression').REGy(bag_generator=bags(e, prev, idx), n_bins=bins, bin_strategy=strategy, regression_estimator=reg)
    q.fit(None, e.data(Y5[n]), predictions_train=e.arr(TABLE[n]))
    cols = range(1) if n == 2 else range(n)
    f = e.mod('multiclass.df').compute_bincuts
    cuts = [[float(v) for v in e.flat(f(x=e.arr([r[c] for r in TABLE[n]]), y=e.data(Y5[n]), classes=e.data(list(range(n))), n_bins=bins, bin_strategy=strategy, att_range=[0, 1]))] for c in cols]
    training(e, log, reg, [[r[c] for r in TABLE[n]] for c in cols], cuts, idx, n)
    T = e.probs('t', t, n)
    test = lambda: q.predict(None, predictions_test=T)
    testing(e, log, test, [[e.at(T, j, c) for j in range(t)] for c in cols], cuts, answers, n, 0)
    if repeat:
        testing(e, log, test, [[e.at(T, j, c) for j in range(t)] for c in cols], cuts, answers, n, n if n > 2 else 1)


@harness('P34', [dict(n=2, strategy='normal'), dict(n=2, strategy='equal_width', bins=3), dict(n=3, strategy='equal_count'), dict(n=2, strategy='equal_width', d=1, y=(5, -1, 5, -1, -1)), dict(n=3, strategy='normal', t=1)], more=[dict(n=2, strategy='equal_count', bins=3, t=3), dict(n=2, strategy='binormal')])
def features(e, n, strategy, bins=2, t=2, k=2, size=2, d=2, y=None):
    """REGX: histograms of the features"""
    y = y or Y5[n]
    prev, idx, answers, log, reg = setting(e, n, k, size, 5)
    g = bags(e, prev, idx)
    q = e.mod('multiclass.regression').REGX(bag_generator=g, n_bins=bins, bin_strategy=strategy, regression_estimator=reg)
    X = e.data([r[:d] for r in FEAT])
    q.fit(X, e.data(y))
    e.eq('bags of the labels', g.calls[0][1], e.data(y))
    e.eq('bags of the examples', g.calls[0][0], X)
    f = e.mod('multiclass.df').compute_bincuts
    cuts = [[float(v) for v in e.flat(f(x=e.arr([r[c] for r in FEAT]), y=e.data(y), classes=e.data(sorted(set(y))), n_bins=bins, bin_strategy=strategy, att_range=None))] for c in range(d)]
    training(e, log, reg, [[r[c] for r in FEAT] for c in range(d)], cuts, idx, n)
    T = e.mat('t', t, d, lo=-1, hi=6)
    testing(e, log, lambda: q.predict(T), [[e.at(T, j, c) for j in range(t)] for c in range(d)], cuts, answers, n, 0)


@harness('P34', [dict(using=True), dict(using=False)])
def nothing_positive(e, using):
    """three classes: no positive output"""
    prev, idx, answers, log, reg = setting(e, 3, 2, 1, 5)
    for a in answers:
        e.assume(e.at(a, 0) <= 0)
    R = e.mod('multiclass.regression')
    if using:
        q = R.REGy(bag_generator=bags(e, prev, idx), n_bins=2, regression_estimator=reg).fit(None, e.data(Y5[3]), predictions_train=e.arr(TABLE[3]))
    else:
        q = R.REGX(bag_generator=bags(e, prev, idx), n_bins=2, regression_estimator=reg).fit(e.data(FEAT), e.data(Y5[3]))
    e.raises('all zero', (lambda: q.predict(None, predictions_test=e.arr(TABLE[3]))) if using else (lambda: q.predict(e.data(FEAT))), ValueError)


@harness('P34', [dict(using=True, n=2), dict(using=False, n=2), dict(using=True, n=3), dict(using=False, n=3)])
def two_objects(e, using, n):
    """two quantifiers with the same regressor object"""
    R = e.mod('multiclass.regression')
    prev, idx, answers, log, reg = setting(e, n, 2, 1, 5)
    quantifiers = []
    for k in range(2):
        g = bags(e, prev, idx)
        if using:
            quantifiers.append(R.REGy(bag_generator=g, n_bins=2, regression_estimator=reg).fit(None, e.data(Y5[n]), predictions_train=e.arr(TABLE[n])))
        else:
            quantifiers.append(R.REGX(bag_generator=g, n_bins=2, regression_estimator=reg).fit(e.data(FEAT), e.data(Y5[n])))
    ids = [id(l[3]) for l in log]
    e.true('no shared regressor', len(set(ids) | {id(reg)}) == len(ids) + 1)
    s = e.sum([e.clip01(e.at(a, 0)) for a in answers])
    e.assume(s >= 0.01)
    for q in quantifiers:
        r = q.predict(None, predictions_test=e.arr(TABLE[n])) if using else q.predict(e.data(FEAT))
        e.distribution('prevalences', r, n)


YL = ((0, 1, 1, 0), (5, 0, -3, 9, 0, 5, 9, -3), (7, -2, 3, 3, -2, 7, -2))
PREVL = {2: [[.25, .5, .75, .125, .375], [.75, .5, .25, .875, .625]], 3: [[.25, .5, .125, .375, .0625], [.5, .375, .0625, .125, .6875], [.25, .125, .8125, .5, .25]],
         4: [[.25, .5, .125, .0625, .375], [.25, .375, .0625, .625, .125], [.125, .125, .5, .25, .0625], [.375, 0., .3125, .0625, .4375]]}
FEATL = [[0.1, 5.0, 2.0], [0.3, 4.0, 0.5], [0.5, 3.0, 1.5], [0.8, 1.0, 1.0], [1.0, 2.0, 0.25], [0.25, 4.5, 1.25], [0.75, 0.5, 1.75], [0.6, 3.5, 0.75]]


class Bags:
    """a generator that gives the present bags"""

    def __init__(self, e):
        outer = self

        class Given(e.mod('bag_generator').BagGenerator):
            n_bags = 0

            def generate_bags(self, X, y):
                outer.calls.append((X, y))
                return outer.prev, outer.idx
        self.calls, self.generator = [], Given()

    def set(self, prev, idx):
        self.prev, self.idx, self.generator.n_bags = prev, idx, idx.shape[1]
        del self.calls[:]


def solved(e, q, B, reg, y, k, size, kind, bins, strategy, tag, free, t=3, d=3, reps=1):
    """fit on k bags of given examples but for one; two test sets with one symbolic value"""
    labels = sorted(set(y))
    n = len(labels)
    m = len(y) * reps
    rows = [[(3 * i + j * (i + 1) + j) % m for i in range(k)] for j in range(size)]
    if free:
        rows[size - 1][k - 1] = e.int('b' + tag, tuple(range(m)))
    idx = e.arr(rows, 'i')
    B.set(e.arr([r[:k] for r in PREVL[n]]), idx)
    answers = [e.vec('r%s%d_' % (tag, c), 1, lo=-1, hi=2) if free and c == n - 1 else e.arr([0.3 + c / 8]) for c in range(n)]
    del reg.log[:]
    reg.answers, reg.targets = answers, [list(r[:k]) for r in PREVL[n]]
    f = e.mod('multiclass.df').compute_bincuts
    if kind == 'proba':
        table = [row(i, n) for i in range(m)]
        q.fit(index_X(e, len(y)), e.data(y), predictions_train=e.arr(table))
        cols = range(1) if n == 2 else range(n)
    else:
        table = [r[:d] for r in FEATL[:m]]
        q.fit(e.data(table), e.data(y))
        cols = range(d)
    e.true('bags are asked for once', len(B.calls) == 1)
    e.eq('labels for the bags', B.calls[0][1], e.data(list(y) * reps))
    cuts = [[float(v) for v in e.flat(f(x=e.arr([r[c] for r in table]), y=e.data(list(y) * reps), classes=e.data(labels), n_bins=bins, bin_strategy=strategy, att_range=[0, 1] if kind == 'proba' else None))] for c in cols]
    training(e, reg.log, reg, [[r[c] for r in table] for c in cols], cuts, idx, n)
    before = 0
    for step, tt in enumerate((t, 2)):
        if kind == 'proba':
            T = mixed_probs(e, 't%s%d_' % (tag, step), tt, n, (0,) if step and free and n < 4 else ())
            ask = lambda: q.predict(None, predictions_test=T)
        else:
            T = e.arr([[e.real('t%s%d_%d' % (tag, step, j), -1, 6) if j == tt - 1 and c == 0 and free else FEATL[(3 * j + step) % 8][c] + 0.05 for c in range(d)] for j in range(tt)])
            ask = lambda: q.predict(T)
        testing(e, reg.log, ask, [[e.at(T, j, c) for j in range(tt)] for c in cols], cuts, answers, n, before)
        before += 1 if n == 2 else n


def quantifier(e, kind, B, reg, bins, strategy):
    R = e.mod('multiclass.regression')
    return (R.REGy if kind == 'proba' else R.REGX)(bag_generator=B.generator, n_bins=bins, bin_strategy=strategy, regression_estimator=reg)


@harness('P34', [dict(kind='proba', y=YL[1], k=5, size=6, bins=4), dict(kind='features', y=YL[1], k=4, size=5, bins=2, strategy='normal'), dict(kind='proba', y=YL[2], k=5, size=5, bins=3, strategy='equal_count'), dict(kind='features', y=YL[2], k=5, size=4, bins=4, strategy='equal_width'), dict(kind='proba', y=(4, -1, 4, -1, -1), k=5, size=5, bins=4, reps=2), dict(kind='features', y=(4, -1, 4, -1, -1, 4, 4), k=5, size=5, bins=2, strategy='binormal')], limit=60)
def larger(e, kind, y, k, size, bins, strategy='equal_width', reps=1):
    """more bags, classes and bins; given examples but for one index and one test value"""
    reg = Regressor(None, SharedList(), None)
    B = Bags(e)
    solved(e, quantifier(e, kind, B, reg, bins, strategy), B, reg, y, k, size, kind, bins, strategy, '', True, reps=reps)


@harness('P34', [dict(kind=k, at=i) for k in ('proba', 'features') for i in (0, 1, 2)], limit=60)
def again(e, kind, at):
    """one object fitted three times, with other labels, numbers of bags, columns and classes"""
    reg = Regressor(None, SharedList(), None)
    B = Bags(e)
    q = quantifier(e, kind, B, reg, 3, 'equal_width')
    for j, y in enumerate(YL):
        solved(e, q, B, reg, y, 3 + j, 2 + j, kind, 3, 'equal_width', '%d_' % j, j == at, t=2, d=1 + j)
