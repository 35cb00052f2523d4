"""Inputs of the caller are left as they were."""
from symq.harness import harness
from props.families import *

BOUNDS = 'every quantifier family with 2-3 classes (14 of them also with 4), 2-3 training and 1-2 test examples (every prediction or feature value, symbolic or concrete training set as in props/families.py), repeated predictions, verbose output; all the metrics on vectors of 2-3 and matrices of 2 x 3; the classifiers (ordinal, cross-validation, ensembles, neighbours), bag generators, solvers, searches and binning functions on small inputs'
OUTSIDE = 'larger inputs (the code branches on their number only where P06-P36 say so); estimators and distances of the user that write to their arguments'


HEAVY = (('SORDy', 2), ('EM', 3), ('EM', 4), ('PDF-L2', 3), ('CvMy', 2))
BIG = {2: (5, 1, 5, 1), 3: (7, 2, 4, 7), 4: (7, -2, 4, 11, 4)}


def keep(e, D):
    return {k: e.snap(D[k]) for k in D if hasattr(D[k], 'shape')}


def same(e, label, D, S):
    for k, s in S.items():
        e.unchanged('%s %s' % (label, k), D[k], s)


@harness('P33', each() + each(skip=tuple(HEAVY) + (('Friedman-fn', 2),), big=True), more=[c for c in each(big=True) if (c['fam'], c['n']) in HEAVY], limit=60)
def quantifiers(e, fam, n, big=False):
    f = BY[fam]
    D = f.train(e, 'p', n, y=BIG[n] if big else None)
    T = f.test(e, 't', n, labels=D['labels'], t=f.t + 1 if big else None)
    SD, ST = keep(e, D), keep(e, T)
    q = f.new(e)
    f.fit(e, q, D)
    same(e, 'after fit: training', D, SD)
    f.predict(e, q, T)
    same(e, 'after predict: training', D, SD)
    same(e, 'after predict: test', T, ST)


SKIP = ('EoQ-mean', 'EoQ-median', 'EoQ-dist', 'EoQ-EDX')


@harness('P33', each(lambda f: f.ns[0] == 2 and f.using, SKIP + ('CvMy',) + tuple((f.name, 3) for f in ALL)), limit=60)
def verbose_and_concrete(e, fam, n):
    """verbose output; a concrete training set in which nothing is degenerate, three times in a row"""
    f = BY[fam]
    D = f.train(e, 'p', n, symbolic=False)
    T = f.test(e, 't', n, labels=D['labels'])
    SD, ST = keep(e, D), keep(e, T)
    q = f.new(e, verbose=1)
    f.fit(e, q, D)
    f.predict(e, q, T)
    f.predict(e, q, T)
    same(e, 'training', D, SD)
    same(e, 'test', T, ST)


def stacked(e, f, D, k):
    P = D['P']
    D['P'] = e.np.concatenate([P] * k)
    return D


@harness('P33', [dict(fam=f, n=2) for f in ('AC', 'PAC', 'EM', 'DeBias', 'DFy-HD', 'Friedman-L1', 'EDy', 'SORDy', 'QUANTy', 'REGy')] + [dict(fam=f, n=3) for f in ('ACOrdinal', 'PDF-EMD', 'DFy-L1')], limit=60)
def repeated_predictions(e, fam, n):
    """training predictions of two repetitions of the training set"""
    f = BY[fam]
    D = stacked(e, f, f.train(e, 'p', n, symbolic=fam not in ('EDy', 'SORDy')), 2)
    T = f.test(e, 't', n, labels=D['labels'])
    SD, ST = keep(e, D), keep(e, T)
    q = f.new(e)
    f.fit(e, q, D)
    f.predict(e, q, T)
    same(e, 'training', D, SD)
    same(e, 'test', T, ST)


class Owner(BaseEstimator):
    """an estimator that hands out its own arrays"""

    def __init__(self, train, test, crisp):
        self.train, self.test, self.crisp = train, test, crisp

    def __deepcopy__(self, memo):
        return self

    def fit(self, X, y):
        return self

    def answer(self, X):
        return self.train if int(np.asarray(X[:, 0]).reshape(-1)[-1]) < 100 else self.test

    def predict_proba(self, X):
        return self.answer(X)

    def predict(self, X):
        return self.answer(X) if self.crisp else np.zeros(len(X))


@harness('P33', [dict(fam=f, n=n) for f, n in (('CC', 2), ('PCC', 3), ('AC', 2), ('PAC', 2), ('EM', 2), ('DeBias', 2), ('DFy-HD', 2), ('DFy-L1', 3), ('Friedman-L1', 2), ('EDy', 2), ('CvMy', 2), ('SORDy', 2), ('QUANTy', 2), ('ACOrdinal', 3), ('PDF-EMD', 3))], limit=60)
def outputs_of_the_estimator(e, fam, n):
    """arrays that belong to the estimator, examples with feature values"""
    f = BY[fam]
    D = f.train(e, 'p', n)
    T = f.test(e, 't', n, labels=D['labels'])
    m = len(f.labels(n))
    X, Xt = index_X(e, m), index_X(e, e.shape(T['P'])[0], first=100)
    all_ = dict(train=D['P'], test=T['P'], X=X, y=D['y'], Xt=Xt)
    S = keep(e, all_)
    est = Owner(D['P'], T['P'], f.crisp)
    kw = dict(f.kw)
    if fam == 'QUANTy':
        kw['distance'] = e.mod('metrics.multiclass').l1
    if fam not in ('CC', 'PCC'):
        kw['estimator_train'] = est
    q = getattr(e.mod(f.mod), f.cls)(estimator_test=est, **kw)
    q.fit(X, D['y'])
    q.predict(Xt)
    same(e, '', all_, S)


MULTI = ('kld', 'mean_absolute_error', 'l1', 'mean_squared_error', 'l2', 'hd', 'bray_curtis', 'topsoe', 'jensenshannon', 'probsymmetric')
BIN = ('binary_kld', 'bias', 'absolute_error', 'squared_error', 'relative_absolute_error', 'symmetric_absolute_percentage_error', 'normalized_absolute_score', 'normalized_squared_score')


@harness('P33', [dict(f=f, n=3) for f in MULTI] + [dict(f=f, n=2) for f in ('kld', 'topsoe', 'jensenshannon')])
def metrics(e, f, n):
    p, q = e.simplex('p', n), e.simplex('q', n)
    S = e.snap(p), e.snap(q)
    if f in ('kld', 'topsoe', 'jensenshannon', 'probsymmetric'):
        for v in e.flat(q):
            e.assume(v >= 0.01)
    getattr(e.mod('metrics.multiclass'), f)(p, q)
    e.unchanged(f + ': true', p, S[0])
    e.unchanged(f + ': predicted', q, S[1])


@harness('P33', [dict(f=f, n=n) for f in ('emd', 'emd_score') for n in (2, 3)])
def ordinal_metrics(e, f, n):
    p, q = e.simplex('p', n), e.simplex('q', n)
    S = e.snap(p), e.snap(q)
    getattr(e.mod('metrics.ordinal'), f)(p, q)
    e.unchanged(f + ': true', p, S[0])
    e.unchanged(f + ': predicted', q, S[1])


@harness('P33', [dict()])
def binary_metrics(e):
    mod = e.mod('metrics.binary')
    p, q = e.vec('p', 2, lo=0.01, hi=0.99), e.vec('q', 2, lo=0.01, hi=0.99)
    S = e.snap(p), e.snap(q)
    for f in BIN:
        try:
            getattr(mod, f)(p[:1], q[:1])
        except (TypeError, ValueError):
            pass
        getattr(mod, f)(p[0], q[0])
        e.unchanged(f + ': true', p, S[0])
        e.unchanged(f + ': predicted', q, S[1])


@harness('P33', [dict(f='brier_multi', m=2, n=3), dict(f='emd_distances', m=2, n=3)])
def matrix_metrics(e, f, m, n):
    mod = e.mod('metrics.ordinal' if f.startswith('emd') else 'metrics.multiclass')
    A, B = e.probs('a', m, n), e.probs('b', m, n)
    S = e.snap(A), e.snap(B)
    getattr(mod, f)(A, B)
    e.unchanged(f + ': first', A, S[0])
    e.unchanged(f + ': second', B, S[1])


@harness('P33', [dict(cls=c, y=y) for c in ('FrankAndHallClassifier', 'FrankAndHallMonotoneClassifier', 'FrankAndHallTreeClassifier', 'DDAGClassifier') for y in ((2, 0, 1, 1),)])
def classifiers(e, cls, y):
    """the ordinal classifiers: examples, labels and the outputs of their models"""
    m, t = len(y), 2
    labels = sorted(set(y))
    if cls == 'DDAGClassifier':
        keys = [tuple((r, int(v == b)) for r, v in enumerate(y) if v in (a, b)) for i, a in enumerate(labels) for b in labels[i + 1:]]
        mod = e.mod('estimators.ordinal_ddag')
    else:
        keys = ordered_keys(y)
        mod = e.mod('estimators.frank_and_hall')
    conc = [[.8, .2], [.3, .7], [.55, .45], [.15, .85]]
    tabs = []
    for i in range(len(keys)):
        if cls == 'FrankAndHallTreeClassifier':
            # concrete training outputs
            tabs.append(e.np.concatenate([e.arr(conc[i:] + conc[:i]), e.probs('m%d' % i, t, 2)]))
        else:
            tabs.append(e.probs('m%d' % i, m + t, 2))
    clf = getattr(mod, cls)(estimator=BinaryModels(SharedDict(zip(keys, tabs))))
    X, Y, T = index_X(e, m), e.data(y), index_X(e, t, first=m)
    S = [e.snap(v) for v in tabs + [X, Y, T]]
    for step, act in (('fit', lambda: clf.fit(X, Y)), ('predict_proba', lambda: clf.predict_proba(T)), ('predict', lambda: clf.predict(T))):
        act()
        for i, (v, s) in enumerate(zip(tabs + [X, Y, T], S)):
            e.unchanged('%s: input %d' % (step, i), v, s)


@harness('P33', [dict(y=(2, 0, 1, 1)), dict(y=(4, -1, 4, -1))])
def ensemble_of_classifiers(e, y):
    """examples, labels, indexes and the outputs of the models of an ensemble of classifiers"""
    m, t, labels = len(y), 2, sorted(set(y))
    n = len(labels)
    P = e.probs('p', m + t, n)
    c = e.mod('estimators.ensembles').EnsembleOfClassifiers(base_estimator=TableEstimator(P, e.data((y + y)[:m + t]), fitted=True))
    D = dict(X=index_X(e, m, extra=1), y=e.data(y), idx=e.data([[(i + b) % m for b in range(2)] for i in range(m)]), T=index_X(e, t, first=m, extra=1), P=P)
    S = keep(e, D)
    for step, act in (('fit', lambda: c.fit(D['X'], D['y'], D['idx'])), ('predict_proba', lambda: c.predict_proba(D['T'])), ('predict', lambda: c.predict(D['T']))):
        act()
        same(e, step, D, S)


class Held(Shared):
    def __init__(self, table):
        self.table = table


class Plain(BaseEstimator):
    """outputs the table it is given, whatever it is trained on"""

    def __init__(self, held=None, classes=None):
        self.held, self.classes = held, classes

    def fit(self, X, y):
        self.classes_ = np.array(self.classes)
        return self

    def predict_proba(self, X):
        return self.held.table[np.array([int(v) for v in np.asarray(X[:, 0]).reshape(-1)])]

    def predict(self, X):
        return np.zeros(len(X))

    def score(self, X, y):
        return 0.0


@harness('P33', [dict(averaged=a, voting=v) for a, v in ((True, 'soft'), (True, 'hard'), (False, 'soft'))])
def cross_validation(e, averaged, voting):
    """examples, labels and the outputs of the models of a cross-validation estimator"""
    y = (4, -1, 4, -1)
    P = e.probs('p', 6, 2)
    c = e.mod('estimators.cross_validation').CV_estimator(estimator=Plain(Held(P), (-1, 4)), cv=2, averaged_predictions=averaged, voting=voting)
    D = dict(X=index_X(e, 4, extra=1), y=e.data(y), T=index_X(e, 2, first=4, extra=1), P=P)
    S = keep(e, D)
    for step, act in (('fit', lambda: c.fit(D['X'], D['y'])), ('predict_proba', lambda: c.predict_proba(D['T'])), ('predict', lambda: c.predict(D['T'])), ('predict_proba of the training examples', lambda: c.predict_proba(D['X']))):
        act()
        same(e, step, D, S)


@harness('P33', [dict(k=1), dict(k=2)])
def neighbours(e, k):
    X, T = e.data(TRAIN_X[:5]), e.data(TEST_X)
    y = e.ints('y', 5, (1, 4))
    e.assume(e.or_(*[v == 1 for v in y]))
    e.assume(e.or_(*[v == 4 for v in y]))
    D = dict(X=X, y=y, T=T)
    S = keep(e, D)
    c = e.mod('estimators.weighted_knn').PWK(n_neighbors=k).fit(X, y)
    same(e, 'fit', D, S)
    c.predict_proba(T)
    same(e, 'predict_proba', D, S)
    c.predict(T)
    same(e, 'predict', D, S)


@harness('P33', [dict(method='Uniform'), dict(method='Uniform', low=[0.25, 0.25]), dict(method='Dirichlet'), dict(method='cov'), dict(method='both')])
def bags(e, method, low=None):
    """bag generators: examples, labels and their own settings"""
    G = e.mod('bag_generator')
    X, y = e.data([[0.0, 1.0], [0.5, 0.0], [1.0, 0.5]]), e.data((4, 1, 4))
    alphas = e.data([1.0, 2.0])
    kw = dict(n_bags=1 if low else 2, bag_size=4 if low else 2, random_state=e.random_state('g', 8) if method != 'both' else 7)
    if method == 'cov':
        g = G.CovariateShift_BagGenerator(**kw)
    elif method == 'both':
        g = G.PriorAndCovariateShift_BagGenerator(**kw)
    else:
        low = None if low is None else e.data(low)
        g = G.PriorShift_BagGenerator(method=method, alphas=alphas, min_prevalence=low, **kw)
    D = dict(X=X, y=y, alphas=alphas, **({} if low is None else dict(low=low)))
    S = keep(e, D)
    g.generate_bags(X, y)
    same(e, '', D, S)


@harness('P33', [dict(f='solve_l1', n=2), dict(f='solve_l1', n=3), dict(f='solve_hd', n=2), dict(f='solve_hd', n=3)])
def solvers(e, f, n):
    O = e.mod('optimization')
    A, b = e.probs('a', 2, n), e.probs('b', 2, 1)
    S = e.snap(A), e.snap(b)
    getattr(O, f)(train_distrib=A, test_distrib=b, n_classes=n)
    e.unchanged('training table', A, S[0])
    e.unchanged('test vector', b, S[1])


@harness('P33', [dict()])
def quadratic(e):
    O = e.mod('optimization')
    A, b = e.arr([[.8, .3], [.2, .7]]), e.probs('b', 2, 1)
    classes = e.data([3, 7])
    S = e.snap(A), e.snap(b)
    pars = O.compute_l2_param_train(A, classes)
    s2 = [e.snap(v) if hasattr(v, 'shape') else None for v in pars]
    O.solve_l2(A, b, *pars)
    e.unchanged('training table', A, S[0])
    e.unchanged('test vector', b, S[1])
    for i, (v, s) in enumerate(zip(pars, s2)):
        if s is not None:
            e.unchanged('parameter %d' % i, v, s)


@harness('P33', [dict(strategy=s) for s in ('equal_width', 'equal_count', 'normal', 'binormal')])
def bins(e, strategy):
    x, y, cl = e.vec('x', 4), e.data((5, 1, 5, 1)), e.data((1, 5))
    e.assume(e.at(x, 0) - e.at(x, 2) >= 0.05)
    e.assume(e.at(x, 1) - e.at(x, 3) >= 0.05)
    D = dict(x=x, y=y, classes=cl)
    S = keep(e, D)
    e.mod('multiclass.df').compute_bincuts(x, y=y, classes=cl, n_bins=2, bin_strategy=strategy)
    same(e, '', D, S)


@harness('P33', [dict()])
def quantile_and_sord_functions(e):
    s = e.mod('search')
    x, y, cl = e.vec('x', 3), e.data((5, 1, 5)), e.data((1, 5))
    p = e.real('p', 0, 1)
    u = e.data((5, 1, 6, 5))
    w = e.vec('w', 4, lo=-1)
    z = e.vec('z', 4)
    a, b = e.vec('a', 2), e.vec('b', 2)
    D = dict(x=x, y=y, cl=cl, u=u, w=w, z=z, a=a, b=b)
    S = keep(e, D)
    s.compute_quantiles(prevalence=p, probabilities=x, n_quantiles=2, y=y, classes=cl)
    s.compute_quantiles(prevalence=None, probabilities=x, n_quantiles=2)
    s.compute_sord_weights(prevalence=p, union_labels=u, classes=cl)
    s.sord(w, z)
    s.mixture_of_pdfs(prevalence=p, pos_distrib=a, neg_distrib=b)
    same(e, '', D, S)
