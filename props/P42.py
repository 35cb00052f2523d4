"""Constructor arguments are scikit-learn parameters: get_params, set_params, clone and repr."""
import inspect
from sklearn.base import clone
from symq.harness import harness
from props.families import *
from props.P32 import first, other_test, OTHER

BOUNDS = 'every quantifier family of props/families.py (2-3 classes, 14 also with 4; training and test sets as there) and the ordinal, nearest-neighbour, cross-validation and ensemble classifiers with symbolic base probabilities for 1-2 test examples: clones of new and of fitted objects, objects built with other arguments (and fitted and used for prediction) then changed by set_params; every constructor argument of every class of the package for get_params and repr'
OUTSIDE = 'the estimator of OrdinalQuantificationTree is reported as the tree built on it; parameters of nested objects (a__b); arguments the constructors refuse'

# other values of the constructor arguments
ALT = dict(distance=('L2', 'L1'), n_bins=(3, 2), bin_strategy=('equal_count', 'equal_width'), distribution_function=('CDF', 'PDF'), tol=(0.4,), epsilon=(0.3,), max_iter=(1,), n_quantiles=(3,), n_neighbors=(1,), p=(1,),
           combination_strategy=('median', 'mean'), percentage_of_selected_models=(0.9,), n_quantifiers=(1,), method=('winner_node',), distance_bags=('L1', 'L2'))
HEAVY = (('SORDy', 2), ('REGy', 3), ('EM', 3), ('AC', 3))
CASES = each()
LIGHT = [c for c in CASES if (c['fam'], c['n']) not in HEAVY]
REST = [c for c in CASES if (c['fam'], c['n']) in HEAVY]


def names(cls):
    return [p.name for p in list(inspect.signature(cls.__init__).parameters.values())[1:] if p.kind not in (p.VAR_KEYWORD, p.VAR_POSITIONAL)]


def given(q):
    """the arguments of an object"""
    return {n: getattr(q, n) for n in names(type(q))}


def other(e, q):
    """an object of the same class with other arguments"""
    kw = {}
    for k, v in given(q).items():
        if k == 'distance' and callable(v):
            m = e.mod('metrics.multiclass')
            # distances between vectors, or between the rows of two tables
            kw[k] = (lambda a, b: 0 * a.dot(b.T)) if type(q).__name__ in ('EDX', 'EDy', 'CvMy') else m.l2 if v is m.l1 else m.l1
        elif k in ALT and v is not None:
            kw[k] = [a for a in ALT[k] if a != v][0]
        elif k == 'base_quantifier':
            kw[k] = v
        else:
            kw[k] = v
    return type(q)(**kw)


def answers(e, f, q, D, T):
    f.fit(e, q, D)
    return f.predict(e, q, T)


@harness('P42', LIGHT, more=REST, limit=60)
def cloned(e, fam, n):
    """a clone of a new object and one of a fitted object work like the original"""
    f = BY[fam]
    D = f.train(e, 'p', n)
    T = f.test(e, 't', n, labels=D['labels'])
    q = f.new(e)
    c = clone(q)
    a, ka = answers(e, f, q, D, T)
    e.true('the clone of a new object is another one, not fitted', c is not q and getattr(c, 'classes_', None) is None and type(c) is type(q))
    b, kb = answers(e, f, c, D, T)
    e.same_result('clone of a new object', a, ka, b, kb, n)
    # a fitted object on other data
    g = f.new(e)
    f.fit(e, g, first(e, f, n, OTHER[n]) if not fam.startswith('EoQ') else first(e, f, n, f.labels(n)[::-1]))
    c = clone(g)
    e.true('the clone of a fitted object is not fitted', getattr(c, 'classes_', None) is None)
    b, kb = answers(e, f, c, D, T)
    e.same_result('clone of a fitted object', a, ka, b, kb, n)
    e.true('printable', isinstance(repr(q), str) and type(q).__name__ in repr(q))


@harness('P42', LIGHT, more=REST, limit=60)
def changed(e, fam, n, used=True):
    """an object built (and used) with other arguments works, after set_params, like one built with them"""
    f = BY[fam]
    D = f.train(e, 'p', n)
    T = f.test(e, 't', n, labels=D['labels'])
    q = f.new(e)
    a, ka = answers(e, f, q, D, T)
    args = given(f.new(e))
    e.true('get_params gives the arguments', set(q.get_params(deep=False)) >= set(args) and all(q.get_params(deep=False)[k] is getattr(q, k) for k in args))
    o = other(e, f.new(e))
    D1 = first(e, f, n, OTHER[n]) if not fam.startswith('EoQ') else first(e, f, n, f.labels(n)[::-1])
    for fitted in (True, False):
        o = other(e, f.new(e))
        if fitted:
            f.fit(e, o, D1)
            f.predict(e, o, other_test(e, f, n, D1['labels'], f.t))
        o.set_params(**{k: v for k, v in q.get_params(deep=False).items() if k in args})
        b, kb = answers(e, f, o, D, T)
        e.same_result('arguments changed by set_params (%s)' % ('after a fit' if fitted else 'before any fit'), a, ka, b, kb, n)


CLASSES = [('baselines.cc', 'CC'), ('baselines.cc', 'PCC'), ('baselines.ac', 'AC'), ('baselines.ac', 'PAC'), ('binary.debias', 'DeBias'), ('binary.emd', 'SORDy'), ('binary.quantiles', 'QUANTy'), ('decomposition.multiclass', 'OneVsRestQuantifier'),
           ('decomposition.ordinal', 'FrankAndHallQuantifier'), ('ensembles.eoq', 'EoQ'), ('estimators.cross_validation', 'CV_estimator'), ('estimators.ensembles', 'EnsembleOfClassifiers'), ('estimators.frank_and_hall', 'FrankAndHallClassifier'),
           ('estimators.frank_and_hall', 'FrankAndHallMonotoneClassifier'), ('estimators.frank_and_hall', 'FrankAndHallTreeClassifier'), ('estimators.ordinal_ddag', 'DDAGClassifier'), ('estimators.weighted_knn', 'PWK'), ('multiclass.df', 'DFX'),
           ('multiclass.df', 'DFy'), ('multiclass.df', 'HDX'), ('multiclass.df', 'HDy'), ('multiclass.df', 'MMy'), ('multiclass.em', 'EM'), ('multiclass.energy', 'CvMy'), ('multiclass.energy', 'EDX'), ('multiclass.energy', 'EDy'),
           ('multiclass.friedman', 'FriedmanME'), ('multiclass.knn', 'PWKQuantifier'), ('multiclass.regression', 'REGX'), ('multiclass.regression', 'REGy'), ('ordinal.ac_ordinal', 'ACOrdinal'), ('ordinal.pdf', 'PDFOrdinaly'), ('ordinal.trees', 'OrdinalQuantificationTree')]
ARGS = dict(ALT, verbose=(1, 2), n_jobs=(2, 3), estimator=('E',), base_estimator=('E',), performance_measure=('M',), predict_method=('winner_node',), averaged_predictions=(False, True), voting=('soft', 'hard'), groups=('G',), cv=(3, 4),
            fit_params=('F',), pre_dispatch=(3,), algorithm=('brute',), leaf_size=(7,), metric=('manhattan',), metric_params=('D',), estimator_train=('E',), estimator_test=('E',), bag_generator=('B',), regression_estimator=('R',), base_quantifier=('Q',),
            quantifier=('Q',), params_fit=('F',), ensemble_estimator_train=('E',), ensemble_estimator_test=('E',))


class Token:
    """an argument: only its identity counts"""

    def __init__(self, name):
        self.name = name

    def __deepcopy__(self, memo):
        return self


@harness('P42', [dict(mod=m, cls=c) for m, c in CLASSES])
def arguments(e, mod, cls):
    """each constructor argument, alone and with the others changed, is reported by get_params, copied by clone, replaced by set_params"""
    C = getattr(e.mod(mod), cls)
    sig = list(inspect.signature(C.__init__).parameters.values())[1:]
    req = {p.name: Token(p.name) for p in sig if p.default is p.empty and p.kind is p.POSITIONAL_OR_KEYWORD}
    val = {}
    for n in names(C):
        if cls == 'OrdinalQuantificationTree' and n == 'estimator_test':
            val[n] = e.mod('estimators.frank_and_hall').FrankAndHallTreeClassifier(Token(n))
            continue
        v = ARGS.get(n, ('?',))
        v = [x for x in v if x != getattr(C(**req), n)][0]
        # estimators and the like: any object
        val[n] = Token(n) if v in ('E', 'M', 'G', 'F', 'D', 'B', 'R', 'Q') else v
    tree = lambda v: getattr(v, 'estimator', None) if cls == 'OrdinalQuantificationTree' and hasattr(v, 'estimator') else v
    alone = [dict(req, **{n: val[n]}) for n in val]
    for kw in [dict(req)] + alone + [val]:
        q = C(**kw)
        want = dict({p.name: p.default for p in sig if p.kind is p.POSITIONAL_OR_KEYWORD}, **kw)
        got = q.get_params(deep=False)
        for n in names(C):
            e.true('argument %s is reported' % n, n in got and tree(got[n]) is tree(want[n]))
        c = clone(q).get_params(deep=False)
        for n in names(C):
            e.true('argument %s is copied' % n, n in c and tree(c[n]) is tree(want[n]))
        o = C(**req).set_params(**{n: v for n, v in kw.items()})
        for n in names(C):
            e.true('argument %s is set' % n, tree(o.get_params(deep=False)[n]) is tree(want[n]))
        e.true('printable', cls in repr(q))


FHY = [(5, -1, 2, 2), (4, 3, 2, 1)]


@harness('P42', [dict(cls=c, y=y, fitted=f) for c in ('FrankAndHallClassifier', 'FrankAndHallMonotoneClassifier', 'FrankAndHallTreeClassifier') for y in FHY for f in (False, True)], limit=60)
def ordinal(e, cls, y, fitted):
    """clones of ordinal classifiers, new and fitted: same probabilities as the original; other data before"""
    m, t = len(y), 2
    keys = ordered_keys(y)
    C = getattr(e.mod('estimators.frank_and_hall'), cls)
    if 'Tree' in cls:
        # any training probabilities with a tree decided by the measure
        tabs = [e.arr([row(i + 3 * k, 2) for i in range(m)] + [e.flat(e.simplex('v%d_%d' % (k, i), 2)) for i in range(t)]) for k in range(len(keys))]
    else:
        tabs = [e.probs('v%d' % k, m + t, 2) for k in range(len(keys))]
    y2 = tuple(reversed(y))
    keys2 = ordered_keys(y2)
    T = dict(zip(keys, tabs))
    for k, t2 in zip(keys2, [e.arr([row(2 * i + k, 2) for i in range(m + t)]) for k in range(len(keys))]):
        T.setdefault(k, t2)
    base = BinaryModels(SharedDict(T))
    q = C(base)
    if fitted:
        q.fit(index_X(e, m), e.data(y2))
    c = clone(q)
    e.true('the clone is not fitted', c.classes_ is None and c.estimators_ is None)
    c.fit(index_X(e, m), e.data(y))
    X = index_X(e, t, first=m)
    d = C(base).fit(index_X(e, m), e.data(y))
    e.eq('probabilities', c.predict_proba(X), d.predict_proba(X))
    o = C(None).set_params(estimator=base)
    o.fit(index_X(e, m), e.data(y))
    e.eq('probabilities after set_params', o.predict_proba(X), d.predict_proba(X))


@harness('P42', [dict(a=a, b=b) for a in ('full_probabilistic', 'winner_node') for b in ('full_probabilistic', 'winner_node')], limit=60)
def ddag(e, a, b):
    """the prediction method of a DDAG can be changed"""
    y, t = (4, 1, 3), 1
    m = len(y)
    C = e.mod('estimators.ordinal_ddag').DDAGClassifier
    tabs = SharedDict()
    n = 0
    for i in range(m):
        for j in range(m):
            if y[i] < y[j]:
                n += 1
                T = e.arr([row(r + n, 2) for r in range(m)] + [e.flat(e.simplex('d%d_%d' % (n, r), 2, 0.01)) for r in range(t)])
                for p in (0, 1):
                    tabs[tuple(sorted([(i, p), (j, 1 - p)]))] = T if p == 0 else T[:, ::-1]
    base = BinaryModels(tabs)
    X, Xt = index_X(e, m), index_X(e, t, first=m)
    d = C(base, predict_method=b).fit(X, e.data(y))
    want = d.predict_proba(Xt)
    q = C(base, predict_method=a)
    for fitted in (False, True):
        if fitted:
            q.fit(X, e.data(y))
            q.predict_proba(Xt)
        c = clone(q).set_params(predict_method=b)
        c.fit(X, e.data(y))
        e.eq('probabilities (%s)' % fitted, c.predict_proba(Xt), want)
    q.set_params(predict_method=b)
    q.fit(X, e.data(y))
    e.eq('probabilities', q.predict_proba(Xt), want)


@harness('P42', [dict(k=1, k0=2, p=2), dict(k=3, k0=1, p=1)], limit=60)
def pwk(e, k, k0, p):
    """neighbours of the nearest-neighbour classifier, changed between two fits"""
    C = e.mod('estimators.weighted_knn').PWK
    X = e.data([[0., 0.], [1., .2], [3., .1], [7., .4]])
    T = e.data([[.1, 0.], [2.1, .3]])
    y = e.ints('y', 4, (2, 7))
    for l in (2, 7):
        e.assume(e.or_(*[e.at(y, i) == l for i in range(4)]))
    want = C(n_neighbors=k, p=p).fit(X, y)
    q = C(n_neighbors=k0, p=3 - p)
    q.fit(X, e.data([2, 2, 7, 7]))
    q.predict_proba(T)
    c = clone(q).set_params(n_neighbors=k, p=p).fit(X, y)
    e.eq('probabilities of a changed clone', c.predict_proba(T), want.predict_proba(T))
    q.set_params(n_neighbors=k, p=p).fit(X, y)
    e.eq('probabilities after set_params', q.predict_proba(T), want.predict_proba(T))
