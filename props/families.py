"""All quantifier families with one interface: data, fit, predict."""
from props.common import *

TRAIN_P = {1: [[.8], [.3], [.55], [.15], [.7]], 2: [[.9, .1], [.2, .8], [.35, .65], [.6, .4], [.75, .25]], 3: [[.7, .2, .1], [.2, .3, .5], [.1, .8, .1], [.3, .25, .45], [.15, .5, .35]],
           4: [[.05, .2, .15, .6], [.65, .1, .2, .05], [.1, .55, .2, .15], [.1, .05, .6, .25], [.35, .3, .25, .1], [.2, .15, .3, .35]]}
TEST_P = {1: [[.45], [.85]], 2: [[.3, .7], [.85, .15], [.5, .5]], 3: [[.25, .6, .15], [.1, .15, .75], [.5, .2, .3]], 4: [[.3, .4, .05, .25], [.1, .2, .6, .1], [.45, .05, .2, .3]]}
TRAIN_X = [[0.1, 5.25], [0.3, 4.0], [0.5, 3.0], [0.8, 1.0], [1.0, 2.0], [0.65, 4.5]]
TEST_X = [[0.2, 2.0], [0.9, 3.0], [0.6, 1.5]]


class Weighted(BaseEstimator):
    """a regressor: targets weighted by the products of the training rows with the asked row"""

    def fit(self, X, y):
        self.X_, self.y_ = X.copy(), y.copy()
        return self

    def predict(self, X):
        return (X.dot(self.X_.T) * self.y_.reshape(1, -1)).sum(axis=1) / (4 * len(self.y_)) + 0.01


def fixed_bags(e, n_bags=2):
    """bags that depend only on the labels: bag i is the whole training set shifted by i positions with example i twice"""
    B = e.mod('bag_generator').BagGenerator

    class Bags(B):
        def __init__(self):
            self.n_bags = n_bags

        def generate_bags(self, X, y):
            y = np.asarray(y).reshape(-1)
            idx = np.array([[(j + i) % len(y) for i in range(n_bags)] for j in range(len(y))] + [[i % len(y) for i in range(n_bags)]])
            prev = np.array([[float(np.mean(y[idx[:, i]] == c)) for i in range(n_bags)] for c in np.unique(y)])
            return prev, idx
    return Bags()


class Family:
    # labels by number of classes
    Y = {2: (5, 1, 5), 3: (7, 2, 4), 4: (9, -2, 4, 6)}
    YSMALL = {2: (5, 1), 3: (7, 2, 4), 4: (9, -2, 4, 6)}

    def __init__(self, name, mod, cls, kw=None, using=True, crisp=False, ns=(2, 3), width=0, feats=0, t=2, small=False, symbolic_train=True, make=None, ordinal=False, closed=False, bags=False, symbolic_test=True, y=None, wide=False):
        self.symbolic_test, self.y = symbolic_test, y or {}
        self.name, self.mod, self.cls, self.kw = name, mod, cls, kw or {}
        ns = tuple(ns) + ((4,) if wide else ())
        self.using, self.crisp, self.ns, self.width, self.feats, self.t, self.small = using, crisp, ns, width, feats, t, small
        self.symbolic_train, self.make, self.ordinal, self.closed, self.bags = symbolic_train, make, ordinal, closed, bags

    def labels(self, n, y=None):
        return tuple(y or self.y.get(n) or (self.YSMALL if self.small else self.Y)[n])

    def new(self, e, verbose=None, **over):
        kw = dict(self.kw, **over)
        if verbose is not None:
            kw['verbose'] = verbose
        if self.make:
            return self.make(e, self, kw)
        return getattr(e.mod(self.mod), self.cls)(**kw)

    def cols(self, n):
        return n + self.width

    def train(self, e, tag, n, y=None, symbolic=True):
        """training inputs: examples, labels, predictions"""
        y = self.labels(n, y)
        m = len(y)
        D = dict(y=e.data(y), labels=sorted(set(y)))
        # four classes: concrete training predictions
        symbolic = symbolic and n < 4 and (self.symbolic_train is True or self.symbolic_train == n)
        if self.using:
            D['X'] = index_X(e, m)
            if self.crisp:
                L = D['labels']
                # concrete predictions: mostly right
                D['P'] = e.ints(tag, m, L) if symbolic else e.data([y[i] if i != 1 else L[(L.index(y[i]) + 1) % n] for i in range(m)])
            else:
                D['P'] = e.probs(tag, m, self.cols(n)) if symbolic else e.arr([list(r) for r in self.table(TRAIN_P, n, m)])
        else:
            D['X'] = e.mat(tag, m, self.feats, -3, 2) if symbolic else e.data([r[:self.feats] for r in TRAIN_X[:m]])
        if symbolic:
            self.assumed(e, D, y)
        return D

    def table(self, t, n, m):
        t = t[self.cols(n)]
        return [t[i % len(t)] for i in range(m)]

    def assumed(self, e, D, y):
        """training inputs the family covers"""
        if self.name == 'DeBias':
            c = sum(1 for v in y if v == D['labels'][1]) / len(y)
            e.assume(e.sum([(e.at(D['P'], i, 1) - c) * (e.at(D['P'], i, 1) - c) for i in range(len(y))]) >= 0.01)
        if not self.using and self.cls in ('HDX', 'DFX', 'EoQ', 'REGX'):
            for a in range(self.feats):
                xs = [e.at(D['X'], i, a) for i in range(len(y))]
                e.assume(e.max(*xs) - e.min(*xs) >= 0.01)

    def test(self, e, tag, n, t=None, symbolic=True, labels=None):
        t = t or self.t
        k = int(e.pick(tag + 'rows', [0, 1, 2])) if symbolic and not self.symbolic_test else 0
        symbolic = symbolic and self.symbolic_test
        if self.using:
            if self.crisp:
                P = e.ints(tag, t, labels) if symbolic else e.data([labels[(i + 1) % n] for i in range(t)])
            else:
                P = e.probs(tag, t, self.cols(n)) if symbolic else e.arr([list(r) for r in self.table(TEST_P, n, t + k)[k:]])
            return dict(P=P, X=index_X(e, t))
        return dict(X=e.mat(tag, t, self.feats, -4, 4) if symbolic else e.data([r[:self.feats] for r in (TEST_X * 2)[k:k + t]]))

    def fit(self, e, q, D):
        kw = {}
        if self.bags:
            m = len(D['y'])
            n = len(D['labels'])
            kw = dict(prevalences=e.arr([[1 / n] * 2] * n), indexes=e.data([[(i + j) % m for i in range(2)] for j in range(m)]))
        if self.using:
            return q.fit(D['X'], D['y'], predictions_train=D['P'], **kw)
        return q.fit(D['X'], D['y'], **kw)

    def predict(self, e, q, T):
        """(prevalences, problems posed)"""
        k = e.mark()
        if self.using:
            r = q.predict(T['X'], predictions_test=T['P'])
        else:
            r = q.predict(T['X'])
        return r, e.since(k)


def _based(base, build):
    """a quantifier made of copies of a base quantifier, a new one or the one given as `base`"""
    def make(e, f, kw):
        kw = dict(kw)
        return build(e, kw.pop('base', None) or make.base(e), kw)
    make.base = lambda e: getattr(e.mod(base[0]), base[1])(**base[2])
    return make


def _eoq(strategy, base, **more):
    return _based(base, lambda e, b, kw: e.mod('ensembles.eoq').EoQ(base_quantifier=b, n_quantifiers=2, combination_strategy=strategy, n_bins=2, **dict(more, **kw)))


def _dec(mod, cls, base):
    return _based(base, lambda e, b, kw: getattr(e.mod(mod), cls)(b, **kw))


def _quanty(e, f, kw):
    return e.mod(f.mod).QUANTy(distance=e.mod('metrics.multiclass').l1, **kw)


def _fn(e, f, kw):
    return getattr(e.mod(f.mod), f.cls)(distance=e.mod('metrics.multiclass').l1, tol=0.25, **kw)


def _reg(e, f, kw):
    return getattr(e.mod('multiclass.regression'), f.cls)(bag_generator=fixed_bags(e), n_bins=2, bin_strategy='equal_width', regression_estimator=Weighted(), **kw)


ALL = [
    Family('CC', 'baselines.cc', 'CC', crisp=True, closed=True, wide=True),
    Family('PCC', 'baselines.cc', 'PCC', closed=True, wide=True),
    Family('AC', 'baselines.ac', 'AC', crisp=True, small=True, closed=True, wide=True),
    Family('AC-L1', 'baselines.ac', 'AC', dict(distance='L1'), crisp=True, ns=(3,)),
    Family('PAC', 'baselines.ac', 'PAC', small=True, closed=True, symbolic_train=2),
    Family('PAC-L2', 'baselines.ac', 'PAC', dict(distance='L2'), ns=(3,), symbolic_train=False),
    Family('EM', 'multiclass.em', 'EM', dict(max_iter=2), small=True, closed=True, wide=True),
    Family('DeBias', 'binary.debias', 'DeBias', ns=(2,), closed=True),
    Family('DFy-HD', 'multiclass.df', 'DFy', dict(distance='HD', n_bins=2), small=True),
    Family('DFy-L1', 'multiclass.df', 'DFy', dict(distance='L1', n_bins=2, distribution_function='CDF'), small=True, wide=True),
    Family('DFy-L2', 'multiclass.df', 'DFy', dict(distance='L2', n_bins=2, distribution_function='PDF'), small=True, ns=(2,), t=1, symbolic_train=False),
    Family('DFy-fn', 'multiclass.df', 'DFy', dict(n_bins=3), make=_fn, ns=(2,), symbolic_train=False, symbolic_test=False),
    Family('DFX-fn', 'multiclass.df', 'DFX', dict(n_bins=3), make=_fn, using=False, feats=2, ns=(2,), symbolic_train=False, symbolic_test=False),
    Family('HDy', 'multiclass.df', 'HDy', dict(n_bins=2), small=True, symbolic_train=2),
    Family('MMy', 'multiclass.df', 'MMy', dict(n_bins=2), small=True, symbolic_train=2),
    Family('HDX', 'multiclass.df', 'HDX', dict(n_bins=2), using=False, feats=1, small=True, symbolic_train=2, t=1),
    Family('DFX-L1', 'multiclass.df', 'DFX', dict(distance='L1', n_bins=2, distribution_function='PDF', bin_strategy='equal_width'), using=False, feats=1, small=True, t=1, wide=True),
    Family('EDy', 'multiclass.energy', 'EDy', t=1, symbolic_train=2),
    Family('CvMy', 'multiclass.energy', 'CvMy', t=1, small=True, symbolic_train=2),
    Family('EDX', 'multiclass.energy', 'EDX', using=False, feats=1, t=1, symbolic_train=2),
    Family('Friedman-L2', 'multiclass.friedman', 'FriedmanME', small=True, symbolic_train=False),
    Family('Friedman-L1', 'multiclass.friedman', 'FriedmanME', dict(distance='L1'), small=True, wide=True),
    Family('Friedman-HD', 'multiclass.friedman', 'FriedmanME', dict(distance='HD'), small=True, symbolic_train=2),
    Family('Friedman-fn', 'multiclass.friedman', 'FriedmanME', make=_fn, ns=(2,), symbolic_train=False, symbolic_test=False),
    Family('SORDy', 'binary.emd', 'SORDy', dict(tol=0.25), small=True, ns=(2,), t=1),
    Family('QUANTy', 'binary.quantiles', 'QUANTy', dict(n_quantiles=2, tol=0.25), make=_quanty, ns=(2,), t=2, symbolic_train=False, symbolic_test=False),
    Family('ACOrdinal', 'ordinal.ac_ordinal', 'ACOrdinal', crisp=True, ns=(3,), ordinal=True, wide=True),
    Family('PDF-L2', 'ordinal.pdf', 'PDFOrdinaly', dict(distance='L2', n_bins=2), ns=(3,), ordinal=True, t=1, symbolic_train=False, wide=True),
    Family('PDF-HD', 'ordinal.pdf', 'PDFOrdinaly', dict(distance='HD', n_bins=2), ns=(3,), ordinal=True, t=1),
    Family('PDF-EMD', 'ordinal.pdf', 'PDFOrdinaly', dict(distance='EMD', n_bins=2), ns=(3,), ordinal=True, t=1, wide=True),
    Family('REGy', 'multiclass.regression', 'REGy', make=_reg, closed=True, small=True, symbolic_train=2),
    Family('REGX', 'multiclass.regression', 'REGX', make=_reg, using=False, feats=1, closed=True, symbolic_train=False, wide=True),
    Family('PWK', 'multiclass.knn', 'PWKQuantifier', dict(n_neighbors=2), y={3: (7, 2, 2, 4, 4)}, using=False, feats=2, symbolic_train=False, symbolic_test=False),
    Family('OVR-PCC', 'decomposition.multiclass', 'OneVsRestQuantifier', make=_dec('decomposition.multiclass', 'OneVsRestQuantifier', ('baselines.cc', 'PCC', {})), ns=(3,), closed=True, wide=True),
    Family('OVR-PAC', 'decomposition.multiclass', 'OneVsRestQuantifier', make=_dec('decomposition.multiclass', 'OneVsRestQuantifier', ('baselines.ac', 'PAC', {})), ns=(3,), closed=True, symbolic_train=False),
    Family('FHQ-PCC', 'decomposition.ordinal', 'FrankAndHallQuantifier', make=_dec('decomposition.ordinal', 'FrankAndHallQuantifier', ('baselines.cc', 'PCC', {})), ns=(3,), width=-1, closed=True, ordinal=True, wide=True),
    Family('FHQ-PAC', 'decomposition.ordinal', 'FrankAndHallQuantifier', make=_dec('decomposition.ordinal', 'FrankAndHallQuantifier', ('baselines.ac', 'PAC', {})), ns=(3,), width=-1, closed=True, ordinal=True, symbolic_train=False, wide=True),
    Family('OVR-EDX', 'decomposition.multiclass', 'OneVsRestQuantifier', make=_dec('decomposition.multiclass', 'OneVsRestQuantifier', ('multiclass.energy', 'EDX', {})), using=False, feats=1, ns=(3,), symbolic_train=False, t=1),
    Family('FHQ-EDX', 'decomposition.ordinal', 'FrankAndHallQuantifier', make=_dec('decomposition.ordinal', 'FrankAndHallQuantifier', ('multiclass.energy', 'EDX', {})), using=False, feats=1, ns=(3,), ordinal=True, symbolic_train=False, t=1),
    Family('EoQ-mean', 'ensembles.eoq', 'EoQ', make=_eoq('mean', ('baselines.ac', 'PAC', {})), bags=True, closed=True, symbolic_train=False, ns=(2,)),
    Family('EoQ-median', 'ensembles.eoq', 'EoQ', make=_eoq('median', ('baselines.cc', 'CC', {})), bags=True, closed=True, crisp=True, ns=(2,)),
    Family('EoQ-dist', 'ensembles.eoq', 'EoQ', make=_eoq('distribution_similarity', ('baselines.ac', 'PAC', {}), percentage_of_selected_models=0.5), bags=True, closed=True, symbolic_train=False, ns=(2,)),
    Family('EoQ-EDX', 'ensembles.eoq', 'EoQ', make=_eoq('mean', ('multiclass.energy', 'EDX', {})), using=False, feats=1, bags=True, symbolic_train=False, ns=(2,), t=1),
]
BY = {f.name: f for f in ALL}


def each(pred=lambda f: True, skip=(), **more):
    """configurations: every family with every number of classes"""
    return [dict(fam=f.name, n=n, **more) for f in ALL for n in f.ns if pred(f) and f.name not in skip and (f.name, n) not in skip]
