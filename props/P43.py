"""A test set composed of training examples: its composition is recovered."""
from symq.harness import harness
from props.families import *

BOUNDS = 'adjusted counting, histogram matching, energy, Friedman, sample ordinal, ordinal and neighbour quantifiers of props/families.py (and more distances, bins and bin strategies of them), 2-4 classes; 5-8 training examples, one of them symbolic (its probabilities, crisp prediction or features); test sets that repeat the training examples of each class 0-3 (12) times, in several orders; training sets whose classes hardly differ (scores or features shrunk to 3% and 0.4% of their range, predictions barely better than chance); every candidate prevalence vector as competitor'
OUTSIDE = 'the Hellinger solver on vectors that are not distributions (Friedman with three classes or more: it minimises 1 minus the sum of roots of products, which is the Hellinger distance only when both vectors add up to one); methods that do not promise it: counting without adjustment, EM and debiasing (calibrated scores), quantiles (fractions of examples), regression on bags, decompositions and ensembles (the rest class changes its composition); training data whose classes cannot be told apart (several prevalences explain the test set)'

# training labels and, per class, scores; each row leans to its class
Y = {2: (5, 1, 5, 1, 1), 3: (7, 2, 4, 2, 7, 4), 4: (9, -2, 4, 6, -2, 9, 6, 4)}
P2 = [[.25, .75], [.8, .2], [.1, .9], [.55, .45], [.95, .05]]
P3 = [[.1, .15, .75], [.8, .15, .05], [.2, .6, .2], [.55, .15, .3], [.3, .25, .45], [.1, .75, .15]]
P4 = [[.1, .1, .15, .65], [.7, .1, .1, .1], [.15, .6, .15, .1], [.1, .15, .7, .05], [.55, .25, .1, .1], [.25, .1, .1, .55], [.1, .3, .45, .15], [.2, .55, .05, .2]]
X2 = [[2.1, .3], [.4, 1.9], [2.9, 1.1], [1.3, 2.6], [.2, 3.4]]
X3 = [[4.1, .2], [.3, .9], [2.4, 2.6], [1.1, 1.7], [3.2, 1.2], [1.9, 3.5]]
X4 = [[4.4, .3], [.2, 1.1], [1.5, 3.2], [3.1, 2.2], [.9, .5], [5.2, 1.4], [2.8, 2.9], [1.8, 4.1]]
ROWS = {2: P2, 3: P3, 4: P4}
FEATURES = {2: X2, 3: X3, 4: X4}


def fam(name, mod, cls, kw, **more):
    return Family(name, mod, cls, kw, **more)


def _search(distance):
    return lambda e, f, kw: getattr(e.mod(f.mod), f.cls)(distance=getattr(e.mod('metrics.multiclass'), distance), tol=1e-3, **kw)


MORE = {f.name: f for f in [
    fam('DFy-L2-PDF', 'multiclass.df', 'DFy', dict(distance='L2', n_bins=4, distribution_function='PDF')),
    fam('DFy-L1-4', 'multiclass.df', 'DFy', dict(distance='L1', n_bins=4, distribution_function='PDF')),
    fam('DFy-HD-4', 'multiclass.df', 'DFy', dict(distance='HD', n_bins=4)),
    fam('DFy-count', 'multiclass.df', 'DFy', dict(distance='L2', n_bins=3, bin_strategy='equal_count')),
    fam('DFy-binormal', 'multiclass.df', 'DFy', dict(distance='L1', n_bins=3, bin_strategy='binormal')),
    fam('DFX-L2', 'multiclass.df', 'DFX', dict(distance='L2', n_bins=3), using=False, feats=2),
    fam('DFX-CDF', 'multiclass.df', 'DFX', dict(distance='L1', n_bins=3, distribution_function='CDF'), using=False, feats=2),
    fam('HDX-3', 'multiclass.df', 'HDX', dict(n_bins=3), using=False, feats=2),
    fam('EDX-2', 'multiclass.energy', 'EDX', dict(), using=False, feats=2),
    fam('SORDy-fine', 'binary.emd', 'SORDy', dict(tol=0.01)),
    fam('PDF-L1', 'ordinal.pdf', 'PDFOrdinaly', dict(distance='L1', n_bins=2)),
    fam('DFy-topsoe', 'multiclass.df', 'DFy', dict(n_bins=4), make=_search('topsoe')),
    fam('DFy-probsymm', 'multiclass.df', 'DFy', dict(n_bins=3, distribution_function='CDF'), make=_search('probsymmetric')),
    fam('DFX-l2fn', 'multiclass.df', 'DFX', dict(n_bins=3), make=_search('l2'), using=False, feats=2),
    fam('Friedman-l1fn', 'multiclass.friedman', 'FriedmanME', {}, make=_search('l1')),
    fam('PWK-3', 'multiclass.knn', 'PWKQuantifier', dict(n_neighbors=3), using=False, feats=2),
]}


def of(name):
    return MORE.get(name) or BY[name]


def training(e, f, n, free):
    """training data with one symbolic example"""
    y = Y[n]
    m, L = len(y), sorted(set(y))
    D = dict(y=e.data(y), labels=L)
    if not f.using:
        rows = [r[:f.feats] for r in FEATURES[n]]
        if free is not None:
            rows[free] = [e.real('x%d' % j, rows[free][j] - .3, rows[free][j] + .3) for j in range(f.feats)]
        D['X'] = e.arr(rows)
        return D
    D['X'] = index_X(e, m)
    if f.crisp:
        # the last example is wrong, the symbolic one may be
        pred = [v if i != m - 1 else L[-1] for i, v in enumerate(y)]
        if free is not None:
            pred[free] = e.pick('c', L)
        D['P'] = e.data(pred)
        return D
    rows = [list(r) for r in ROWS[n]]
    if free is not None:
        # any prediction that leans to the class of the example
        c = L.index(y[free])
        r = e.flat(e.simplex('p', n))
        for j in range(n):
            if j != c:
                e.assume(r[c] >= r[j] + 0.2)
        rows[free] = list(r)
    D['P'] = e.arr(rows)
    return D


def composed(e, f, D, y, times, turn):
    """the examples of class k `times[k]` times each"""
    L = D['labels']
    idx = [i for rep in range(max(times)) for i in range(len(y)) if times[L.index(y[i])] > rep]
    idx = idx[turn:] + idx[:turn] if turn >= 0 else idx[::-1]
    p = [sum(1 for i in idx if y[i] == l) / len(idx) for l in L]
    idx = np.array(idx)
    T = dict(X=D['X'][idx])
    if 'P' in D:
        T['P'] = D['P'][idx]
    return T, p


SEARCHED = ('DFy-topsoe', 'DFy-probsymm', 'DFX-l2fn', 'Friedman-l1fn')
ALL_OF = ('AC', 'PAC', 'DFy-HD-4', 'DFy-L1-4', 'DFy-L2-PDF', 'MMy', 'HDy', 'EDy', 'CvMy', 'Friedman-L1', 'Friedman-L2', 'Friedman-HD', 'DFX-L2', 'DFX-CDF', 'HDX-3', 'EDX', 'SORDy-fine', 'ACOrdinal', 'PDF-HD', 'PDF-L1', 'PDF-EMD', 'PDF-L2', 'PWK-3', 'DFy-count', 'DFy-binormal') + SEARCHED
BINARY = SEARCHED + ('SORDy-fine', 'DFy-binormal', 'DFy-HD-4', 'HDy', 'Friedman-HD')
# one symbolic example is out of reach: neighbours, many roots, square matrices of symbolic entries
GIVEN = SEARCHED + ('PWK-3', 'HDX-3', 'DFy-HD-4', 'DFX-L2') + tuple((f, 3) for f in ('PAC', 'DFy-HD', 'HDX', 'EDy', 'CvMy', 'EDX', 'DFy-count', 'PDF-HD'))


def offered(name, n):
    return name not in BINARY if n > 2 else not of(name).ordinal and not name.startswith('PDF')


def solved(e, name, n, times, turn, free):
    f = of(name)
    y = Y[n]
    D = training(e, f, n, free)
    T, p = composed(e, f, D, y, times, turn)
    q = f.new(e)
    f.fit(e, q, D)
    r, k = f.predict(e, q, T)
    e.recovers('composition', r, k, p, n, tol=0.01 if name == 'SORDy-fine' else 2e-3)


@harness('P43', [dict(name=f, n=n, times=t) for n, ts in ((2, ((1, 3), (2, 1))), (3, ((1, 2, 3), (2, 0, 1), (1, 12, 1))), (4, ((2, 1, 0, 3),))) for t in ts for f in ALL_OF if offered(f, n) and (f, t) != ('HDX-3', (1, 12, 1))], limit=60)
def recovered(e, name, n, times):
    """given training examples, every other prevalence vector"""
    solved(e, name, n, times, -1, None)


@harness('P43', [dict(name=f, n=n, times=t, free=i) for n, t, i in ((2, (1, 2), 0), (3, (2, 1, 1), 1)) for f in ALL_OF + ('HDX', 'DFy-HD') if offered(f, n) and f not in GIVEN and (f, n) not in GIVEN], limit=60)
def one_free(e, name, n, times, free):
    """one symbolic training example"""
    solved(e, name, n, times, 2, free)


WEAK = ('PAC', 'AC', 'DFy-count', 'SORDy-fine', 'ACOrdinal', 'DFX-L2', 'DFX-CDF', 'HDX-3')


@harness('P43', [dict(name=f, n=n, times=t, by=b) for n, t in ((2, (1, 3)), (3, (1, 0, 2))) for b in (0.03, 0.004) for f in WEAK if offered(f, n) and not (of(f).crisp and b < 0.03) and (f, n) != ('HDX-3', 3)], limit=60)
def weak(e, name, n, times, by):
    """classes that hardly differ: scores close to their mean, predictions that are often wrong, features of a narrow range"""
    f = of(name)
    y = Y[n]
    if f.crisp:
        # the true positive rate is a little above the false positive rate
        L = sorted(set(y))
        y = [c for c in L for _ in range(8)]
        hits = {2: (4, 5), 3: (4, 5, 4)}[n]
        pred = []
        for k, c in enumerate(L):
            rest = [o for o in L if o != c]
            pred += [c] * hits[k] + [rest[j % len(rest)] for j in range(8 - hits[k])]
        D = dict(y=e.data(y), labels=L, X=index_X(e, len(y)), P=e.data(pred))
    else:
        D = training(e, f, n, None)
        k = 'P' if 'P' in D else 'X'
        rows = np.array({'P': ROWS, 'X': FEATURES}[k][n])
        if k == 'X':
            rows = rows[:, :f.feats]
        D[k] = e.arr((rows.mean(axis=0) + by * (rows - rows.mean(axis=0))).tolist())
    T, p = composed(e, f, D, y, times, 1)
    q = f.new(e)
    f.fit(e, q, D)
    r, k = f.predict(e, q, T)
    e.recovers('composition', r, k, p, n, tol=0.012 if name == 'SORDy-fine' else 2e-3)
