"""Helpers shared by the harnesses."""
import numpy as np
from sklearn.base import BaseEstimator
from sklearn.exceptions import NotFittedError


class Shared:
    """mixin: copies are the same object (the harness looks at it afterwards)"""

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


class SharedList(Shared, list):
    pass


class SharedDict(Shared, dict):
    pass


class TableEstimator(BaseEstimator):
    """A classifier whose outputs are given by a table indexed by the first column of X.

    proba: table of probability rows; labels: table of labels (or None: most probable class). `log` records fit calls."""

    def __init__(self, proba=None, labels=None, fitted=True, log=None, classes=None):
        self.proba, self.labels, self.fitted, self.log, self.classes = proba, labels, fitted, log, classes

    def __deepcopy__(self, memo):
        t = TableEstimator(self.proba, self.labels, self.fitted, self.log, self.classes)
        return t

    def fit(self, X, y):
        if self.log is not None:
            self.log.append((X, y))
        self.fitted = True
        if self.classes is not None:
            self.classes_ = self.classes
        return self

    def rows(self, X):
        if not self.fitted:
            raise NotFittedError('not fitted')
        return [int(v) for v in np.asarray(X[:, 0]).reshape(-1)]

    def predict_proba(self, X):
        r = self.rows(X)
        return self.proba[np.array(r)]

    def predict(self, X):
        r = self.rows(X)
        if self.labels is None:
            return np.zeros(len(r))
        return self.labels[np.array(r)]


def index_X(e, n, first=0, extra=0):
    """concrete examples whose first column is their row number in the tables"""
    return e.data([[float(first + i)] + [0.5] * extra for i in range(n)])


def argmax_is(e, row, k):
    """condition: k is the (first) position of the largest value of the row"""
    cs = []
    for j, v in enumerate(row):
        if j < k:
            cs.append(row[k] > v)
        elif j > k:
            cs.append(row[k] >= v)
    return e.and_(*cs) if cs else True


def crisp_freq(e, rows, n_classes):
    """fraction of rows whose most probable class is k, for each k"""
    rows = list(rows)
    return [e.sum([e.ind(argmax_is(e, e.flat(r), k)) for r in rows]) / len(rows) for k in range(n_classes)]


LABELS = {2: ((0, 1), (-1, 1), (3, 7)), 3: ((0, 1, 2), (1, 5, 9), (-4, 0, 2)), 4: ((0, 1, 2, 3), (2, 3, 5, 11))}

# family: (module, class, keyword arguments, crisp predictions, allowed numbers of classes)
FAM = {
    'CC': ('baselines.cc', 'CC', {}, True, (2, 3)),
    'PCC': ('baselines.cc', 'PCC', {}, False, (2, 3)),
    'AC': ('baselines.ac', 'AC', {}, True, (2, 3)),
    'PAC': ('baselines.ac', 'PAC', {}, False, (2, 3)),
    'EM': ('multiclass.em', 'EM', dict(max_iter=2), False, (2, 3)),
    'DeBias': ('binary.debias', 'DeBias', {}, False, (2,)),
    'DFy-HD': ('multiclass.df', 'DFy', dict(distance='HD', n_bins=2), False, (2, 3)),
    'DFy-L2': ('multiclass.df', 'DFy', dict(distance='L2', n_bins=2, distribution_function='PDF'), False, (2, 3)),
    'DFy-L1': ('multiclass.df', 'DFy', dict(distance='L1', n_bins=3, distribution_function='CDF'), False, (2, 3)),
    'HDy': ('multiclass.df', 'HDy', dict(n_bins=2), False, (2, 3)),
    'MMy': ('multiclass.df', 'MMy', dict(n_bins=2), False, (2, 3)),
    'EDy': ('multiclass.energy', 'EDy', {}, False, (2, 3)),
    'CvMy': ('multiclass.energy', 'CvMy', {}, False, (2, 3)),
    'Friedman-L2': ('multiclass.friedman', 'FriedmanME', {}, False, (2, 3)),
    'Friedman-L1': ('multiclass.friedman', 'FriedmanME', dict(distance='L1'), False, (2, 3)),
    'Friedman-HD': ('multiclass.friedman', 'FriedmanME', dict(distance='HD'), False, (2, 3)),
    'SORDy': ('binary.emd', 'SORDy', dict(tol=0.5), False, (2,)),
    'ACOrdinal': ('ordinal.ac_ordinal', 'ACOrdinal', {}, True, (3,)),
    'PDF-L2': ('ordinal.pdf', 'PDFOrdinaly', dict(distance='L2', n_bins=2), False, (3,)),
    'PDF-HD': ('ordinal.pdf', 'PDFOrdinaly', dict(distance='HD', n_bins=2), False, (3,)),
    'PDF-EMD': ('ordinal.pdf', 'PDFOrdinaly', dict(distance='EMD', n_bins=2), False, (3,)),
}


def make(e, fam, **kw):
    mod, cls, args, _, _ = FAM[fam]
    return getattr(e.mod(mod), cls)(**dict(args, **kw))


def preds(e, fam, name, m, n, labels=None):
    """symbolic predictions of the kind the family takes: probability rows, or labels for crisp families"""
    if FAM[fam][3] and labels is not None:
        return e.ints(name, m, labels)
    return e.probs(name, m, n)


def run(e, q, test):
    """(prevalences, problems posed) of one prediction"""
    k = e.mark()
    r = q.predict(None, predictions_test=test)
    return r, e.since(k)


def covered(e, fam, P, y, labels):
    """assume the training statistics the family divides by are not degenerate"""
    if fam == 'DeBias':
        c = sum(1 for v in y if v == labels[1]) / len(y)
        e.assume(e.sum([(e.at(P, i, 1) - c) * (e.at(P, i, 1) - c) for i in range(len(P))]) >= 0.01)


# ---- histograms
def fractions(e, xs, cuts):
    """fraction of the values in each bin [c_b, c_b+1)"""
    xs = list(xs)
    k = len(cuts) - 1
    out = []
    for b in range(k):
        cs = []
        for x in xs:
            c = []
            if b > 0:
                c.append(x >= cuts[b])
            if b < k - 1:
                c.append(x < cuts[b + 1])
            cs.append(e.ind(e.and_(*c)) if c else 1)
        out.append(e.sum(cs) / len(xs))
    return out


def cum(xs):
    out, s = [], 0
    for x in xs:
        s = s + x
        out.append(s)
    return out


def mixture_loss(e, distance, cols, test):
    """distance between the mixture of the columns and the test vector, as a function of the prevalences"""
    def f(z):
        mix = [e.sum([c[i] * p for c, p in zip(cols, z)]) for i in range(len(test))]
        if distance == 'L1':
            return e.sum([e.abs(a - b) for a, b in zip(mix, test)])
        if distance == 'L2':
            return e.sum([(a - b) * (a - b) for a, b in zip(mix, test)])
        return 1 - e.sum([e.sqrt(a * b) for a, b in zip(mix, test)])
    return f


class BinaryModels(BaseEstimator):
    """A binary base estimator. The model it becomes is decided by the labels it is fitted on: `tables` maps the tuple of
    binary labels of the training rows (row number = first column of X) to the table of probability rows of that model."""

    def __init__(self, tables=None, log=None, param=0):
        self.tables, self.log, self.param = tables, log, param

    def __deepcopy__(self, memo):
        b = BinaryModels(self.tables, self.log, self.param)
        if hasattr(self, 'table_'):
            b.table_ = self.table_
        return b

    def fit(self, X, y, **kw):
        rows = [int(v) for v in np.asarray(X[:, 0]).reshape(-1)]
        labels = [int(v) for v in np.asarray(y).reshape(-1)]
        key = tuple(sorted(zip(rows, labels)))
        self.classes_ = np.unique(labels)
        self.key_ = key
        if self.log is not None:
            self.log.append((key, self.param))
        if key not in self.tables:
            raise AssertionError('a binary model was trained on unexpected labels %r' % (key,))
        self.table_ = self.tables[key]
        return self

    def predict_proba(self, X):
        if not hasattr(self, 'table_'):
            raise NotFittedError('not fitted')
        return self.table_[np.array([int(v) for v in np.asarray(X[:, 0]).reshape(-1)])]

    def predict(self, X):
        if not hasattr(self, 'table_'):
            raise NotFittedError('not fitted')
        return np.zeros(len(X), dtype=int)


def ordered_keys(y):
    """the labels of the i-th ordinal binary problem (1: class i or lower), as keys of BinaryModels"""
    cl = sorted(set(y))
    return [tuple((r, int(v <= c)) for r, v in enumerate(y)) for c in cl[:-1]]


def two_columns(e, name, m):
    """probability rows of a binary model"""
    return e.probs(name, m, 2)


def running(e, v):
    """average of the running maximum and the backward running minimum"""
    v = list(v)
    up, lo = [v[0]], [v[-1]]
    for x in v[1:]:
        up.append(e.max(up[-1], x))
    for x in reversed(v[:-1]):
        lo.insert(0, e.min(lo[0], x))
    return [(a + b) / 2 for a, b in zip(up, lo)]


def argmin_is(e, row, k):
    cs = [row[k] < v if j < k else row[k] <= v for j, v in enumerate(row) if j != k]
    return e.and_(*cs) if cs else True


def binary_quantifier(e, answers, using=True, log=None, crisp=False):
    """A base quantifier for decompositions. Fitted on a binary labelling it answers the value that `answers` gives for it (key as in
    BinaryModels; rows are identified by the first column of X), as prevalence of the positive class 1."""
    base = e.mod('base')
    parent = base.UsingClassifiers if using else base.WithoutClassifiers
    log = SharedList() if log is None else log

    class Stub(parent):
        def __init__(self, estimator_train=None, estimator_test=None, setting=0):
            if using:
                super().__init__(estimator_train=estimator_train, estimator_test=estimator_test, probabilistic_predictions=not crisp)
            else:
                super().__init__()
            self.setting = setting

        def fit(self, X, y, predictions_train=None):
            if using:
                super().fit(X, y, predictions_train=predictions_train)
            else:
                super().fit(X, y)
            self.key_ = tuple(sorted((int(r), int(v)) for r, v in zip(np.asarray(X[:, 0]).reshape(-1), np.asarray(y).reshape(-1))))
            log.append(('fit', self.key_, self.setting, self.predictions_train_ if using else None))
            return self

        def predict(self, X, predictions_test=None):
            if using:
                super().predict(X, predictions_test=predictions_test)
            log.append(('predict', self.key_, self.setting, self.predictions_test_ if using else X))
            if self.key_ not in answers:
                raise AssertionError('a base quantifier was fitted on unexpected labels %r' % (self.key_,))
            v = answers[self.key_]
            return e.arr([1 - v, v])
    return Stub, log


def row(i, n):
    """a given row of n probabilities (eighths, sixteenths, ..: exact in binary64)"""
    w = [(1 + 5 * i + 3 * c + i * c) % 7 + 1 for c in range(n)]
    den = 8
    while den < sum(w):
        den *= 2
    w[(2 * i) % n] += den - sum(w)
    return [v / den for v in w]


def mixed_probs(e, tag, m, n, free, lo=0):
    """m rows of n probabilities: those in `free` symbolic, the others given"""
    return e.arr([list(e.flat(e.simplex('%s%d_' % (tag, i), n, lo))) if i in free else row(i, n) for i in range(m)])


def mixed_labels(e, tag, given, labels, free):
    """the given labels, those at `free` symbolic"""
    return e.arr([e.int('%s%d' % (tag, i), labels) if i in free else v for i, v in enumerate(given)], 'i')
