"""Combination of the members of an ensemble of quantifiers."""
from symq.harness import harness
from props.common import *

BOUNDS = '2-4 members (5 thorough), 2-3 classes, every answer of every member; selected fractions 0.1-1; distribution similarity with concrete training bags and every test set of 1-3 examples, PDF and CDF, 2-3 bins, euclidean and cityblock distances, one or two descriptors; members whose differences or distances are closer than 0.001 are excluded from the selection checks; 4-6 members (9 thorough) over 7-8 examples with up to 4 classes, given but for one answer and one test value; objects fitted three times with two test sets each'
OUTSIDE = 'a single member; the tie-breaking rule of the selection; larger ensembles and bags; symbolic training bags (the cut points would be symbolic too; they are decided in P13)'


def members(e, n_members, n):
    return [e.simplex('m%d_' % i, n) for i in range(n_members)]


def bag_matrix(e, n_members, size=2):
    """concrete bags, all different"""
    return e.data([[(i + j * (i + 1)) % 5 for i in range(n_members)] for j in range(size)])


class Bags:
    """concrete training set of five examples and the base quantifier whose member of bag i answers the i-th vector"""

    def __init__(self, e, answers, using=True, n=2, crisp=False):
        base = e.mod('base')
        parent = base.UsingClassifiers if using else base.WithoutClassifiers
        box = SharedList()

        class Member(parent):
            def __init__(self):
                if using:
                    super().__init__(probabilistic_predictions=not crisp)
                else:
                    super().__init__()

            def fit(self, X, y, predictions_train=None):
                self.number_ = len(box)
                box.append((X, y, predictions_train))
                return self

            def predict(self, X, predictions_test=None):
                return answers[self.number_]
        self.base = Member()
        self.log = box
        self.n = n
        self.y = [0, 1, 0, 1, 1] if n == 2 else [0, 1, 2, 1, 2]


def ensemble(e, n_members, base, strategy, **kw):
    return e.mod('ensembles.eoq').EoQ(base_quantifier=base, n_quantifiers=n_members, combination_strategy=strategy, **kw)


P2 = [[.9, .1], [.2, .8], [.7, .3], [.4, .6], [.1, .9]]
P3 = [[.7, .2, .1], [.2, .5, .3], [.1, .1, .8], [.3, .6, .1], [.25, .3, .45]]


def fitted(e, strategy, n_members, n, using=True, idx=None, **kw):
    M = members(e, n_members, n)
    b = Bags(e, M, using, n)
    q = ensemble(e, n_members, b.base, strategy, **dict(dict(n_bins=2), **kw))
    idx = bag_matrix(e, n_members) if idx is None else e.data(idx)
    prev = e.arr([[1 / n] * n_members] * n)
    X = e.data([[0.1, 5.0], [0.3, 4.0], [0.5, 3.0], [0.8, 1.0], [1.0, 2.0]])
    if using:
        q.fit(X, e.data(b.y), predictions_train=e.arr(P2 if n == 2 else P3), prevalences=prev, indexes=idx)
    else:
        q.fit(X, e.data(b.y), prevalences=prev, indexes=idx)
    return q, M, idx


def answer(e, q, n, using=True):
    if using:
        return q.predict(None, predictions_test=e.arr((P2 if n == 2 else P3)[:2]))
    return q.predict(e.data([[0.2, 2.0], [0.9, 3.0]]))


def mean_of(e, M, n):
    return [e.sum([e.at(m, c) for m in M]) / len(M) for c in range(n)]


def median_of(e, M, n):
    out = []
    for c in range(n):
        v = [e.at(m, c) for m in M]
        for i in range(len(v)):
            for j in range(len(v) - 1 - i):
                v[j], v[j + 1] = e.min(v[j], v[j + 1]), e.max(v[j], v[j + 1])
        k = len(v) // 2
        out.append(v[k] if len(v) % 2 else (v[k - 1] + v[k]) / 2)
    return out


def selected(e, M, scores, k, n):
    """mean of the k members with the smallest scores"""
    ranks = [e.sum([e.ind(scores[j] < s) for j in range(len(M)) if j != i]) for i, s in enumerate(scores)]
    w = [e.ind(r < k) for r in ranks]
    return [e.sum([w[i] * e.at(m, c) for i, m in enumerate(M)]) / k for c in range(n)]


def apart(e, scores):
    for i in range(len(scores)):
        for j in range(i):
            e.assume(e.abs(scores[i] - scores[j]) >= 0.001)


def differences(e, M, n):
    p = mean_of(e, M, n)
    return [e.mean([e.abs(e.at(m, c) - p[c]) for c in range(n)]) for m in M]


def chosen(k, pct):
    return max(1, round(k * pct))


@harness('P28', [dict(k=2, n=2), dict(k=3, n=2, using=False), dict(k=4, n=3), dict(k=3, n=3)], more=[dict(k=5, n=4)])
def mean(e, k, n, using=True):
    q, M, _ = fitted(e, 'mean', k, n if n < 4 else 3, using)
    n = min(n, 3)
    r = answer(e, q, n, using)
    e.eq('mean', r, mean_of(e, M, n))
    e.distribution('mean', r, n)


@harness('P28', [dict(k=2, n=2), dict(k=3, n=2, using=False), dict(k=3, n=3), dict(k=4, n=2)], more=[dict(k=4, n=3), dict(k=5, n=2)], limit=90)
def median(e, k, n, using=True):
    q, M, _ = fitted(e, 'median', k, n, using)
    r = answer(e, q, n, using)
    m = median_of(e, M, n)
    s = e.sum(m)
    e.true('length', len(e.flat(r)) == n)
    for c in range(n):
        e.eq('median %d' % c, e.at(r, c) * s, e.ite(s > 0, m[c], 0))
    e.distribution('median', r, n)


@harness('P28', [dict(k=2, n=2, pct=0.5), dict(k=3, n=2, pct=0.5, using=False), dict(k=3, n=2, pct=0.3), dict(k=3, n=3, pct=0.67), dict(k=2, n=3, pct=0.1), dict(k=4, n=2, pct=0.75)],
         more=[dict(k=4, n=2, pct=0.5), dict(k=4, n=3, pct=0.25), dict(k=3, n=3, pct=1.0)], limit=90)
def prevalence_similarity(e, k, n, pct, using=True):
    q, M, _ = fitted(e, 'prevalence_similarity', k, n, using, percentage_of_selected_models=pct)
    d = differences(e, M, n)
    if k > 2:
        apart(e, d)
    r = answer(e, q, n, using)
    if k > 2:
        e.eq('mean of the most similar', r, selected(e, M, d, chosen(k, pct), n))
    elif chosen(k, pct) == 1:
        e.true('one of the two members', e.or_(*[e.and_(*[e.abs(e.at(r, c) - e.at(m, c)) <= 1e-9 for c in range(n)]) for m in M]))
    e.distribution('prevalences', r, n)


def hist(e, v, cuts, cdf):
    """fractions per bin; the last bin is closed"""
    v, out = list(v), []
    for b in range(len(cuts) - 1):
        out.append(e.sum([e.ind(e.and_(x >= cuts[b], (x <= cuts[b + 1]) if b == len(cuts) - 2 else (x < cuts[b + 1]))) for x in v]) / len(v))
    return cum(out) if cdf else out


def distance(e, name, a, b):
    if name == 'cityblock':
        return e.sum([e.abs(x - y) for x, y in zip(a, b)])
    return e.sum([(x - y) * (x - y) for x, y in zip(a, b)])


def cuts_of(e, col, y, n, bins, strategy):
    c = e.mod('multiclass.df').compute_bincuts(x=e.arr(col), y=e.data(y), classes=e.data(list(range(n))), n_bins=bins, bin_strategy=strategy)
    return [v for v in e.flat(c)]


IDX = {2: [[0, 1], [2, 4], [0, 3]], 3: [[0, 1, 0], [2, 4, 3], [1, 3, 4], [2, 3, 1]]}
PICK = {2: IDX[2], 3: IDX[3]}


@harness('P28', [dict(k=2, t=2, distance='euclidean'), dict(k=3, t=2, distance='cityblock'), dict(k=3, t=3, distance='euclidean', function='CDF'), dict(k=3, t=2, distance='cityblock', function='CDF', pct=0.67),
                 dict(k=3, t=2, distance='euclidean', bins=3, strategy='equal_count', pct=0.1), dict(k=2, t=1, distance='cityblock', n=3, pct=0.5), dict(k=3, t=2, distance='cityblock', strategy='normal'), dict(k=3, t=1, distance='cityblock', n=3, function='CDF', bins=3), dict(k=3, t=2, distance='euclidean', function='CDF', bins=3)],
         more=[dict(k=3, t=3, distance='euclidean', bins=3), dict(k=3, t=2, distance='cityblock', n=3, function='CDF')], limit=90)
def distribution_similarity(e, k, t, distance, n=2, function='PDF', bins=2, strategy='equal_width', pct=0.4):
    """members that use predictions"""
    table = P2 if n == 2 else P3
    q, M, idx = fitted(e, 'distribution_similarity', k, n, True, IDX[k], n_bins=bins, bin_strategy=strategy, distribution_function=function, distance_bags=distance, percentage_of_selected_models=pct)
    y = [0, 1, 0, 1, 1] if n == 2 else [0, 1, 2, 1, 2]
    T = e.probs('t', t, n)
    test, train = [], [[] for _ in range(k)]
    for c in range(1 if n == 2 else n):
        cuts = cuts_of(e, [r[c] for r in table], y, n, bins, strategy)
        test += hist(e, [e.at(T, j, c) for j in range(t)], cuts, function == 'CDF')
        for i in range(k):
            train[i] += hist(e, [table[row[i]][c] for row in IDX[k]], cuts, function == 'CDF')
    check_similarity(e, q.predict(None, predictions_test=T), M, [globals()['distance'](e, distance, test, h) for h in train], k, n, pct)


def check_similarity(e, r, M, d, k, n, pct):
    apart(e, d)
    e.eq('mean of the members of the most similar bags', r, selected(e, M, d, chosen(k, pct), n))
    e.distribution('prevalences', r, n)


def member_tables(table, k):
    """predictions of k classifiers: rows of the table in other orders"""
    m = len(table)
    return [[[table[(j + i) % m][c] for c in range(len(table[0]))] for i in range(k)] for j in range(m)]


@harness('P28', [dict(k=3, t=2, distance='cityblock', by_model=True, bins=3), dict(k=3, t=1, distance='euclidean', by_model=True, bins=3, function='CDF', pct=0.67), dict(k=2, t=1, distance='cityblock', n=3, by_model=True, pct=0.5),
                 dict(k=3, t=2, distance='cityblock', repeats=2), dict(k=3, t=2, distance='euclidean', repeats=3, function='CDF', bins=3)],
         more=[dict(k=3, t=2, distance='euclidean', n=3, repeats=2), dict(k=3, t=2, distance='cityblock', n=3, by_model=True)], limit=90)
def distribution_similarity_ensemble(e, k, t, distance, n=2, function='PDF', bins=2, strategy='equal_width', pct=0.4, by_model=False, repeats=1):
    """members with predictions of their own classifier (their mean describes a bag) or with repeated training predictions"""
    table = P2 if n == 2 else P3
    m = len(table)
    M = members(e, k, n)
    b = Bags(e, M, True, n)
    q = ensemble(e, k, b.base, 'distribution_similarity', n_bins=bins, bin_strategy=strategy, distribution_function=function, distance_bags=distance, percentage_of_selected_models=pct)
    idx = e.data(IDX[k])
    X = e.data([[0.1, 5.0], [0.3, 4.0], [0.5, 3.0], [0.8, 1.0], [1.0, 2.0]])
    if by_model:
        P = member_tables(table, k)
        rows = [[sum(P[j][i][c] for i in range(k)) / k for c in range(n)] for j in range(m)]
        T = [e.probs('t%d_' % i, t, n) for i in range(k)]
        given = e.arr([[[e.at(T[i], j, c) for c in range(n)] for i in range(k)] for j in range(t)])
        asked = [[e.sum([e.at(T[i], j, c) for i in range(k)]) / k for c in range(n)] for j in range(t)]
    else:
        # the r-th repetition follows the whole previous one
        P = [table[(j + r) % m] for r in range(repeats) for j in range(m)]
        rows = P
        given = e.probs('t', t, n)
        asked = [[e.at(given, j, c) for c in range(n)] for j in range(t)]
    q.fit(X, e.data(b.y), predictions_train=e.arr(P), prevalences=e.arr([[1 / n] * k] * n), indexes=idx)
    test, train = [], [[] for _ in range(k)]
    for c in range(1 if n == 2 else n):
        cuts = cuts_of(e, [r[c] for r in rows], b.y * repeats, n, bins, strategy)
        test += hist(e, [r[c] for r in asked], cuts, function == 'CDF')
        for i in range(k):
            train[i] += hist(e, [rows[row[i] + m * r][c] for r in range(repeats) for row in IDX[k]], cuts, function == 'CDF')
    check_similarity(e, q.predict(None, predictions_test=given), M, [globals()['distance'](e, distance, test, h) for h in train], k, n, pct)


FEAT = [[0.1, 5.0], [0.3, 4.0], [0.5, 3.0], [0.8, 1.0], [1.0, 2.0]]


@harness('P28', [dict(k=2, t=2, distance='euclidean'), dict(k=3, t=1, distance='cityblock', function='CDF'), dict(k=3, t=2, distance='euclidean', function='CDF', pct=0.67), dict(k=3, t=1, distance='cityblock', bins=3, strategy='equal_count'), dict(k=3, t=1, distance='cityblock', bins=3, function='CDF')],
         more=[dict(k=3, t=2, distance='euclidean', bins=3, function='CDF'), dict(k=3, t=2, distance='cityblock', bins=3), dict(k=3, t=2, distance='cityblock', bins=4, function='CDF')], limit=90)
def distribution_similarity_features(e, k, t, distance, n=2, function='PDF', bins=2, strategy='equal_width', pct=0.4):
    """members that use the features"""
    q, M, idx = fitted(e, 'distribution_similarity', k, n, False, IDX[k], n_bins=bins, bin_strategy=strategy, distribution_function=function, distance_bags=distance, percentage_of_selected_models=pct)
    T = e.mat('t', t, 2, lo=-1, hi=6)
    test, train = [], [[] for _ in range(k)]
    for c in range(2):
        cuts = cuts_of(e, [r[c] for r in FEAT], [0, 1, 0, 1, 1], n, bins, strategy)
        test += hist(e, [e.at(T, j, c) for j in range(t)], cuts, function == 'CDF')
        for i in range(k):
            train[i] += hist(e, [FEAT[row[i]][c] for row in IDX[k]], cuts, function == 'CDF')
    check_similarity(e, q.predict(T), M, [globals()['distance'](e, distance, test, h) for h in train], k, n, pct)


@harness('P28', [dict(k=2, n=2), dict(k=3, n=2, function='CDF')], more=[dict(k=3, n=2)], limit=90)
def all_strategies(e, k, n, function='PDF'):
    pct = 0.4
    table = P2
    q, M, idx = fitted(e, 'all', k, n, True, IDX[k], distribution_function=function, percentage_of_selected_models=pct)
    s = e.sum(median_of(e, M, n))
    e.assume(s >= 0.01)
    pd = differences(e, M, n)
    if k > 2:
        apart(e, pd)
    T = e.probs('t', 2, n)
    cuts = cuts_of(e, [r[0] for r in table], [0, 1, 0, 1, 1], n, 2, 'equal_width')
    test = hist(e, [e.at(T, j, 0) for j in range(2)], cuts, function == 'CDF')
    d = [distance(e, 'euclidean', test, hist(e, [table[row[i]][0] for row in IDX[k]], cuts, function == 'CDF')) for i in range(k)]
    apart(e, d)
    r = q.predict(None, predictions_test=T)
    e.true('every strategy is returned', sorted(r) == ['all', 'distribution_similarity', 'mean', 'median', 'prevalence_similarity'])
    e.eq('mean', r['mean'], mean_of(e, M, n))
    m = median_of(e, M, n)
    for c in range(n):
        e.eq('median %d' % c, e.at(r['median'], c) * s, m[c])
    if k > 2:
        e.eq('prevalence similarity', r['prevalence_similarity'], selected(e, M, pd, chosen(k, pct), n))
    e.eq('distribution similarity', r['distribution_similarity'], selected(e, M, d, chosen(k, pct), n))
    e.eq('their mean', r['all'], [e.sum([e.at(r[x], c) for x in ('mean', 'median', 'prevalence_similarity', 'distribution_similarity')]) / 4 for c in range(n)])
    for x in r:
        e.distribution(x, r[x], n)


@harness('P28', [dict(strategy=s) for s in ('mean', 'prevalence_similarity')] + [dict(strategy='median')])
def repeated(e, strategy):
    """a second prediction does not depend on the first"""
    q, M, _ = fitted(e, strategy, 3, 2)
    apart(e, differences(e, M, 2))
    a = answer(e, q, 2)
    s = e.snap(a)
    b = answer(e, q, 2)
    e.eq('again', b, [v for v in s])
    for i, m in enumerate(M):
        e.unchanged('answer of member %d unchanged' % i, m, e.snap(m))


@harness('P28', [dict()])
def misuse(e):
    E = e.mod('ensembles.eoq').EoQ
    e.raises('not a quantifier', lambda: E(base_quantifier=object()).fit(index_X(e, 2), e.data((0, 1))), ValueError)
    b = Bags(e, [e.arr([.5, .5])] * 2)
    X, y = index_X(e, 2), e.data((0, 1))
    kw = dict(prevalences=e.arr([[.5, .5]] * 2), indexes=e.data([[0, 1], [1, 0]]))
    e.raises('nothing for training', lambda: ensemble(e, 2, b.base, 'mean').fit(X, y, **kw), ValueError)
    e.raises('invalid bag generator', lambda: ensemble(e, 2, b.base, 'mean', bag_generator=3).fit(X, y, predictions_train=e.arr([[.5, .5]] * 2)), ValueError)
    q = ensemble(e, 2, b.base, 'mean').fit(X, y, predictions_train=e.arr([[.5, .5], [.2, .8]]), **kw)
    e.raises('nothing for test', lambda: q.predict(X), ValueError)
    c = Bags(e, [e.arr([.5, .5])] * 2, crisp=True)
    q = ensemble(e, 2, c.base, 'distribution_similarity').fit(X, y, predictions_train=e.data([0, 1]), **kw)
    e.raises('distributions of crisp predictions', lambda: q.predict(None, predictions_test=e.data([0, 1])), ValueError)


def given_members(e, tag, k, n, free):
    return [e.simplex('%s%d_' % (tag, i), n) if i in free else e.arr(row(i + len(tag), n)) for i in range(k)]


FEATURES = [[0.1, 5.0], [0.3, 4.0], [0.5, 3.0], [0.8, 1.0], [1.0, 2.0], [0.25, 4.5], [0.75, 0.5], [0.6, 3.5]]


def solved(e, make, strategy, k, y, t, tag, free, using=True, distance='euclidean', function='PDF', bins=2, pct=0.4, size=4, bin_strategy='equal_width'):
    """fit on given predictions (or features) with answers of the members, those in `free` symbolic; two test sets"""
    labels = sorted(set(y))
    n, m = len(labels), len(y)
    M = given_members(e, 'm' + tag, k, n, free)
    q = make(M, n)
    table = [row(i, n) for i in range(m)]
    idx = [[(3 * i + j * (i + 1) + j) % m for i in range(k)] for j in range(size)]
    X = e.data(FEATURES[:m])
    kw = dict(prevalences=e.arr([[1 / n] * k] * n), indexes=e.data(idx))
    q.fit(X, e.data(y), **(dict(kw, predictions_train=e.arr(table)) if using else kw))
    e.eq('classes', e.flat(q.classes_), labels)
    cols = (table if using else FEATURES[:m])
    columns = range((1 if n == 2 else n) if using else 2)
    for step, tt in enumerate((t, 2)):
        if using:
            T = mixed_probs(e, 't%s%d_' % (tag, step), tt, n, (tt - 1,) if strategy == 'distribution_similarity' and step == 0 and n < 4 else ())
            r = q.predict(None, predictions_test=T)
        else:
            T = e.arr([[e.real('t%s%d_%d' % (tag, step, c), -1, 6) if (j, c, step) == (0, 1, 0) else FEATURES[(3 * j + step) % 8][c] + 0.05 for c in range(2)] for j in range(tt)])
            r = q.predict(T)
        if strategy == 'mean':
            e.eq('mean', r, mean_of(e, M, n))
        elif strategy == 'median':
            v = median_of(e, M, n)
            s = e.sum(v)
            for c in range(n):
                e.eq('median %d' % c, e.at(r, c) * s, v[c])
        elif strategy == 'prevalence_similarity':
            d = differences(e, M, n)
            apart(e, d)
            e.eq('mean of the most similar', r, selected(e, M, d, chosen(k, pct), n))
        else:
            test, train = [], [[] for _ in range(k)]
            for c in columns:
                cuts = [v for v in e.flat(e.mod('multiclass.df').compute_bincuts(x=e.arr([v[c] for v in cols]), y=e.data(y), classes=e.data(labels), n_bins=bins, bin_strategy=bin_strategy))]
                test += hist(e, [e.at(T, j, c) for j in range(tt)], cuts, function == 'CDF')
                for i in range(k):
                    train[i] += hist(e, [cols[v[i]][c] for v in idx], cuts, function == 'CDF')
            d = [globals()['distance'](e, distance, test, h) for h in train]
            ranked(e, r, M, d, chosen(k, pct), n)
        e.distribution('prevalences', r, n)


def ranked(e, r, M, d, k, n):
    """the mean of k members with the smallest distances; whichever of members at equal distances"""
    import itertools
    ok = []
    for best in itertools.combinations(range(len(M)), k):
        rest = [i for i in range(len(M)) if i not in best]
        ok.append(e.and_(*([d[i] <= d[j] + 1e-9 for i in best for j in rest] + [e.abs(e.at(r, c) - e.sum([e.at(M[i], c) for i in best]) / k) <= 1e-9 for c in range(n)])))
    e.true('mean of the members of the most similar bags', e.or_(*ok))


class Answers:
    """the base quantifier; its fitted copies answer `answers` in the order of fitting"""

    def __init__(self, e, using):
        base = e.mod('base')
        box, now = SharedList(), SharedList()
        self.box, self.now = box, now

        class Member(base.UsingClassifiers if using else base.WithoutClassifiers):
            def fit(self, X, y, predictions_train=None):
                self.number_ = len(box)
                box.append((X, y, predictions_train))
                return self

            def predict(self, X, predictions_test=None):
                return now[-1][self.number_]
        self.base = Member()

    def set(self, M):
        while len(self.box):
            self.box.pop()
        self.now.append(M)


YL = {2: (4, -1, 4, -1, -1, 4, 4), 3: (7, -2, 3, 3, -2, 7, -2), 4: (5, 0, -3, 9, 0, 5, 9, -3)}


@harness('P28', [dict(strategy='mean', k=6, n=4), dict(strategy='median', k=5, n=3), dict(strategy='median', k=6, n=2), dict(strategy='prevalence_similarity', k=6, n=3, pct=0.5), dict(strategy='prevalence_similarity', k=5, n=4, pct=0.3, free=()),
                 dict(strategy='distribution_similarity', k=5, n=2, bins=4, function='CDF'), dict(strategy='distribution_similarity', k=5, n=3, bins=3, distance='cityblock', pct=0.6), dict(strategy='distribution_similarity', k=4, n=4, pct=0.5, bin_strategy='equal_count'), dict(strategy='distribution_similarity', k=5, n=3, using=False, bins=3, function='CDF', distance='cityblock')],
         more=[dict(strategy='distribution_similarity', k=6, n=4, bins=4, function='CDF'), dict(strategy='median', k=7, n=4), dict(strategy='prevalence_similarity', k=9, n=3, pct=0.45)], limit=60)
def larger(e, strategy, k, n, pct=0.4, using=True, free=None, **kw):
    """given answers and predictions but for a few; two test sets"""
    a = Answers(e, using)

    def make(M, n):
        a.set(M)
        return ensemble(e, k, a.base, strategy, n_bins=kw.get('bins', 2), bin_strategy=kw.get('bin_strategy', 'equal_width'), distribution_function=kw.get('function', 'PDF'), distance_bags=kw.get('distance', 'euclidean'), percentage_of_selected_models=pct)
    solved(e, make, strategy, k, YL[n], 4, '', free if free is not None else (0, k - 1) if strategy == 'mean' else (1,) if strategy != 'median' or n == 2 else (), using, pct=pct, **kw)


@harness('P28', [dict(strategy=s) for s in ('mean', 'median', 'prevalence_similarity', 'distribution_similarity')] + [dict(strategy='distribution_similarity', using=False, function='CDF', bins=3)], limit=60)
def again(e, strategy, using=True, bins=2, **kw):
    """one object fitted three times, with other labels, sizes and numbers of classes"""
    a = Answers(e, using)
    q = ensemble(e, 4, a.base, strategy, n_bins=bins, percentage_of_selected_models=0.5, **({'distribution_function': v for k, v in kw.items() if k == 'function'}))

    def make(M, n):
        a.set(M)
        return q
    for j, y in enumerate(((0, 1, 1, 0), YL[4], YL[3])):
        solved(e, make, strategy, 4, y, 3, '%d_' % j, (j,) if j == {'prevalence_similarity': 2, 'median': 0}.get(strategy, 1) else (), using, pct=0.5, size=3 + j, bins=bins, **kw)
