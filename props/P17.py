"""Energy-distance quantifiers."""
from symq.harness import harness
from props.common import *
import itertools

BOUNDS = '2 classes with symbolic training samples (up to 3 examples per class) and 2-3 test examples; 3-4 classes with concrete training samples and symbolic test samples; 1-2 descriptors; unequal class sizes; up to 7 training and 5 test examples and 5 classes with one symbolic test row; further test sets and fits of the same object; manhattan and euclidean distances and a user-given distance'
OUTSIDE = 'training samples of indistinguishable classes (a singular quadratic problem); larger samples'


def dist(e, kind, a, b):
    if kind == 'man':
        return e.sum([e.abs(x - y) for x, y in zip(a, b)])
    if kind == 'euc' and len(a) == 1:
        return e.abs(a[0] - b[0])
    if kind == 'euc':
        return e.sqrt(e.sum([(x - y) * (x - y) for x, y in zip(a, b)]))
    return e.sum([(x - y) * (x - y) for x, y in zip(a, b)])


def sqeuclid(A, B):
    """a distance given by the user: squared euclidean"""
    import numpy
    return ((A[:, numpy.newaxis, :] - B[numpy.newaxis, :, :]) ** 2).sum(axis=2)


def rows(a, e):
    n, k = e.shape(a)
    return [[e.at(a, i, j) for j in range(k)] for i in range(n)]


def avg(e, kind, S, T):
    return e.sum([dist(e, kind, s, t) for s in S for t in T]) / (len(S) * len(T))


def K_of(e, kind, groups):
    n = len(groups)
    K = [[None] * n for _ in range(n)]
    for i in range(n):
        for j in range(i, n):
            K[i][j] = K[j][i] = avg(e, kind, groups[i], groups[j])
    return K


def energy(e, kind, groups, T, K=None):
    """2 E d(mixture, test) - E d(mixture, mixture'), as a function of the prevalences"""
    K = K or K_of(e, kind, groups)
    t = [avg(e, kind, g, T) for g in groups]
    n = len(groups)
    def f(z):
        return 2 * e.sum([z[c] * t[c] for c in range(n)]) - e.sum([z[a] * z[b] * K[a][b] for a in range(n) for b in range(n)])
    return f


def separated(e, K):
    if len(K) == 2:
        e.assume(2 * K[0][1] - K[0][0] - K[1][1] >= 0.01)


def ranks(e, R):
    """ranks by column, ties averaged"""
    out = [[None] * len(R[0]) for _ in R]
    for j in range(len(R[0])):
        col = [r[j] for r in R]
        for i, v in enumerate(col):
            less = e.sum([e.ind(w < v) for k, w in enumerate(col) if k != i])
            same = e.sum([e.ind(w == v) for k, w in enumerate(col) if k != i])
            out[i][j] = less + (same + 2) / 2
    return out


def split(R, y, labels):
    return [[r for r, c in zip(R, y) if c == l] for l in labels]


Y2 = {3: (1, 0, 1), 4: (0, 1, 1, 1), 5: (1, 0, 0, 1, 1)}
CONC = {3: ([[0.7, 0.2, 0.1], [0.1, 0.3, 0.6], [0.2, 0.6, 0.2], [0.6, 0.3, 0.1], [0.25, 0.25, 0.5], [0.1, 0.8, 0.1], [0.2, 0.1, 0.7]], (0, 2, 1, 0, 2, 1, 2)),
        4: ([[0.7, 0.1, 0.1, 0.1], [0.1, 0.1, 0.2, 0.6], [0.2, 0.6, 0.1, 0.1], [0.1, 0.2, 0.6, 0.1], [0.5, 0.2, 0.2, 0.1]], (0, 3, 1, 2, 0))}


# rational distances
POINTS = {3: ([[0.0, 0.0], [0.25, 0.0], [0.0, 0.75], [1.0, 0.0], [1.0, 0.75]], (0, 0, 2, 1, 1)), 4: ([[0.0, 0.0], [1.0, 0.0], [0.0, 0.75], [1.0, 0.75]], (0, 1, 2, 3))}


def quantifier(e, cls, kind, verbose=0):
    q = e.mod('multiclass.energy')
    kw = dict(verbose=verbose)
    if kind == 'user':
        kw['distance'] = sqeuclid
    elif kind == 'euc' and cls != 'EDX':
        import sklearn.metrics.pairwise
        kw['distance'] = 'euc'
    return q, kw


@harness('P17', [dict(m=3, t=2), dict(m=4, t=2), dict(m=3, t=2, kind='user'), dict(m=3, t=1, labels=(9, -2)), dict(m=3, t=2, kind='euc', t1=1)],
         more=[dict(m=5, t=3), dict(m=4, t=3, kind='user')])
def edy(e, m, t, kind='man', labels=(0, 1), t1=0):
    """EDy, symbolic training and test scores"""
    lab = sorted(labels)
    y = [lab[v] for v in Y2[m]]
    P, T = e.probs('p', m, 2), e.probs('t', t, 2)
    G = split(rows(P, e), y, lab)
    K = K_of(e, kind, G)
    separated(e, K)
    q, kw = quantifier(e, 'EDy', kind)
    if kind == 'euc':
        kw['distance'] = q.euclidean_distances
    q = q.EDy(**kw).fit(None, e.data(y), predictions_train=P)
    r = q.predict(None, predictions_test=T)
    e.minimises('energy distance', r, 2, energy(e, kind, G, rows(T, e), K))


@harness('P17', [dict(n=3, t=2), dict(n=3, t=2, kind='user'), dict(n=4, t=1)], more=[dict(n=4, t=2), dict(n=3, t=3)])
def edy_classes(e, n, t, kind='man'):
    """EDy, more classes"""
    tab, y = CONC[n]
    T = e.probs('t', t, n)
    lab = [3 * v - 4 for v in range(n)]
    q, kw = quantifier(e, 'EDy', kind)
    q = q.EDy(**kw).fit(None, e.data([lab[v] for v in y]), predictions_train=e.data(tab))
    r = q.predict(None, predictions_test=T)
    e.minimises('energy distance', r, n, energy(e, kind, split(tab, y, range(n)), rows(T, e)))


@harness('P17', [dict(m=3, t=1), dict(m=3, t=2)], more=[dict(m=4, t=2)], limit=60)
def cvmy(e, m, t):
    """CvMy, symbolic scores"""
    y = Y2[m]
    P, T = e.probs('p', m, 2), e.probs('t', t, 2)
    R = ranks(e, rows(P, e) + rows(T, e))
    G = split(R[:m], y, (0, 1))
    K = K_of(e, 'man', G)
    separated(e, K)
    q = e.mod('multiclass.energy').CvMy().fit(None, e.data(y), predictions_train=P)
    r = q.predict(None, predictions_test=T)
    e.minimises('energy distance of the ranks', r, 2, energy(e, 'man', G, R[m:], K))


@harness('P17', [dict(n=3, t=1)], more=[dict(n=4, t=1), dict(n=3, t=2)], limit=60)
def cvmy_classes(e, n, t):
    """CvMy, more classes: a test example anywhere, also level with training scores"""
    tab, y = CONC[n]
    T = e.probs('t', t, n)
    R = ranks(e, [list(r) for r in tab] + rows(T, e))
    m = len(tab)
    G = split(R[:m], y, range(n))
    q = e.mod('multiclass.energy').CvMy().fit(None, e.data(y), predictions_train=e.data(tab))
    r = q.predict(None, predictions_test=T)
    e.minimises('energy distance of the ranks', r, n, energy(e, 'man', G, R[m:]))


@harness('P17', [dict(m=3, t=2, d=1), dict(m=3, t=1, d=2), dict(m=3, t=2, d=2, kind='user'), dict(m=4, t=1, d=1, labels=(7, 2))], more=[dict(m=4, t=2, d=2), dict(m=5, t=2, d=1)])
def edx(e, m, t, d, kind='euc', labels=(0, 1)):
    """EDX on features"""
    lab = sorted(labels)
    y = [lab[v] for v in Y2[m]]
    X, T = e.mat('x', m, d, -3, 3), e.mat('t', t, d, -3, 3)
    G = split(rows(X, e), y, lab)
    K = K_of(e, kind, G)
    separated(e, K)
    q, kw = quantifier(e, 'EDX', kind)
    q = q.EDX(**kw).fit(X, e.data(y))
    r = q.predict(T)
    e.minimises('energy distance', r, 2, energy(e, kind, G, rows(T, e), K))


@harness('P17', [dict(n=3, t=1)], more=[dict(n=4, t=1), dict(n=3, t=2)])
def edx_classes(e, n, t):
    tab, y = POINTS[n]
    T = e.mat('t', t, 2, -1, 1)
    q = e.mod('multiclass.energy').EDX().fit(e.data(tab), e.data(y))
    r = q.predict(T)
    e.minimises('energy distance', r, n, energy(e, 'euc', split(tab, y, range(n)), rows(T, e)))


def sample(e, q, cls, kind, y, t, tag, d, free):
    """fit and two predictions with given examples, a few symbolic test rows; each optimal for the present data"""
    labels = sorted(set(y))
    n, m = len(labels), len(y)
    if cls == 'EDX':
        P = [[((3 * i * i + 5 * a + 2 * i * a) % 11 - 4) / 2. for a in range(d)] for i in range(m)]
        if kind == 'euc' and d == 2:
            P = [[[0., .25, 1., 2.][i % 4], 0.75 * (i % 3)] for i in range(m)]
    else:
        P = [row(i, n) for i in range(m)]
    kw = {}
    q.fit(e.arr(P) if cls == 'EDX' else None, e.data(y), **({} if cls == 'EDX' else dict(predictions_train=e.arr(P))))
    for j in range(2):
        t = t if j == 0 else 2
        fr = [t - 1] if free and (j == 0 or cls != 'CvMy') else []
        if cls == 'EDX':
            T = e.arr([[e.real('t%s%d_%d_%d' % (tag, j, i, a), -3, 3) if i in fr else ((5 * i + 3 * a + j) % 7 - 3) / 2. for a in range(d)] for i in range(t)])
            k = e.mark()
            r = q.predict(T)
            ps = e.since(k)
        else:
            T = mixed_probs(e, 't%s%d_' % (tag, j), t, n, fr)
            r, ps = run(e, q, T)
        A, B = [list(v) for v in P], rows(T, e)
        if cls == 'CvMy':
            R = ranks(e, A + B)
            A, B = R[:m], R[m:]
        e.minimises('energy distance', r, n, energy(e, kind, split(A, y, labels), B), (ps or [None])[-1])


def energy_quantifier(e, cls, kind):
    q, kw = quantifier(e, cls, kind)
    if kind == 'euc' and cls == 'EDy':
        kw['distance'] = q.euclidean_distances
    return getattr(q, cls)(**kw)


LARGE = [dict(cls='EDy', kind='man', y=(-3, 4, 4, -3, 4, 4), t=5), dict(cls='EDy', kind='user', y=(4, -3, -3, 4, -3), t=4), dict(cls='EDy', kind='man', y=(7, -1, 3, 3, 7, 3, -1), t=5), dict(cls='EDy', kind='man', y=(7, -1, 3, 12, 7, 3), t=4),
         dict(cls='EDy', kind='user', y=(7, -1, 3, 12, 20), t=1), dict(cls='CvMy', kind='man', y=(4, -3, -3, 4, -3), t=4), dict(cls='CvMy', kind='man', y=(7, -1, 3, 3, 7), t=2), dict(cls='CvMy', kind='man', y=(7, -1, 3, 12, 7), t=2),
         dict(cls='EDX', kind='euc', y=(-3, 4, 4, -3, 4, 4), t=5), dict(cls='EDX', kind='euc', y=(4, -3, -3, 4, -3), t=4, d=2), dict(cls='EDX', kind='user', y=(7, -1, 3, 12, 7, 3), t=4, d=2), dict(cls='EDX', kind='man', y=(7, -1, 3, 3, 7, 3), t=5)]


@harness('P17', LARGE, limit=60)
def larger(e, cls, kind, y, t, d=1):
    """more examples and classes, one symbolic test row; then a second test set"""
    if cls == 'EDX' and kind == 'man':
        q = e.mod('multiclass.energy')
        q = q.EDX(distance=q.manhattan_distances)
    else:
        q = energy_quantifier(e, cls, kind)
    sample(e, q, cls, kind, y, t, '', d, cls != 'CvMy' or len(set(y)) < 4)


@harness('P17', [dict(cls='EDy', kind='man'), dict(cls='EDy', kind='user'), dict(cls='CvMy', kind='man'), dict(cls='EDX', kind='euc'), dict(cls='EDX', kind='user', d=2)], limit=60)
def again(e, cls, kind, d=1):
    """fitted three times, with other labels, sizes and numbers of classes"""
    q = energy_quantifier(e, cls, kind)
    for j, y in enumerate(((4, -1, 4), (2, 0, 1, 1), (8, 3, 8, 3))):
        sample(e, q, cls, kind, y, 3, '%d_' % j, d, cls != 'CvMy')
