"""Multiclass adjusted counting."""
from symq.harness import harness
from props.common import *

BOUNDS = '3 classes (every training table); 4 and 5 classes with concrete training tables and every test set (every training table of 4 classes in the thorough tier); 3-4 training and 1-2 test examples; up to 9 training and 6 test examples most of which are given; second training sets and test sets; every label/probability table; singular systems of rank 1 and 2; distances HD, L2, L1 and an unknown one'
OUTSIDE = 'systems whose determinant is between 0 and 0.001 (ill conditioned in binary64); tables where every corrected value is negative cannot occur'


def det(M):
    if len(M) == 1:
        return M[0][0]
    s = 0
    for j in range(len(M)):
        m = [r[:j] + r[j + 1:] for r in M[1:]]
        s = s + ((-1) ** j) * M[0][j] * det(m)
    return s


def check_inverse(e, r, rates, obs, n):
    """rates[c][k]: rate of class k among training class c; obs[k]: observed rate"""
    A = [[rates[c][k] for c in range(n)] for k in range(n)]
    d = det(A)
    e.assume(e.or_(d >= 0.001, d <= -0.001))
    r = e.flat(r)
    e.true('one prevalence per class', len(r) == n)
    if len(r) != n:
        return
    xs = []
    for c in range(n):
        B = [[obs[k] if j == c else A[k][j] for j in range(n)] for k in range(n)]
        xs.append(det(B))
    # x_c = xs[c]/d ; positive parts
    pos = [e.ite(x * d > 0, x / d, 0) for x in xs]
    tot = e.sum(pos)
    for c in range(n):
        e.eq('prevalence %d solves the system, negatives removed' % c, r[c] * tot, pos[c], tol=1e-5)
    e.eq('sum is 1', e.sum(r), 1, tol=1e-5)


def label_rates(e, L, y, labels):
    ls = e.flat(L)
    return [[e.mean([e.ind(ls[i] == k) for i in range(len(y)) if y[i] == c]) for k in labels] for c in labels]


@harness('P10', [dict(y=(7, 2, 4), t=2), dict(y=(7, 2, 4, 2), t=1, fixed={0: 7}), dict(y=(1, 2, 3, 3), t=1, fixed={1: 3}, distance='L1', verbose=1), dict(y=(2, 1, 3, 4), t=1, fixed={0: 2, 1: 3, 2: 3}), dict(y=(2, 1, 3, 4, 9), t=1, fixed={0: 2, 1: 3, 2: 9, 3: 4})],
         more=[dict(y=(7, 2, 4, 2), t=2), dict(y=(2, 1, 3, 4), t=1, fixed={0: 2, 1: 3})], max_paths=400)
def crisp(e, y, t, distance='HD', verbose=0, fixed={}):
    labels = sorted(set(y))
    n = len(labels)
    ls = [fixed.get(i, None) for i in range(len(y))]
    ls = [e.pick('l%d' % i, labels) if v is None else v for i, v in enumerate(ls)]
    L = e.data(ls)
    T = e.ints('t', t, labels)
    q = e.mod('baselines.ac').AC(distance=distance, verbose=verbose)
    q.fit(None, e.data(y), predictions_train=L)
    rates = [[sum(1 for i in range(len(y)) if y[i] == c and ls[i] == k) / sum(1 for v in y if v == c) for k in labels] for c in labels]
    k0 = e.mark()
    d = det([[rates[c][k] for c in range(n)] for k in range(n)])
    if abs(float(d)) < 1e-9:
        return
    r = q.predict(None, predictions_test=T)
    e.true('no optimisation when the system is regular', not e.since(k0))
    obs = [e.mean([e.ind(x == k) for x in e.flat(T)]) for k in labels]
    check_inverse(e, r, rates, obs, n)


ROWS3 = [[0.6, 0.3, 0.1], [0.2, 0.5, 0.3], [0.1, 0.1, 0.8], [0.3, 0.3, 0.4]]
ROWS4 = [[0.6, 0.2, 0.1, 0.1], [0.2, 0.5, 0.2, 0.1], [0.1, 0.1, 0.7, 0.1], [0.1, 0.2, 0.2, 0.5]]


@harness('P10', [dict(y=(7, 2, 4), t=2, free=()), dict(y=(1, 2, 3), t=1, free=(1,), distance='L1', verbose=1), dict(y=(3, 1, 2, 1), t=1, free=()), dict(y=(3, 1, 2), t=1, free=(0,), ftest=False, distance='L2'), dict(y=(4, 1, 3, 2), t=1, free=()), dict(y=(4, 1, 3, 2, 1), t=2, free=())],
         more=[dict(y=(1, 2, 3, 1), t=2, free=(0,)), dict(y=(1, 2, 3), t=1, free=(0, 1), ftest=False), dict(y=(1, 2, 3, 4), t=1, free=()), dict(y=(7, 2, 4), t=1, free=(0, 1, 2))])
def probabilistic(e, y, t, free, ftest=True, distance='HD', verbose=0):
    """rows in `free` (and the test rows) are symbolic, the other training rows are fixed"""
    labels = sorted(set(y))
    n = len(labels)
    base = ROWS3 if n == 3 else ROWS4 + [[0.1, 0.2, 0.3, 0.4]]
    P = e.arr([e.flat(e.simplex('p%d_' % i, n)) if i in free else base[i] for i in range(len(y))])
    T = e.probs('t', t, n) if ftest else e.arr([base[0]] * t)
    q = e.mod('baselines.ac').PAC(distance=distance, verbose=verbose)
    s = e.snap(P), e.snap(T)
    rates = [[e.mean([e.at(P, i, k) for i in range(len(y)) if y[i] == c]) for k in range(n)] for c in labels]
    d = det([[rates[c][k] for c in range(n)] for k in range(n)])
    e.assume(e.or_(d >= 0.001, d <= -0.001))
    q.fit(None, e.data(y), predictions_train=P)
    r = q.predict(None, predictions_test=T)
    obs = [e.mean([e.at(T, i, k) for i in range(t)]) for k in range(n)]
    check_inverse(e, r, rates, obs, n)
    e.unchanged('training predictions unchanged', P, s[0])
    e.unchanged('test predictions unchanged', T, s[1])


def loss(e, distance, rates, obs, n):
    def f(z):
        mix = [e.sum([rates[c][k] * z[c] for c in range(n)]) for k in range(n)]
        if distance == 'L1':
            return e.sum([e.abs(mix[k] - obs[k]) for k in range(n)])
        if distance == 'L2':
            return e.sum([(mix[k] - obs[k]) * (mix[k] - obs[k]) for k in range(n)])
        return 1 - e.sum([e.sqrt(mix[k] * obs[k]) for k in range(n)])
    return f


@harness('P10', [dict(kind='AC', distance=d, y=y, l=l) for d, y, l in (('HD', (7, 2, 4), (7, 7, 4)), ('L1', (7, 2, 4), (2, 4, 4)), ('HD', (1, 2, 3, 1), (3, 3, 3, 3)), ('L1', (1, 2, 3, 1), (1, 2, 2, 1)), ('L1', (4, 2, 3, 1), (4, 4, 2, 1)), ('L2', (7, 2, 4, 2), (7, 7, 4, 7)))] +
         [dict(kind='PAC', distance=d, y=(7, 2, 4), l=None) for d in ('HD', 'L1')])
def singular(e, kind, distance, y, l):
    """singular systems: the configured distance is minimised instead"""
    labels = sorted(set(y))
    n = len(labels)
    if kind == 'AC':
        TR = e.data(l)
        rates = [[sum(1 for i in range(len(y)) if y[i] == c and l[i] == k) / sum(1 for v in y if v == c) for k in labels] for c in labels]
        T = e.ints('t', 2, labels)
        obs = [e.mean([e.ind(x == k) for x in e.flat(T)]) for k in labels]
    else:
        # binary fractions: exactly singular in binary64
        rows = {2: [0.5, 0.25, 0.25], 4: [0.25, 0.5, 0.25], 7: [0.375, 0.375, 0.25]}
        TR = e.arr([rows[v] for v in y])
        rates = [rows[c] for c in labels]
        T = e.probs('t', 2, n)
        obs = [e.mean([e.at(T, i, k) for i in range(2)]) for k in range(n)]
    q = getattr(e.mod('baselines.ac'), kind)(distance=distance)
    q.fit(None, e.data(y), predictions_train=TR)
    k0 = e.mark()
    r = q.predict(None, predictions_test=T)
    e.minimises('minimum of the configured distance', r, n, loss(e, distance, rates, obs, n), (e.since(k0) or [None])[-1])


@harness('P10', [dict(kind='AC'), dict(kind='PAC')])
def unknown_distance(e, kind):
    y = (1, 2, 3)
    TR = e.data([2, 2, 2]) if kind == 'AC' else e.arr([[0.25, 0.5, 0.25]] * 3)
    T = e.ints('t', 2, (1, 2, 3)) if kind == 'AC' else e.probs('t', 2, 3)
    q = getattr(e.mod('baselines.ac'), kind)(distance='XX')
    q.fit(None, e.data(y), predictions_train=TR)
    e.raises('unknown distance is an error', lambda: q.predict(None, predictions_test=T), ValueError)


def table(e, kind, y, t, tag, free, ftest):
    """(training predictions, rates, test predictions, observed rates); most training predictions are right"""
    labels = sorted(set(y))
    n, m = len(labels), len(y)
    if kind == 'AC':
        ls = [v if i % 4 != 3 else labels[(labels.index(v) + 1) % n] for i, v in enumerate(y)]
        ls = [e.pick('l%s%d' % (tag, i), labels) if i in free else v for i, v in enumerate(ls)]
        P, T = e.data(ls), mixed_labels(e, 't' + tag, [labels[i % n] for i in range(t)], labels, ftest)
        rates = [[sum(1 for i in range(m) if y[i] == c and ls[i] == k) / sum(1 for v in y if v == c) for k in labels] for c in labels]
        return P, rates, T, [e.mean([e.ind(x == k) for x in e.flat(T)]) for k in labels]
    rows = [[.5 if labels[k] == v else .5 / (n - 1) for k in range(n)] if i % 4 != 3 else row(i, n) for i, v in enumerate(y)]
    P = e.arr([list(e.flat(e.simplex('l%s%d_' % (tag, i), n))) if i in free else rows[i] for i in range(m)])
    T = mixed_probs(e, 't' + tag, t, n, ftest)
    rates = [[e.mean([e.at(P, i, k) for i in range(m) if y[i] == c]) for k in range(n)] for c in labels]
    return P, rates, T, [e.mean([e.at(T, i, k) for i in range(t)]) for k in range(n)]


@harness('P10', [dict(kind=k, y=y, t=t, ftest=f) for k in ('AC', 'PAC') for y, t, f in (((4, -1, 2, -1, 4, 2, 4, 4, 2), 6, (0, 5)), ((-3, -2, -1), 5, (1,)), ((5, 4, -2, 1, 1, 4, 5), 3, (2,)))] +
         [dict(kind='PAC', y=(4, -1, 2, -1, 4), t=4, ftest=(), free=(4,))], max_paths=400)
def larger(e, kind, y, t, ftest, free=()):
    """more examples, most of them given"""
    P, rates, T, obs = table(e, kind, y, t, '', free, ftest)
    n = len(set(y))
    d = det([[rates[c][k] for c in range(n)] for k in range(n)])
    e.assume(e.or_(d >= 0.001, d <= -0.001))
    q = getattr(e.mod('baselines.ac'), kind)()
    q.fit(None, e.data(y), predictions_train=P)
    check_inverse(e, q.predict(None, predictions_test=T), rates, obs, len(set(y)))


@harness('P10', [dict(kind=k, ys=ys) for k in ('AC', 'PAC') for ys in (((7, 2, 4), (3, -1, 5, 3)), ((7, 2, 4, 9), (3, -1, 5)))], max_paths=400)
def again(e, kind, ys):
    """a second training set and further test sets: each answer from the present data alone"""
    q = getattr(e.mod('baselines.ac'), kind)()
    for j, y in enumerate(ys):
        n = len(set(y))
        P, rates, T, obs = table(e, kind, y, 2, '%d_' % j, (), (0,))
        q.fit(None, e.data(y), predictions_train=P)
        check_inverse(e, q.predict(None, predictions_test=T), rates, obs, n)
        _, _, T, obs = table(e, kind, y, 1, 'u%d_' % j, (), (0,))
        check_inverse(e, q.predict(None, predictions_test=T), rates, obs, n)
