"""Sample ordinal distance."""
from symq.harness import harness
from props.common import *

BOUNDS = 'unions of up to 12 scores, two of them symbolic, and refitted quantifiers with up to 8 training and 5 test scores; every training sample of 2-3 scores (4 thorough) with several label patterns and values, every test sample of 1-2 scores (3 thorough); golden-section search with tolerances 0.1-0.3 (0.0003-0.002 with one symbolic test score); the distance functions themselves for every prevalence in [0,1]'
OUTSIDE = 'larger samples and smaller tolerances; labels that are not numbers (the method adds a numeric label for the test examples)'


def area(e, xs, y, labels, p, ts):
    """area between the cumulative distributions of the weighted training scores and of the test scores"""
    w = [(1 - p) / sum(1 for v in y if v == labels[0]) if c == labels[0] else p / sum(1 for v in y if v == labels[1]) for c in y]
    pts = sorted(list(zip(xs, w)) + [(t, -1 / len(ts)) for t in ts], key=lambda v: v[0])
    s, c = 0, 0
    for (a, wa), (b, _) in zip(pts, pts[1:]):
        c = c + wa
        s = s + e.abs(c) * (b - a)
    return s


@harness('P20', [dict(y=(0, 1), t=1), dict(y=(5, -2, 5), t=1), dict(y=(0, 1, 1), t=2, distinct=True)], more=[dict(y=(1, 0, 1, 0), t=2, distinct=True), dict(y=(0, 1), t=3)], limit=80)
def distance(e, y, t, distinct=False):
    """weights and distance for a candidate prevalence"""
    labels = sorted(set(y))
    m = len(y)
    x, p = e.vec('x', m + t), e.real('p', 0, 1)
    xs = e.flat(x)
    for a, b in zip(xs, xs[1:]):
        e.assume(a <= b)
    S = e.mod('search')
    test = max(labels) + 1
    # every interleaving of training and test examples
    pos = e.pick('interleaving', list(range(len(inter(m, t)))))
    U = []
    k = 0
    for isx in inter(m, t)[int(pos)]:
        U.append(y[k] if isx else test)
        k += isx
    w = S.compute_sord_weights(prevalence=p, union_labels=e.data(U), classes=e.data(labels))
    n0, n1 = sum(1 for v in y if v == labels[0]), sum(1 for v in y if v == labels[1])
    e.eq('weights', e.flat(w), [(1 - p) / n0 if v == labels[0] else p / n1 if v == labels[1] else -1 / t for v in U])
    d = S.sord(w, x)
    tr = [(xs[i], U[i]) for i in range(m + t) if U[i] != test]
    e.eq('area', e.flat(d), [area(e, [a for a, _ in tr], [c for _, c in tr], labels, p, [xs[i] for i in range(m + t) if U[i] == test])])


def inter(m, t):
    import itertools
    return [[i not in c for i in range(m + t)] for c in itertools.combinations(range(m + t), t)]


@harness('P20', [dict(y=(0, 1), t=1, tol=0.1), dict(y=(1, 0), t=2, tol=0.25), dict(y=(0, 1), t=1, tol=0.3, verbose=1)],
         more=[dict(y=(4, -7, 4), t=1, tol=0.3), dict(y=(1, 0, 0), t=2, tol=0.25), dict(y=(0, 1, 0, 1), t=1, tol=0.2), dict(y=(0, 1), t=2, tol=0.05)], limit=100, more_limit=400)
def sordy(e, y, t, tol, verbose=0):
    """the quantifier returns a prevalence within the tolerance of a minimiser of the area"""
    labels = sorted(set(y))
    P, T = e.probs('p', len(y), 2), e.probs('t', t, 2)
    s = e.snap(P), e.snap(T)
    q = e.mod('binary.emd').SORDy(tol=tol, verbose=verbose).fit(None, e.data(y), predictions_train=P)
    r = q.predict(None, predictions_test=T)
    e.distribution('prevalences', r, 2)
    x = float(e.at(r, 1))
    xs, ts = [e.at(P, i, 1) for i in range(len(y))], [e.at(T, i, 1) for i in range(t)]
    L = lambda p: area(e, xs, y, labels, p, ts)
    lo, hi = max(x - tol, 0), min(x + tol, 1)
    # the area is convex in the prevalence: nothing better further away than the tolerance
    for z in [v / 10 for v in range(11)] + [max(lo - tol / 2, 0), min(hi + tol / 2, 1)]:
        if z < lo:
            e.le('a minimiser is within the tolerance', L(lo), L(z), tol=1e-6)
        elif z > hi:
            e.le('a minimiser is within the tolerance', L(hi), L(z), tol=1e-6)
    e.unchanged('training predictions unchanged', P, s[0])
    e.unchanged('test predictions unchanged', T, s[1])


@harness('P20', [dict()])
def multiclass(e):
    """more than two classes are rejected"""
    P = e.probs('p', 3, 3)
    e.raises('three classes', lambda: e.mod('binary.emd').SORDy().fit(None, e.data((0, 1, 2)), predictions_train=P), TypeError)


@harness('P20', [dict(u='0101t10t1', labels=(0, 1)), dict(u='t0011t0t1', labels=(-5, 3)), dict(u='01tt', labels=(2, 9)), dict(u='00001t1ttt', labels=(4, 7)), dict(u='t01010101010', labels=(0, 1))])
def distance_larger(e, u, labels):
    """larger unions of given order, every prevalence; two symbolic scores"""
    m = len(u)
    test = max(labels) + 1
    U = [test if c == 't' else labels[int(c)] for c in u]
    xs = [(3 * i + i % 3) / (4. * m) for i in range(m)]
    for i in (0, m // 2):
        xs[i] = e.real('x%d' % i, xs[i - 1] if i else 0, xs[i + 1])
    p = e.real('p', 0, 1)
    S = e.mod('search')
    w = S.compute_sord_weights(prevalence=p, union_labels=e.data(U), classes=e.data(list(labels)))
    n = [sum(1 for v in U if v == l) for l in labels] + [u.count('t')]
    e.eq('weights', e.flat(w), [(1 - p) / n[0] if v == labels[0] else p / n[1] if v == labels[1] else -1 / n[2] for v in U])
    d = S.sord(w, e.arr(xs))
    tr = [(x, v) for x, v in zip(xs, U) if v != test]
    s, c = 0, 0
    wt = [(1 - p) / n[0] if v == labels[0] else p / n[1] if v == labels[1] else -1 / n[2] for v in U]
    for i in range(m - 1):
        c = c + wt[i]
        s = s + e.abs(c) * (xs[i + 1] - xs[i])
    e.eq('area', e.flat(d), [s])


def solved(e, q, y, t, tol, tag, free):
    """fit, predict twice; each answer within the tolerance of a minimiser for the present data"""
    labels = sorted(set(y))
    P = e.arr([[1 - v, v] for v in [SCORES[i % 9] for i in range(len(y))]])
    q.fit(None, e.data(y), predictions_train=P)
    xs = [e.at(P, i, 1) for i in range(len(y))]
    for k, tt in enumerate((t, 2)):
        T = e.arr([[1 - v, v] for v in [e.real('t%s%d' % (tag, k), 0, 1) if i == tt - 1 and free and k == 0 else (SCORES[(2 * i + 1 + k) % 9] * 8 + 0.5) / 9 for i in range(tt)]])
        r = q.predict(None, predictions_test=T)
        e.distribution('prevalences', r, 2)
        x = float(e.at(r, 1))
        ts = [e.at(T, i, 1) for i in range(tt)]
        L = lambda p: area(e, xs, y, labels, p, ts)
        lo, hi = max(x - tol, 0), min(x + tol, 1)
        for z in [v / 10 for v in range(0, 11, 2)] + [max(lo - tol, 0), min(hi + tol, 1)]:
            if z < lo:
                e.le('a minimiser is within the tolerance', L(lo), L(z), tol=1e-6)
            elif z > hi:
                e.le('a minimiser is within the tolerance', L(hi), L(z), tol=1e-6)


SCORES = [0.65, 0.1, 0.95, 0.4, 0.7, 0.25, 0.85, 0.05, 0.5]


@harness('P20', [dict(y=(0, 1, 0, 1, 1), t=5, tol=0.1), dict(y=(0, 1, 0, 1, 1), t=3, tol=0.002), dict(y=(0, 1, 1), t=1, tol=0.0003), dict(y=(6, -1, -1, 6, -1, 6), t=1, tol=0.2), dict(y=(1, 0, 1, 0, 1, 0, 0, 1), t=4, tol=0.2)], limit=60)
def larger(e, y, t, tol):
    """given scores but for one test score"""
    solved(e, e.mod('binary.emd').SORDy(tol=tol), y, t, tol, '', True)


@harness('P20', [dict(ys=((0, 1, 1), (5, -2, 5, -2, 5), (3, 1)), tol=0.15)], limit=60)
def again(e, ys, tol):
    """fitted three times with other labels and sizes"""
    q = e.mod('binary.emd').SORDy(tol=tol)
    for j, y in enumerate(ys):
        solved(e, q, y, 3, tol, '%d_' % j, j == 1)
