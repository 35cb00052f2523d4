"""Expectation-maximisation re-estimation of the priors."""
from symq.harness import harness
from props.common import *

BOUNDS = '2-5 classes; 1-6 test rows for one iteration (two of them symbolic when more than 3), two test sets in a row and a second training set; 1-2 (3) test rows with every posterior for 1-3 iterations; stopping rule for every epsilon in [0,1] on 5 concrete posterior tables up to 13 iterations (16 thorough); verbose on and off'
OUTSIDE = 'more iterations with symbolic posteriors; epsilon outside [0,1]; posteriors below 0.01 where the replay would divide by ~0'


def step(e, T, t, n, p, tr):
    new = [0] * n
    for i in range(t):
        w = [e.at(T, i, k) * p[k] / tr[k] for k in range(n)]
        s = e.sum(w)
        for k in range(n):
            new[k] = new[k] + w[k] / s
    return [v / t for v in new]


def train(y):
    labels = sorted(set(y))
    return [sum(1 for v in y if v == c) / len(y) for c in labels]


def em(e, y, verbose=0, **kw):
    n = len(set(y))
    q = e.mod('multiclass.em').EM(verbose=verbose, **kw)
    q.fit(None, e.data(y), predictions_train=e.arr([[1.0 / n] * n] * len(y)))
    return q


@harness('P12', [dict(y=(0, 1, 1), t=2, k=1), dict(y=(9, 3, 3, 3), t=1, k=2), dict(y=(2, 7, 1, 1), t=2, k=1, verbose=1), dict(y=(0, 1), t=2, k=2), dict(y=(5, 5, 1, 1, 3), t=1, k=2)],
         more=[dict(y=(0, 1, 1), t=3, k=2), dict(y=(0, 1, 1), t=2, k=3), dict(y=(2, 7, 1, 1), t=2, k=2)])
def iterations(e, y, t, k, verbose=0):
    """the first k iterations, for every posterior"""
    n = len(set(y))
    T = e.probs('t', t, n, lo=0.01)
    s = e.snap(T)
    r = em(e, y, verbose=verbose, max_iter=k).predict(None, predictions_test=T)
    tr = train(y)
    p = tr
    for _ in range(k):
        p = step(e, T, t, n, p, tr)
    e.eq('posteriors are reweighted, renormalised and averaged', r, p)
    e.unchanged('posteriors unchanged', T, s)


@harness('P12', [dict(y=(0, 1, 1), t=2), dict(y=(2, 7, 1, 1), t=2)], more=[dict(y=(2, 7, 1, 1), t=3)])
def valid(e, y, t):
    n = len(set(y))
    T = e.probs('t', t, n, lo=0.01)
    r = em(e, y, max_iter=1).predict(None, predictions_test=T)
    e.distribution('result is a distribution', r, n)


ROWS = {2: [[[0.9, 0.1], [0.4, 0.6]], [[0.3, 0.7]], [[0.55, 0.45], [0.2, 0.8], [0.5, 0.5]]],
        3: [[[0.5, 0.3, 0.2], [0.1, 0.2, 0.7]], [[0.2, 0.7, 0.1]]]}


@harness('P12', [dict(y=(0, 1, 1), m=13), dict(y=(0, 1), m=12, verbose=1), dict(y=(4, 1, 2, 2), m=12), dict(y=(0, 1, 0), m=12, case=2), dict(y=(3, 4), m=11, case=1), dict(y=(3, 4, 5, 4), m=11, case=1), dict(y=(0, 1, 1), m=4), dict(y=(0, 1, 1), m=0)], more=[dict(y=(0, 0, 0, 1), m=16)])
def stopping(e, y, m, case=0, verbose=0):
    """for every epsilon: stop after the first iteration >= 10 whose mean absolute change is at most epsilon, or at the maximum"""
    n = len(set(y))
    eps = e.real('eps', 0, 1)
    tr = [Fraction(v).limit_denominator(100) for v in train(y)]
    rows = [[Fraction(v).limit_denominator(100) for v in row] for row in ROWS[n][case]]
    p, seq = tr, []
    for k in range(m):
        new = [0] * n
        for row in rows:
            w = [row[c] * p[c] / tr[c] for c in range(n)]
            s = sum(w)
            for c in range(n):
                new[c] += w[c] / s
        new = [Fraction(v / len(rows)).limit_denominator(10 ** 15) for v in new]
        ch = float(sum(abs(new[c] - p[c]) for c in range(n)) / n)
        p = new
        seq.append((p, ch))
        e.assume(e.or_(eps > ch + 1e-8, eps < ch - 1e-8))      # not on the boundary
    T = e.arr(ROWS[n][case])
    r = em(e, y, epsilon=eps, max_iter=m, verbose=verbose).predict(None, predictions_test=T)
    p = tr
    for k in range(m):
        p = seq[k][0]
        if k + 1 >= 10 and bool(eps >= seq[k][1]):
            break
    e.eq('stops at the right iteration', r, [float(v) for v in p], tol=1e-7)


@harness('P12', [dict(n=2), dict(n=3)])
def fixed_point(e, n):
    """posteriors that average to the training prevalences leave them unchanged; certain posteriors are counted"""
    y = (0, 1) if n == 2 else (0, 1, 2, 2)
    tr = train(y)
    d = e.real('d', 0, 0.2)
    T = e.arr([[tr[0] + d] + [tr[1] - d] + tr[2:], [tr[0] - d, tr[1] + d] + tr[2:]])
    r = em(e, y, max_iter=1).predict(None, predictions_test=T)
    e.eq('training prevalences are a fixed point', r, tr)
    r = em(e, y).predict(None, predictions_test=e.arr([[tr[0], tr[1]] + tr[2:]] * 2))
    e.eq('training prevalences are a fixed point of every iteration', r, tr)


@harness('P12', [dict(n=3, z=0), dict(n=3, z=2), dict(n=2, z=1)])
def zero_stays(e, n, z):
    y = (0, 1) if n == 2 else (0, 1, 2)
    rows = []
    for i in range(2):
        v = list(e.flat(e.simplex('t%d_' % i, n - 1, lo=0.01)))
        v.insert(z, 0)
        rows.append(v)
    r = em(e, y, max_iter=2).predict(None, predictions_test=e.arr(rows))
    e.eq('a class without mass stays at zero', e.flat(r)[z], 0)


from fractions import Fraction


@harness('P12', [dict(y=(0, 1, 1), t=6), dict(y=(4, -1, 4), t=5), dict(y=(-3, -2, 5, 5), t=4), dict(y=(3, 9, 1, 2, 2), t=2), dict(y=(5, 4, 3, 2, 1), t=1, k=2), dict(y=(7,) * 3 + (2,) * 9, t=3)] + [dict(y=('no', 'yes', 'maybe', 'yes'), t=3)])
def larger(e, y, t, k=1):
    """more examples and classes: two rows symbolic, the others given"""
    n = len(set(y))
    rows = [[Fraction(1 + (3 * i + 2 * c) % 5, sum(1 + (3 * i + 2 * j) % 5 for j in range(n))) for c in range(n)] for i in range(t)]
    T = [e.simplex('t%d_' % i, n, lo=0.01) if i in (0, t - 1) else e.arr(rows[i]) for i in range(t)]
    T = e.arr([list(e.flat(v)) for v in T])
    tr = train(y)
    p = tr
    for _ in range(k):
        p = step(e, T, t, n, p, tr)
    e.eq('one step', em(e, y, max_iter=k).predict(None, predictions_test=T), p)


@harness('P12', [dict(ys=((0, 1, 1), (5, -2)), ts=(2, 1)), dict(ys=((0, 1, 2, 2), (4, 4, 4, 1)), ts=(1, 2)), dict(ys=((0, 1), (4, 4, 3, 1)), ts=(2, 1))])
def again(e, ys, ts):
    """further test sets and a second training set: every answer starts from the present training prevalences"""
    q = e.mod('multiclass.em').EM(max_iter=1)
    for j, y in enumerate(ys):
        n = len(set(y))
        tr = train(y)
        q.fit(None, e.data(y), predictions_train=e.arr([[1.0 / n] * n] * len(y)))
        for i, t in enumerate(ts):
            T = e.probs('t%d%d_' % (j, i), t, n, lo=0.01)
            e.eq('test set %d of fit %d' % (i + 1, j + 1), q.predict(None, predictions_test=T), step(e, T, t, n, tr, tr))
