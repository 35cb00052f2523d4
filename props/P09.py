"""Binary adjusted counting."""
from symq.harness import harness
from props.common import *

BOUNDS = '2 classes; 2-4 training and 1-3 test examples, every probability/label table; up to 9 training and 9 test examples with two symbolic predictions each; second training sets and test sets; label order and values varied; all distances accepted by the constructors; verbose on and off'
OUTSIDE = 'larger samples (up to 6 training examples in the thorough tier)'


def adjusted(e, tpr, fpr, rate):
    """(condition, value): p after the correction, when it applies"""
    p = e.clip01((rate - fpr) / (tpr - fpr))
    return p


def check(e, r, tpr, fpr, rate):
    d = e.abs(tpr - fpr)
    corrected = bool(d > 0.001)
    r = e.flat(r)
    e.true('two prevalences', len(r) == 2)
    if len(r) != 2:
        return
    if corrected:
        p = adjusted(e, tpr, fpr, rate)
        e.eq('positive prevalence is the corrected rate', r[1], p)
        e.eq('negative prevalence is the complement', r[0], 1 - p)
    else:
        e.eq('unadjusted rate', r[1], rate)
        e.eq('unadjusted complement', r[0], 1 - rate)


def frac(e, xs, v):
    return e.mean([e.ind(x == v) for x in xs])


@harness('P09', [dict(y=(0, 1, 0, 1), t=2), dict(y=(9, 4, 4), t=3, distance='L2'), dict(y=(-1, -5), t=2, distance='L1', verbose=1), dict(y=(1, 1, 0, 1), t=1)],
         more=[dict(y=(0, 1, 0, 1, 1, 0), t=4), dict(y=(3, 3, 3, 2, 2), t=3)])
def crisp(e, y, t, distance='HD', verbose=0):
    a, b = sorted(set(y))
    L, T = e.ints('l', len(y), (a, b)), e.ints('t', t, (a, b))
    q = e.mod('baselines.ac').AC(distance=distance, verbose=verbose)
    q.fit(None, e.data(y), predictions_train=L)
    r = q.predict(None, predictions_test=T)
    ls = e.flat(L)
    tpr = frac(e, [ls[i] for i in range(len(y)) if y[i] == b], b)
    fpr = frac(e, [ls[i] for i in range(len(y)) if y[i] == a], b)
    check(e, r, tpr, fpr, frac(e, e.flat(T), b))


@harness('P09', [dict(y=(2, 1, 1), t=2), dict(y=(0, 1), t=2, distance='L1', verbose=1)], more=[dict(y=(0, 1, 1, 0), t=3)])
def crisp_from_probabilities(e, y, t, distance='HD', verbose=0):
    a, b = sorted(set(y))
    P, T = e.probs('p', len(y), 2), e.probs('t', t, 2)
    q = e.mod('baselines.ac').AC(distance=distance, verbose=verbose)
    s = e.snap(P), e.snap(T)
    q.fit(None, e.data(y), predictions_train=P)
    r = q.predict(None, predictions_test=T)
    pos = lambda M, rows: e.mean([e.ind(e.at(M, i, 1) > e.at(M, i, 0)) for i in rows])
    tpr = pos(P, [i for i in range(len(y)) if y[i] == b])
    fpr = pos(P, [i for i in range(len(y)) if y[i] == a])
    check(e, r, tpr, fpr, pos(T, range(t)))
    e.unchanged('training predictions unchanged', P, s[0])
    e.unchanged('test predictions unchanged', T, s[1])


@harness('P09', [dict(y=(0, 1, 0, 1), t=2), dict(y=(9, 4, 4), t=3, distance='HD'), dict(y=(-1, -5), t=2, distance='L1', verbose=1)],
         more=[dict(y=(0, 1, 0, 1, 1, 0), t=4), dict(y=(3, 3, 3, 2, 2), t=3)])
def probabilistic(e, y, t, distance='L2', verbose=0):
    a, b = sorted(set(y))
    P, T = e.probs('p', len(y), 2), e.probs('t', t, 2)
    q = e.mod('baselines.ac').PAC(distance=distance, verbose=verbose)
    s = e.snap(P), e.snap(T)
    q.fit(None, e.data(y), predictions_train=P)
    r = q.predict(None, predictions_test=T)
    av = lambda M, rows: e.mean([e.at(M, i, 1) for i in rows])
    tpr = av(P, [i for i in range(len(y)) if y[i] == b])
    fpr = av(P, [i for i in range(len(y)) if y[i] == a])
    check(e, r, tpr, fpr, av(T, range(t)))
    e.unchanged('training predictions unchanged', P, s[0])
    e.unchanged('test predictions unchanged', T, s[1])


Y9 = (3, -1, -1, 3, 3, -1, 3, 3, 3)


@harness('P09', [dict(cls='AC', y=Y9, t=6), dict(cls='PAC', y=Y9, t=6), dict(cls='AC', y=(-7, -4, -4, -4, -7), t=1), dict(cls='PAC', y=(-7, -4, -4, -4, -7), t=9), dict(cls='PAC', y=(2, 9, 9), t=5)])
def larger(e, cls, y, t):
    """more examples: two training and two test predictions are symbolic"""
    check(e, *answer(e, getattr(e.mod('baselines.ac'), cls)(), cls, y, t, ''))


def answer(e, q, cls, y, t, tag, refit=True):
    a, b = sorted(set(y))
    m = len(y)
    if cls == 'AC':
        P = mixed_labels(e, 'l' + tag, [v if i % 3 else (a if v == b else b) for i, v in enumerate(y)], (a, b), (0, m - 1))
        T = mixed_labels(e, 't' + tag, [(a, b, b)[i % 3] for i in range(t)], (a, b), (0, t - 1))
        f = lambda M, rows: e.mean([e.ind(e.flat(M)[i] == b) for i in rows])
    else:
        P, T = mixed_probs(e, 'l' + tag, m, 2, (0, m - 1)), mixed_probs(e, 't' + tag, t, 2, (0, t - 1))
        f = lambda M, rows: e.mean([e.at(M, i, 1) for i in rows])
    q.fit(None, e.data(y), predictions_train=P)
    r = q.predict(None, predictions_test=T)
    return r, f(P, [i for i in range(m) if y[i] == b]), f(P, [i for i in range(m) if y[i] == a]), f(T, range(t))


@harness('P09', [dict(cls=c, ys=((0, 1, 1), (5, -2, 5, -2)), t=2) for c in ('AC', 'PAC')] + [dict(cls=c, ys=((4, 1, 1, 4), (0, 1)), t=1) for c in ('AC', 'PAC')])
def again(e, cls, ys, t):
    """a second training set and further test sets: each answer from the present data alone"""
    q = getattr(e.mod('baselines.ac'), cls)()
    for j, y in enumerate(ys):
        r, tpr, fpr, rate = answer(e, q, cls, y, t, '%d_' % j)
        check(e, r, tpr, fpr, rate)
    a, b = sorted(set(ys[-1]))
    T = e.ints('u', t + 1, (a, b)) if cls == 'AC' else e.probs('u', t + 1, 2)
    rate = e.mean([e.ind(x == b) for x in e.flat(T)] if cls == 'AC' else [e.at(T, i, 1) for i in range(t + 1)])
    check(e, q.predict(None, predictions_test=T), tpr, fpr, rate)
