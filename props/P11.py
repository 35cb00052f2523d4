"""Variance-corrected binary quantifier."""
from symq.harness import harness
from props.common import *

BOUNDS = '2 classes, 2-4 training and 1-3 test examples, every probability table with training variance at least 0.001; up to 9 training and 7 test examples with two symbolic rows each; second training sets and test sets; labels of any order and value; verbose on and off'
OUTSIDE = 'training scores all equal to the training prevalence (Vt = 0, the formula divides by it)'


@harness('P11', [dict(y=(0, 1), t=2), dict(y=(5, 2, 5, 5), t=1, verbose=1), dict(y=(-3, -3, 0), t=3), dict(y=(1, 1, 1, 0), t=2)],
         more=[dict(y=(0, 1, 1, 0, 1), t=4), dict(y=(8, 9, 9, 9, 9, 9), t=3)])
def formula(e, y, t, verbose=0):
    q = e.mod('binary.debias').DeBias(verbose=verbose)
    check(e, q, y, e.probs('p', len(y), 2), e.probs('t', t, 2))


@harness('P11', [dict(y=(3, -1, -1, 3, 3, -1, 3, 3, 3), t=6), dict(y=(-7, -4, -4, -4, -4), t=1), dict(y=(2, 9, 9), t=7)])
def larger(e, y, t):
    """more examples: two training and two test predictions are symbolic"""
    check(e, e.mod('binary.debias').DeBias(), y, mixed_probs(e, 'p', len(y), 2, (0, len(y) - 1)), mixed_probs(e, 't', t, 2, (0, t - 1)))


@harness('P11', [dict(ys=((0, 1, 1), (5, -2, 5, -2)), t=2), dict(ys=((4, 1, 1, 4), (0, 1)), t=1)])
def again(e, ys, t):
    """a second training set and further test sets"""
    q = e.mod('binary.debias').DeBias()
    for j, y in enumerate(ys):
        P = e.probs('p%d_' % j, len(y), 2)
        check(e, q, y, P, e.probs('t%d_' % j, t, 2))
    check(e, q, y, P, e.probs('u', t + 1, 2), fit=False)


def check(e, q, y, P, T, fit=True):
    a, b = sorted(set(y))
    m, t = len(y), e.shape(T)[0]
    c = sum(1 for v in y if v == b) / m
    at = e.mean([(e.at(P, i, 1) - c) * (e.at(P, i, 1) - c) for i in range(m)])
    e.assume(at >= 0.001)
    s = e.snap(P), e.snap(T)
    if fit:
        q.fit(None, e.data(y), predictions_train=P)
    r = e.flat(q.predict(None, predictions_test=T))
    e.true('two prevalences', len(r) == 2)
    vt = at / (c * (1 - c))
    p = c + (e.mean([e.at(T, i, 1) for i in range(t)]) - c) / vt
    p = e.clip01(p)
    e.eq('positive prevalence follows the closed form', r[1], p)
    e.eq('negative prevalence is the complement', r[0], 1 - p)
    e.unchanged('training predictions unchanged', P, s[0])
    e.unchanged('test predictions unchanged', T, s[1])


@harness('P11', [dict(y=(0, 1, 2)), dict(y=(4, 4))])
def not_binary(e, y):
    P = e.probs('p', len(y), max(2, len(set(y))))
    e.raises('only two classes are accepted', lambda: e.mod('binary.debias').DeBias().fit(None, e.data(y), predictions_train=P))
