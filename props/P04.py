"""Earth mover metrics."""
from symq.harness import harness

BOUNDS = 'distributions over 2 to 8 ordered classes (score: 6), row and column shaped; pairwise sets of 1 to 5 rows over 2 to 7 classes'
OUTSIDE = 'more classes; rounding of binary64'


def emd_ref(e, P, Q):
    t, c = 0, 0
    for x, y in zip(P[:-1], Q[:-1]):
        c = c + x - y
        t = t + e.abs(c)
    return t


def shaped(e, p, kind):
    return e.col(p) if kind == 'col' else p


@harness('P04', [dict(n=2), dict(n=3), dict(n=3, kind='col'), dict(n=4), dict(n=6), dict(n=8, kind='col')], more=[dict(n=5), dict(n=12), dict(n=4, kind='col')])
def emd(e, n, kind='row'):
    m = e.mod('metrics.ordinal')
    p, q = e.simplex('p', n), e.simplex('q', n)
    sp, sq = e.snap(p), e.snap(q)
    v = m.emd(shaped(e, p, kind), shaped(e, q, kind))
    e.eq('emd is the L1 distance of the cumulative distributions', v, emd_ref(e, e.flat(p), e.flat(q)))
    e.unchanged('arguments unchanged', p, sp)
    e.unchanged('arguments unchanged', q, sq)


@harness('P04', [dict(n=2), dict(n=3), dict(n=3, kind='col'), dict(n=4), dict(n=6), dict(n=5, kind='col')], more=[dict(n=5), dict(n=8)])
def score(e, n, kind='row'):
    m = e.mod('metrics.ordinal')
    p, q = e.simplex('p', n), e.simplex('q', n)
    P = e.flat(p)
    v = m.emd_score(shaped(e, p, kind), shaped(e, q, kind))
    left = e.sum([i * x for i, x in enumerate(P)])
    right = e.sum([(n - 1 - i) * x for i, x in enumerate(P)])
    worst = left if left >= right else right
    e.eq('emd_score is the normalised distance to the worst prediction', v * worst, worst - emd_ref(e, P, e.flat(q)))
    if n > 5:
        return
    e.le('emd_score is at least 0', 0, v)
    e.le('emd_score is at most 1', v, 1)


@harness('P04', [dict(n=2), dict(n=3), dict(n=4), dict(n=6)], more=[dict(n=5), dict(n=8)])
def score_extremes(e, n):
    m = e.mod('metrics.ordinal')
    p = e.simplex('p', n)
    P = e.flat(p)
    e.eq('a perfect prediction scores 1', m.emd_score(p, e.snap(p)), 1)
    left = e.sum([i * x for i, x in enumerate(P)])
    right = e.sum([(n - 1 - i) * x for i, x in enumerate(P)])
    w = [0.0] * n
    if left >= right:
        w[0] = 1.0
    else:
        w[-1] = 1.0
    e.eq('the worst prediction scores 0', m.emd_score(p, e.data(w)), 0)


@harness('P04', [dict(n=2, a=2, b=1), dict(n=3, a=2, b=2), dict(n=3, a=1, b=3), dict(n=4, a=2, b=2), dict(n=6, a=1, b=5), dict(n=3, a=5, b=4), dict(n=7, a=1, b=1)], more=[dict(n=5, a=2, b=2), dict(n=4, a=3, b=3)])
def pairwise(e, n, a, b):
    m = e.mod('metrics.ordinal')
    A, B = e.probs('a', a, n), e.probs('b', b, n)
    sa, sb = e.snap(A), e.snap(B)
    D = m.emd_distances(A, B)
    e.true('one distance per pair', e.shape(D) == (a, b))
    for i in range(a):
        for j in range(b):
            e.eq('emd_distances of a pair', e.at(D, i, j), emd_ref(e, e.flat(A[i]), e.flat(B[j])))
    e.unchanged('arguments unchanged', A, sa)
    e.unchanged('arguments unchanged', B, sb)


@harness('P04', [dict(n=3), dict(n=4)])
def agree(e, n):
    """pairwise and single distances agree"""
    m = e.mod('metrics.ordinal')
    A, B = e.probs('a', 1, n), e.probs('b', 1, n)
    e.eq('emd_distances agrees with emd', e.at(m.emd_distances(A, B), 0, 0), m.emd(A[0], B[0]))
