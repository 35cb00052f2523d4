"""Brier score and geometric mean."""
from symq.harness import harness

BOUNDS = 'Brier: up to 6 examples and 5 classes; geometric mean: up to 4 examples with every pair of labellings over 3 label values (up to 20 examples and 5 labels with two free pairs), with and without correction'
OUTSIDE = 'more examples or labels; the n-th root is compared through its power'


@harness('P05', [dict(m=1, n=2), dict(m=2, n=3), dict(m=3, n=2), dict(m=6, n=4), dict(m=4, n=5), dict(m=1, n=1)], more=[dict(m=12, n=6)])
def brier(e, m, n):
    mod = e.mod('metrics.multiclass')
    p, q = e.mat('p', m, n), e.mat('q', m, n)
    sp, sq = e.snap(p), e.snap(q)
    ref = e.sum([e.sum([(x - y) * (x - y) for x, y in zip(e.flat(p[i]), e.flat(q[i]))]) for i in range(m)]) / m
    e.eq('brier_multi equals its definition', mod.brier_multi(p, q), ref)
    e.unchanged('arguments unchanged', p, sp)
    e.unchanged('arguments unchanged', q, sq)


def check(e, mod, a, b, corr, eqs_t, eqs_p):
    """eqs_t[l][i]: does example i truly have label l"""
    m = len(eqs_t[0])
    v = mod.geometric_mean(a, b, correction=corr) if corr else mod.geometric_mean(a, b)
    prod, k = 1, 0
    for et, ep in zip(eqs_t, eqs_p):
        if not e.or_(*et, *ep):
            continue
        k += 1
        nt = e.sum([e.ind(x) for x in et])
        hit = e.sum([e.ind(e.and_(x, y)) for x, y in zip(et, ep)])
        if nt == 0 or hit == 0:
            prod = prod * corr
        else:
            prod = prod * hit / nt
    p = 1
    for _ in range(k):
        p = p * v
    e.eq('geometric mean of the recalls', p, prod)
    e.le('geometric mean is not negative', 0, v)


@harness('P05', [dict(m=3, labels=(0, 1, 2), corr=0.0), dict(m=3, labels=(1, 5, 9), corr=0.0), dict(m=2, labels=(-3, 0, 7), corr=0.01),
                 dict(m=4, labels=(0, 2), corr=0.001)],
         more=[dict(m=4, labels=(0, 1, 2), corr=0.0), dict(m=4, labels=(2, 5, 6), corr=0.1), dict(m=5, labels=(0, 1, 2), corr=0.25)], max_paths=100000)
def gmean(e, m, labels, corr):
    pairs(e, e.ints('t', m, labels), e.ints('p', m, labels), labels, corr)


@harness('P05', [dict(t=(4, -1, 2, 7, 4, 2), p=(4, -1, 2, 7, 2, 2), labels=(-1, 2, 4, 7), corr=0.01, at=(0, 3)), dict(t=(1, 2, 3, 4, 5, 1, 2, 3, 4, 5), p=(1, 2, 3, 4, 5, 1, 2, 3, 4, 4), labels=(1, 2, 3, 4, 5), corr=0.0, at=(8, 9)),
                 dict(t=(0, 1) * 10, p=(0, 1, 1, 1) * 5, labels=(0, 1), corr=0.0, at=(0, 19)), dict(t=(3, 8, 5), p=(3, 8, 5), labels=(3, 5, 8), corr=0.2, at=(0, 1))], max_paths=100000)
def gmean_larger(e, t, p, labels, corr, at):
    """more examples and labels: two of the pairs are free"""
    a, b = list(t), list(p)
    for i in at:
        a[i], b[i] = e.int('t%d' % i, labels), e.int('p%d' % i, labels)
    pairs(e, e.arr(a, 'i'), e.arr(b, 'i'), labels, corr)


def pairs(e, a, b, labels, corr):
    mod = e.mod('metrics.multiclass')
    sa, sb = e.snap(a), e.snap(b)
    check(e, mod, a, b, corr, [[x == l for x in a] for l in labels], [[x == l for x in b] for l in labels])
    e.unchanged('arguments unchanged', a, sa)
    e.unchanged('arguments unchanged', b, sb)


@harness('P05', [dict(m=2, labels=('a', 'b'), corr=0.5)], more=[dict(m=3, labels=('x', 'b', 'c'), corr=0.5)], max_paths=100000)
def gmean_names(e, m, labels, corr):
    """labels that are names"""
    mod = e.mod('metrics.multiclass')
    yt = [e.pick('t%d' % i, list(labels)) for i in range(m)]
    yp = [e.pick('p%d' % i, list(labels)) for i in range(m)]
    check(e, mod, e.data(yt), e.data(yp), corr, [[x == l for x in yt] for l in labels], [[x == l for x in yp] for l in labels])
