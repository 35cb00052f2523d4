"""Bags with covariate shift, and bags of both kinds."""
from symq.harness import harness
from props.common import *
from props.P30 import consistent, stored, minimum

BOUNDS = '1-3 bags of 1-3 examples, 2-3 training examples with 1-2 symbolic features, every labelling of 3 examples with 2 classes and concrete labellings with 3 classes, every outcome of the random draws; mixed generator with 2-5 bags, both prior-shift methods; up to 7 bags of 4-10 examples with 2-4 classes where one draw is arbitrary and the others are given, one example with symbolic features'
OUTSIDE = 'whether the draws follow the given probabilities; an implementation that draws without passing probabilities to the random state is not judged on its probabilities; examples so far apart that the kernel underflows to 0; a second generate_bags call, which returns the stored bags by design'


def covariate(e, rs, **kw):
    return e.mod('bag_generator').CovariateShift_BagGenerator(**dict(dict(random_state=rs), **kw))


def kernel(e, X, centre, d):
    m = len(X)
    k = [e.exp(-e.sum([(e.at(centre, c) - e.at(X, j, c)) * (e.at(centre, c) - e.at(X, j, c)) for c in range(d)]) / d) for j in range(m)]
    t = e.sum(k)
    return [v / t for v in k]


def drawn(e, log, idx, bags, size):
    """the bags hold the examples that were drawn"""
    asked = [l[4] for l in log if l[0] == 'choice']
    if len(asked) != bags or any(np.ndim(r) != 1 or len(r) != size for r in asked):
        return
    for b, r in enumerate(asked):
        for j in range(size):
            e.true('drawn example %d is in bag %d' % (j, b), e.or_(*[e.at(idx, k, b) == e.at(r, j) for k in range(size)]))
            e.true('example %d of bag %d was drawn' % (j, b), e.or_(*[e.at(idx, j, b) == e.at(r, k) for k in range(size)]))


def probabilities(e, log, X, d, bags, size):
    """what the random state is asked for"""
    m = len(X)
    draws = [v for l in log if l[0] == 'randint' for v in (l[3] if np.ndim(l[3]) else [l[3]])]
    asked = [l for l in log if l[0] == 'choice']
    if len(asked) != bags or len(draws) != bags:
        return
    for b in range(bags):
        _, n, _, p, _ = asked[b]
        e.true('among all the examples', n == m)
        e.true('with probabilities', p is not None)
        if p is None:
            continue
        e.true('a training example as centre', e.and_(draws[b] >= 0, draws[b] < m))
        k = kernel(e, X, X[draws[b], :], d)
        for j in range(m):
            e.eq('probability of example %d in bag %d' % (j, b), e.at(p, j), k[j])


@harness('P31', [dict(bags=1, size=2, m=2, d=1), dict(bags=2, size=1, m=3, d=1), dict(bags=1, size=2, m=3, d=2), dict(bags=2, size=None, m=2, d=2), dict(bags=1, size=3, m=3, d=1, y=(2, 0, 1))] + [dict(bags=1, size=2, m=3, d=1, y=('no', 'yes', 'maybe'))],
         more=[dict(bags=3, size=2, m=3, d=2), dict(bags=2, size=3, m=4, d=1, y=(1, 2, 0, 2))])
def covariate_shift(e, bags, size, m, d, y=(7, 3, 3)):
    cl, y = sorted(set(y[:m])), e.data(y[:m])
    X = e.mat('x', m, d, lo=-1, hi=1)
    rs = e.random_state('g')
    g = covariate(e, rs, n_bags=bags, bag_size=size)
    prev, idx = g.generate_bags(X, y)
    consistent(e, '', prev, idx, y, cl, bags, size or m)
    stored(e, g, prev, idx)
    probabilities(e, rs.log, X, d, bags, size or m)
    drawn(e, rs.log, idx, bags, size or m)


@harness('P31', [dict(bags=1, size=2, labels=(0, 1)), dict(bags=2, size=1, labels=(-3, 4))], more=[dict(bags=2, size=3, labels=(0, 1))])
def any_labels(e, bags, size, labels):
    y = e.ints('y', 3, labels)
    for l in labels:
        e.assume(e.or_(*[v == l for v in y]))
    g = covariate(e, e.random_state('g'), n_bags=bags, bag_size=size)
    prev, idx = g.generate_bags(e.data([[0.], [1.], [3.]]), y)
    consistent(e, '', prev, idx, y, labels, bags, size)


def mixed(e, **kw):
    return e.mod('bag_generator').PriorAndCovariateShift_BagGenerator(**dict(dict(random_state=e.random_state('g')), **kw))


@harness('P31', [dict(bags=2, size=2), dict(bags=3, size=2), dict(bags=3, size=2, method='Dirichlet', alphas=1.), dict(bags=2, size=None), dict(bags=2, size=3, y=(0, 2, 1)), dict(bags=2, size=4, min_prevalence=.3), dict(bags=2, size=5, min_prevalence=[.3, .2], seed=True), dict(bags=3, size=2, seed=True)] + [dict(bags=2, size=2, y=('no', 'yes', 'no'))],
         more=[dict(bags=5, size=2), dict(bags=4, size=2, method='Dirichlet', alphas=[1., 2.]), dict(bags=2, size=3, y=(0, 2, 1), method='Dirichlet', alphas=2.)], limit=90)
def both_kinds(e, bags, size, y=(4, 2, 4), method='Uniform', seed=False, **kw):
    """half of the bags, rounded down, have prior shift; the others covariate shift"""
    cl, y = sorted(set(y)), e.data(y)
    X = e.data([[0., 1.], [.5, 0.], [1., 1.]])
    g = mixed(e, n_bags=bags, bag_size=size, method=method, **dict(kw, random_state=5) if seed else kw)
    prev, idx = g.generate_bags(X, y)
    size = size or len(y)
    consistent(e, '', prev, idx, y, cl, bags, size)
    stored(e, g, prev, idx)
    if 'min_prevalence' in kw:
        m = kw['min_prevalence']
        minimum(e, prev[:, :bags // 2], m if isinstance(m, list) else [m] * len(cl), size, bags // 2)


@harness('P31', [dict(bags=3, size=2), dict(bags=4, size=1), dict(bags=5, size=1, method='Dirichlet', alphas=1.)], more=[dict(bags=5, size=2)])
def same_as_the_parts(e, bags, size, **kw):
    """with the same seed, the bags of both generators one after the other"""
    y, X = e.data((1, 0, 1)), e.data([[0.], [.5], [2.]])
    B = e.mod('bag_generator')
    prev, idx = B.PriorAndCovariateShift_BagGenerator(n_bags=bags, bag_size=size, random_state=5, **kw).generate_bags(X, y)
    k = bags // 2
    p1, i1 = B.PriorShift_BagGenerator(n_bags=k, bag_size=size, random_state=5, **kw).generate_bags(X, y)
    p2, i2 = B.CovariateShift_BagGenerator(n_bags=bags - k, bag_size=size, random_state=5).generate_bags(X, y)
    e.true('numbers', e.shape(prev) == (2, bags) and e.shape(idx) == (size, bags))
    e.eq('prior shift bags', prev[:, :k], p1)
    e.eq('prior shift examples', idx[:, :k], i1)
    e.eq('covariate shift bags', prev[:, k:], p2)
    e.eq('covariate shift examples', idx[:, k:], i2)


@harness('P31', [dict(both=False), dict(both=True)])
def equal_seeds(e, both):
    y, X = e.data((1, 0, 1)), e.data([[0.], [.5], [2.]])
    B = e.mod('bag_generator')
    G = B.PriorAndCovariateShift_BagGenerator if both else B.CovariateShift_BagGenerator
    a, b = G(n_bags=2, bag_size=2, random_state=9), G(n_bags=2, bag_size=2, random_state=9)
    pa, ia = a.generate_bags(X, y)
    pb, ib = b.generate_bags(X, y)
    e.eq('same prevalences', pa, pb)
    e.eq('same examples', ia, ib)
    e.raises('random state', lambda: G(n_bags=2, bag_size=2, random_state='x').generate_bags(X, y), ValueError)


@harness('P31', [dict(bags=3, size=7, d=2, y=(5, 0, -3, 9, 0, 5, 9, -3)), dict(bags=5, size=4, d=3, y=(4, -1, 4, -1, -1, 4, 4)), dict(bags=2, size=None, d=1, y=(7, -2, 3, 3, -2, 7, -2))], limit=60)
def larger(e, bags, size, d, y):
    """larger bags; one centre, one draw and the features of one example are arbitrary, the others given"""
    cl, m = sorted(set(y)), len(y)
    size = size or m
    X = e.arr([[e.real('x%d' % c, -1, 1) if i == 2 else row(i, 3)[c] for c in range(d)] for i in range(m)])
    for free in ((1,), (bags + 2,)):
        rs = e.random_state('g%d' % free[0], free=free)
        g = covariate(e, rs, n_bags=bags, bag_size=size)
        prev, idx = g.generate_bags(X, e.data(y))
        consistent(e, '', prev, idx, e.data(y), cl, bags, size)
        stored(e, g, prev, idx)
        probabilities(e, rs.log, X, d, bags, size)


@harness('P31', [dict(bags=5, size=6, y=(5, 0, -3, 9, 0, 5, 9, -3)), dict(bags=6, size=4, y=(4, -1, 4, -1, -1, 4, 4), method='Dirichlet', alphas=[0.5, 1.]), dict(bags=4, size=None, y=(7, -2, 3, 3, -2, 7, -2)), dict(bags=5, size=10, y=(7, -2, 3, 3, -2, 7, -2), min_prevalence=0.2), dict(bags=7, size=10, y=(4, -1, 4, -1, -1, 4, 4), min_prevalence=[0.3, 0.4])], limit=60)
def both_larger(e, bags, size, y, **kw):
    """larger bags of both kinds; one draw is arbitrary, the others given"""
    cl = sorted(set(y))
    X = e.data([row(i, 3) for i in range(len(y))])
    for free in ((1,), (len(cl) + 1,)):
        g = mixed(e, n_bags=bags, bag_size=size, random_state=e.random_state('g%d' % free[0], free=free), **kw)
        prev, idx = g.generate_bags(X, e.data(y))
        consistent(e, '', prev, idx, e.data(y), cl, bags, size or len(y))
        stored(e, g, prev, idx)
        if 'min_prevalence' in kw:
            m = kw['min_prevalence']
            minimum(e, prev[:, :bags // 2], m if isinstance(m, list) else [m] * len(cl), size, bags // 2)


@harness('P31', [dict(both=False), dict(both=True)], limit=60)
def many_examples(e, both, m=300):
    """large training sets: the indexes of the last examples must not be cut off"""
    cl, third = (-1, 4, 6), m // 3
    ends = {4: (0, third), 6: (third, 2 * third), -1: (2 * third, m)}
    y, X = e.data([4] * third + [6] * third + [-1] * third), e.data([[(i * 37 % 11) / 10., 1.] for i in range(m)])
    rs = e.random_state('g', free=(2, 3) if not both else (3,))
    g = mixed(e, n_bags=2, bag_size=2, random_state=rs) if both else covariate(e, rs, n_bags=1, bag_size=2)
    prev, idx = g.generate_bags(X, y)
    if not both:
        drawn(e, rs.log, idx, 1, 2)
    for b in range(2 if both else 1):
        for j in range(2):
            e.true('existing example', e.and_(e.at(idx, j, b) >= 0, e.at(idx, j, b) < m))
        for c, l in enumerate(cl):
            lo, hi = ends[l]
            e.eq('prevalence of class %d in bag %d' % (c, b), e.at(prev, c, b), e.sum([e.ind(e.and_(e.at(idx, j, b) >= lo, e.at(idx, j, b) < hi)) for j in range(2)]) / 2)
