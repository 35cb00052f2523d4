"""Bags with prior probability shift."""
from symq.harness import harness
from props.common import *

BOUNDS = '1-3 bags of 1-5 examples, 2-4 classes, every labelling of 3 training examples and concrete labellings of 4-5, every outcome of the random draws, uniform and Dirichlet methods, minimum prevalences None, one value (symbolic for 2 classes) or one per class; up to 6 bags of 4-20 examples with 2-4 classes where one draw of prevalences or of an example is arbitrary and the others are given'
OUTSIDE = 'more than one rejected draw of prevalences; the distribution of the draws (uniformity); alphas=None with the Dirichlet method, which numpy rejects; a second generate_bags call, which returns the stored bags by design; larger bags'


def generator(e, most=None, **kw):
    return e.mod('bag_generator').PriorShift_BagGenerator(**dict(dict(random_state=e.random_state('g', most)), **kw))


def consistent(e, label, prev, idx, y, classes, bags, size):
    """bags are as large as requested, hold existing examples and the reported prevalences are their label fractions"""
    n = len(classes)
    e.true(label + 'shapes', e.shape(prev) == (n, bags) and e.shape(idx) == (size, bags))
    m = len(y)
    if isinstance(classes[0], str):
        y, classes = [classes.index(str(v)) for v in y], list(range(n))
    for b in range(bags):
        for j in range(size):
            v = e.at(idx, j, b)
            e.true(label + 'existing example', e.and_(v >= 0, v < m))
        for c, cls in enumerate(classes):
            hits = [e.sum([e.ind(e.and_(e.at(idx, j, b) == r, (y[r] if isinstance(y, list) else e.at(y, r)) == cls)) for r in range(m)]) for j in range(size)]
            e.eq(label + 'prevalence of class %d in bag %d' % (c, b), e.at(prev, c, b), e.sum(hits) / size)
            e.le(label + 'not negative', 0, e.at(prev, c, b))
        e.eq(label + 'sums to 1', e.sum([e.at(prev, c, b) for c in range(n)]), 1)


def minimum(e, prev, mins, size, bags):
    for b in range(bags):
        for c, v in enumerate(mins):
            e.le('minimum prevalence', v - 0.5 / size, e.at(prev, c, b), 1e-9)


def examples(e, y):
    return e.data([[float(i), 1.] for i in range(len(y))])


def stored(e, g, prev, idx):
    e.eq('stored prevalences', g.prevalences_, prev)
    e.eq('stored indexes', g.indexes_, idx)


@harness('P30', [dict(bags=1, size=2, labels=(0, 1)), dict(bags=1, size=3, labels=(-2, 5)), dict(bags=1, size=2, labels=(0, 1), X=False)], more=[dict(bags=2, size=3, labels=(0, 1)), dict(bags=1, size=5, labels=(3, 4))], limit=120)
def uniform_any_labels(e, bags, size, labels, X=True):
    y = e.ints('y', 3, labels)
    for l in labels:
        e.assume(e.or_(*[v == l for v in y]))
    g = generator(e, n_bags=bags, bag_size=size)
    prev, idx = g.generate_bags(examples(e, y) if X else None, y)
    consistent(e, '', prev, idx, y, labels, bags, size)
    stored(e, g, prev, idx)


@harness('P30', [dict(bags=1, size=3, y=(0, 1, 2)), dict(bags=2, size=2, y=(7, 3, 3, 7)), dict(bags=1, size=4, y=(1, 0, 2, 1)), dict(bags=3, size=1, y=(1, 0)), dict(bags=1, size=None, y=(4, 2, 2)), dict(bags=1, size=5, y=(1, 0))] + [dict(bags=1, size=3, y=('no', 'yes', 'maybe'))],
         more=[dict(bags=2, size=3, y=(0, 1, 2)), dict(bags=1, size=4, y=(3, 0, 1, 2, 2)), dict(bags=3, size=2, y=(2, 1, 0))], limit=120)
def uniform(e, bags, size, y):
    cl, y = sorted(set(y)), e.data(y)
    g = generator(e, n_bags=bags, bag_size=size)
    prev, idx = g.generate_bags(examples(e, y), y)
    consistent(e, '', prev, idx, y, cl, bags, size or len(y))


@harness('P30', [dict(size=4, y=(0, 1, 1), m=0.25), dict(size=5, y=(0, 1, 1), m=0.3), dict(size=5, y=(0, 1, 1), m=[0.5, 0.1]), dict(size=5, y=(5, 2), m=(0.1, 0.5)), dict(size=4, y=(0, 1, 2), m=0.2), dict(size=7, y=(0, 1, 2), m=0.25, bags=1), dict(size=9, y=(0, 1, 2), m=0.22, bags=1), dict(size=8, y=(0, 1), m=0.25, bags=1), dict(size=5, y=(0, 2, 1), m=[0.1, 0.4, 0.1]), dict(size=5, y=(0, 2, 1), m=(0.4, 0.1, 0.2)), dict(size=5, y=(0, 2, 1), m=[0.1, 0.1, 0.4]),
                 dict(size=6, y=(0, 1, 2, 3), m=[0.1, 0.3, 0.1, 0.1], bags=1),
                 dict(size=3, y=(0, 1), m=0.0), dict(size=3, y=(0, 1, 2), m=0)],
         more=[dict(size=6, y=(0, 2, 1), m=0.2), dict(size=6, y=(0, 3, 1, 2), m=[0.1, 0.1, 0.3, 0.1], bags=1), dict(size=6, y=(0, 1), m=0.3, bags=2)], limit=120)
def minimum_prevalences(e, size, y, m, bags=1):
    cl, y = sorted(set(y)), e.data(y)
    mins = e.data(list(m)) if isinstance(m, tuple) else m
    g = generator(e, most=bags * size + 2 * (len(cl) - 1) if len(cl) > 2 else None, n_bags=bags, bag_size=size, min_prevalence=mins)
    prev, idx = g.generate_bags(None, y)
    consistent(e, '', prev, idx, y, cl, bags, size)
    minimum(e, prev, list(m) if isinstance(m, (list, tuple)) else [m] * len(cl), size, bags)


@harness('P30', [dict(size=4), dict(size=5)], more=[dict(size=7)], limit=120)
def any_minimum_prevalence(e, size):
    m = e.real('m', 0, 1)
    y = e.data((1, 0, 1))
    e.assume(m * size * 2 <= size - 2)          # feasible after rounding, on both sides
    g = generator(e, n_bags=1, bag_size=size, min_prevalence=m)
    prev, idx = g.generate_bags(None, y)
    consistent(e, '', prev, idx, y, (0, 1), 1, size)
    minimum(e, prev, [m, m], size, 1)


@harness('P30', [dict(bags=1, size=2, y=(0, 1, 1), alphas=1.0), dict(bags=1, size=3, y=(0, 1, 2), alphas=[1., 2., 3.]), dict(bags=2, size=2, y=(7, 3), alphas=(0.5, 4.)), dict(bags=1, size=4, y=(1, 0), alphas=[.1, .1]), dict(bags=1, size=None, y=(1, 0, 2, 1), alphas=1)] + [dict(bags=1, size=2, y=('no', 'yes', 'yes'), alphas=[1., 2.])],
         more=[dict(bags=1, size=4, y=(0, 1, 2, 3), alphas=1.), dict(bags=2, size=3, y=(0, 1, 2), alphas=2.)], limit=120)
def dirichlet(e, bags, size, y, alphas):
    cl, y = sorted(set(y)), e.data(y)
    a = e.data(list(alphas)) if isinstance(alphas, tuple) else alphas
    g = generator(e, n_bags=bags, bag_size=size, method='Dirichlet', alphas=a)
    prev, idx = g.generate_bags(examples(e, y), y)
    consistent(e, '', prev, idx, y, cl, bags, size or len(y))
    stored(e, g, prev, idx)


@harness('P30', [dict(method='Uniform'), dict(method='Dirichlet', alphas=1.), dict(method='Uniform', y=(0, 1, 2), min_prevalence=.1, size=4)])
def equal_seeds(e, method, y=(0, 1, 1), size=3, **kw):
    """two generators with the same seed make the same bags, and the draws of one are not those of the other"""
    y = e.data(y)
    G = e.mod('bag_generator').PriorShift_BagGenerator
    a = G(n_bags=1, bag_size=size, method=method, random_state=5, **kw)
    b = G(n_bags=1, bag_size=size, method=method, random_state=5, **kw)
    pa, ia = a.generate_bags(None, y)
    pb, ib = b.generate_bags(examples(e, y), y)
    e.eq('same prevalences', pa, pb)
    e.eq('same examples', ia, ib)
    e.true('own arrays', pa is not pb and ia is not ib)


@harness('P30', [dict()])
def invalid_settings(e):
    y2, y3 = e.data((0, 1)), e.data((0, 1, 2))

    def bad(label, y, **kw):
        e.raises(label, lambda: generator(e, **dict(dict(n_bags=1, bag_size=4), **kw)).generate_bags(None, y), ValueError)
    bad('method', y2, method='Normal')
    bad('random state', y2, random_state='x')
    bad('random state None', y2, random_state=None)
    bad('minimum over 1', y2, min_prevalence=1.1)
    bad('negative minimum', y2, min_prevalence=-0.1)
    bad('sum of minimums over 1', y2, min_prevalence=[0.7, 0.7])
    bad('one negative minimum', y3, min_prevalence=[0.2, -0.1, 0.2])
    bad('infeasible minimums', y3, min_prevalence=[0.3, 0.4, 0.3])
    bad('infeasible common minimum', y3, min_prevalence=0.5)
    bad('infeasible binary minimum', y2, min_prevalence=0.6)
    bad('number of alphas', y3, method='Dirichlet', alphas=[1., 1.])
    B = e.mod('bag_generator').BagGenerator
    e.raises('abstract', lambda: B().generate_bags(None, y2), NotImplementedError)


@harness('P30', [dict(bags=6, size=9, y=(4, -1, 4, -1, -1, 4, 4)), dict(bags=4, size=7, y=(7, -2, 3, 3, -2, 7, -2)), dict(bags=3, size=8, y=(5, 0, -3, 9, 0, 5, 9, -3, 5)), dict(bags=3, size=None, y=(5, 0, -3, 9, 0, 5, 9, -3, 5)), dict(bags=3, size=7, y=(7, -2, 3, 3, -2, 7, -2), method='Dirichlet', alphas=2.), dict(bags=4, size=9, y=(4, -1, 4, -1, -1, 4, 4), method='Dirichlet', alphas=[0.5, 1.]), dict(bags=3, size=11, y=(5, 0, -3, 9, 0, 5, 9, -3, 5), method='Dirichlet', alphas=[0.5, 1., 2., 1.], shares=False),
                 dict(bags=4, size=20, y=(4, -1, 4, -1, -1, 4, 4), min_prevalence=[0.2, 0.45]), dict(bags=3, size=20, y=(7, -2, 3, 3, -2, 7, -2), min_prevalence=[0.1, 0.05, 0.2]), dict(bags=1, size=20, y=(5, 0, -3, 9, 0, 5, 9, -3, 5), min_prevalence=0.1), dict(bags=5, size=10, y=(7, -2, 3, 3, -2, 7, -2), X=True)], limit=60)
def larger(e, bags, size, y, X=False, shares=True, **kw):
    """larger bags; one draw of prevalences and one example are arbitrary, the others given"""
    cl = sorted(set(y))
    for free in (((1,), (len(cl) + 1,)) if kw.get('method') != 'Dirichlet' else ((2,), (bags + 2,)))[0 if shares else 1:]:
        g = e.mod('bag_generator').PriorShift_BagGenerator(n_bags=bags, bag_size=size, random_state=e.random_state('g%d' % free[0], free=free), **kw)
        prev, idx = g.generate_bags(e.data([[float(i), 2.] for i in range(len(y))]) if X else None, e.data(y))
        consistent(e, '', prev, idx, e.data(y), cl, bags, size or len(y))
        stored(e, g, prev, idx)
        if 'min_prevalence' in kw:
            m = kw['min_prevalence']
            minimum(e, prev, list(m) if isinstance(m, list) else [m] * len(cl), size, bags)


@harness('P30', [dict(m=m, method=a) for m in (300,) for a in ('Uniform', 'Dirichlet')], limit=60, witnesses=3)
def many_examples(e, m, method):
    """large training sets: the indexes of the last examples must not be cut off"""
    cl, third = (-1, 4, 6), m // 3
    y = e.data([4] * third + [6] * third + [-1] * (m - 2 * third))
    ends = {4: (0, third), 6: (third, 2 * third), -1: (2 * third, m)}
    g = generator(e, n_bags=1, bag_size=2, method=method, **(dict(alphas=1.) if method == 'Dirichlet' else {}))
    prev, idx = g.generate_bags(None, y)
    e.true('shapes', e.shape(prev) == (3, 1) and e.shape(idx) == (2, 1))
    for j in range(2):
        e.true('existing example', e.and_(e.at(idx, j, 0) >= 0, e.at(idx, j, 0) < m))
    for c, l in enumerate(cl):
        a, b = ends[l]
        e.eq('prevalence of class %d' % c, e.at(prev, c, 0), e.sum([e.ind(e.and_(e.at(idx, j, 0) >= a, e.at(idx, j, 0) < b)) for j in range(2)]) / 2)
