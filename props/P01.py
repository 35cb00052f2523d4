"""Algebraic prevalence errors."""
from symq.harness import harness

BOUNDS = 'vectors of 2 to 8 non-negative components (thorough: 20; axioms: 2), values in [0,1]; one-dimensional vectors, columns, mixtures of both and matrices of one row'
OUTSIDE = 'more classes; negative prevalences; rounding of binary64'


def refs(e, p, q):
    n = len(p)
    d = [a - b for a, b in zip(p, q)]
    return dict(
        mean_absolute_error=e.sum([e.abs(x) for x in d]) / n,
        mean_squared_error=e.sum([x * x for x in d]) / n,
        l1=e.sum([e.abs(x) for x in d]),
        l2=e.sqrt(e.sum([x * x for x in d])),
        hd=e.sqrt(e.sum([(e.sqrt(a) - e.sqrt(b)) * (e.sqrt(a) - e.sqrt(b)) for a, b in zip(p, q)])),
    )


def shapes(e, p, q, kind):
    if kind == 'row':
        return p, q
    if kind == 'col':
        return e.col(p), e.col(q)
    if kind == 'line':      # one row of a matrix
        return e.arr([e.flat(p)]), e.arr([e.flat(q)])
    return p, e.col(q)


SIMPLE = ('mean_absolute_error', 'mean_squared_error', 'l1', 'l2')


@harness('P01', [dict(f=f, n=n, kind=k) for f in SIMPLE for n, k in ((2, 'row'), (3, 'row'), (3, 'col'), (2, 'mix'), (4, 'row'), (5, 'mix'), (8, 'row'), (6, 'col'), (3, 'line'))],
         more=[dict(f=f, n=n, kind=k) for f in SIMPLE for n, k in ((12, 'row'), (4, 'mix'), (3, 'mix'), (20, 'col'))])
def formula(e, f, n, kind):
    m = e.mod('metrics.multiclass')
    p, q = e.vec('p', n), e.vec('q', n)
    sp, sq = e.snap(p), e.snap(q)
    a, b = shapes(e, p, q, kind)
    v = getattr(m, f)(a, b)
    e.eq(f + ' equals its definition', v, refs(e, e.flat(p), e.flat(q))[f])
    e.unchanged('arguments unchanged', p, sp)
    e.unchanged('arguments unchanged', q, sq)


@harness('P01', [dict(n=2, kind='row'), dict(n=3, kind='row'), dict(n=2, kind='col'), dict(n=2, kind='mix'), dict(n=4, kind='row'), dict(n=5, kind='mix'), dict(n=7, kind='row'), dict(n=3, kind='line')], more=[dict(n=10, kind='row'), dict(n=3, kind='col')])
def hellinger(e, n, kind):
    m = e.mod('metrics.multiclass')
    p, q = e.vec('p', n), e.vec('q', n)
    a, b = shapes(e, p, q, kind)
    e.eq('hd equals its definition', m.hd(a, b), refs(e, e.flat(p), e.flat(q))['hd'])


@harness('P01', [dict(n=2, kind='row'), dict(n=3, kind='row'), dict(n=3, kind='col'), dict(n=4, kind='row'), dict(n=5, kind='mix'), dict(n=7, kind='row'), dict(n=3, kind='line')], more=[dict(n=10, kind='row'), dict(n=3, kind='mix')])
def bray_curtis(e, n, kind):
    m = e.mod('metrics.multiclass')
    p, q = e.vec('p', n), e.vec('q', n)
    P, Q = e.flat(p), e.flat(q)
    e.assume(e.sum(P) + e.sum(Q) > 0)
    a, b = shapes(e, p, q, kind)
    num = e.sum([e.abs(x - y) for x, y in zip(P, Q)])
    v = m.bray_curtis(a, b)
    e.eq('bray_curtis equals its definition', v * (e.sum(P) + e.sum(Q)), num)
    e.true('bray_curtis is not negative', v >= 0)


@harness('P01', [dict(n=2, kind='row'), dict(n=3, kind='row'), dict(n=2, kind='mix'), dict(n=4, kind='row'), dict(n=5, kind='mix'), dict(n=7, kind='row'), dict(n=3, kind='line')], more=[dict(n=10, kind='row'), dict(n=3, kind='col')])
def probsymmetric(e, n, kind):
    m = e.mod('metrics.multiclass')
    p, q = e.vec('p', n), e.vec('q', n)
    P, Q = e.flat(p), e.flat(q)
    a, b = shapes(e, p, q, kind)
    eps = 1e-20      # the documented smoothing constant
    ref = 2 * e.sum([(x - y) * (x - y) / (x + y + eps) for x, y in zip(P, Q)])
    e.eq('probsymmetric equals its definition', m.probsymmetric(a, b), ref)


ALL = SIMPLE + ('hd', 'bray_curtis', 'probsymmetric')


@harness('P01', [dict(f=f) for f in ALL])
def distance_axioms(e, f):
    m = getattr(e.mod('metrics.multiclass'), f)
    n = 2
    p, q = e.vec('p', n), e.vec('q', n)
    for x, y in zip(e.flat(p), e.flat(q)):
        e.assume(x + y > 0)
    v = m(p, q)
    e.eq(f + ' is symmetric', v, m(q, p))
    e.true(f + ' is not negative', v >= 0)
    same = e.and_(*[x == y for x, y in zip(e.flat(p), e.flat(q))])
    e.true(f + ' is zero only for equal vectors', e.or_(v > 0, same))


@harness('P01', [dict(f=f, n=n) for f in ALL for n in (3, 6)])
def zero_on_equal(e, f, n):
    m = getattr(e.mod('metrics.multiclass'), f)
    p = e.vec('p', n, 0.01)
    e.eq(f + ' of equal vectors is 0', m(p, e.snap(p)), 0)
