"""Binary prevalence metrics."""
from symq.harness import harness

BOUNDS = 'every pair of prevalences in [0,1] x [0,1], as scalars; the corners also as Python floats'
OUTSIDE = 'vector arguments; rounding of binary64'


def ref(e, f, p, q):
    d = q - p
    a = e.abs(d)
    if f == 'bias':
        return d
    if f == 'absolute_error':
        return a
    if f == 'squared_error':
        return d * d
    if f == 'relative_absolute_error':
        return a / (1e-12 if p == 0 else p)
    if f == 'symmetric_absolute_percentage_error':
        return 0 if p + q == 0 else a / (p + q)
    m = e.max(p, 1 - p)
    if f == 'normalized_absolute_score':
        return 1 - a / m
    return 1 - (a / m) * (a / m)


FS = ('bias', 'absolute_error', 'squared_error', 'relative_absolute_error', 'symmetric_absolute_percentage_error',
      'normalized_absolute_score', 'normalized_squared_score')


@harness('P03', [dict(f=f) for f in FS])
def formula(e, f):
    g = getattr(e.mod('metrics.binary'), f)
    p, q = e.real('p', 0, 1), e.real('q', 0, 1)
    v = g(p, q)
    e.finite(f + ' is finite', v)
    e.eq(f + ' equals its definition', v, ref(e, f, p, q))


@harness('P03', [dict(f=f) for f in FS])
def boundary(e, f):
    g = getattr(e.mod('metrics.binary'), f)
    p = e.pick('p', [0.0, 0.5, 1.0])
    q = e.real('q', 0, 1)
    v = g(p, q)
    e.finite(f + ' is finite', v)
    e.eq(f + ' equals its definition', v, ref(e, f, p, q))
    v = g(q, p)
    e.finite(f + ' is finite', v)
    e.eq(f + ' equals its definition', v, ref(e, f, q, p))
    v = g(p, p)
    e.eq(f + ' of a perfect prediction', v, 1 if f.startswith('normalized') else 0)


@harness('P03', [dict(f=f) for f in ('normalized_absolute_score', 'normalized_squared_score', 'symmetric_absolute_percentage_error')])
def range01(e, f):
    g = getattr(e.mod('metrics.binary'), f)
    p, q = e.real('p', 0, 1), e.real('q', 0, 1)
    v = g(p, q)
    e.true(f + ' is at least 0', v >= 0) if e.sym else e.le(f + ' is at least 0', 0, v)
    e.true(f + ' is at most 1', v <= 1) if e.sym else e.le(f + ' is at most 1', v, 1)


@harness('P03', [dict(f=f) for f in ('normalized_absolute_score', 'normalized_squared_score')])
def extremes(e, f):
    g = getattr(e.mod('metrics.binary'), f)
    p, q = e.real('p', 0, 1), e.real('q', 0, 1)
    e.eq('the worst prediction scores 0', g(p, 1.0 if p < 0.5 else 0.0), 0)
    v = g(p, q)
    if p != q:
        e.true('only a perfect prediction scores 1', v < 1)
