"""Loading and scaling of the data."""
from symq.harness import harness
from props.common import *

BOUNDS = 'training sets of 1-4 examples (constant features included) and test sets of 1-3 with 1-3 features, every value in [-3,3]; files of 2-4 lines with 1-3 features, every feature value and every label in -2..5'
OUTSIDE = 'features whose standard deviation is positive but below 0.001; files of one line; missing values; labels that are not integers'


def moments(e, X, a, m):
    col = [e.at(X, i, a) for i in range(m)]
    mu = e.mean(col)
    return mu, e.mean([(x - mu) * (x - mu) for x in col])


@harness('P41', [dict(m=m, t=t, d=d) for m, t, d in ((2, 1, 1), (3, 2, 1), (2, 2, 2), (1, 2, 1))], more=[dict(m=4, t=3, d=1), dict(m=3, t=3, d=3)])
def scaling(e, m, t, d):
    """both sets with the mean and the deviation of the training set"""
    X, Z = e.mat('x', m, d, -3, 3), e.mat('z', t, d, -3, 3)
    for a in range(d):
        mu, var = moments(e, X, a, m)
        e.assume(e.or_(*([e.and_(*[e.at(X, i, a) == e.at(X, 0, a) for i in range(m)])] + ([var >= 0.001] if m > 1 else []))))
    X0, Z0 = e.snap(X), e.snap(Z)
    A, B = e.mod('data_utils').normalize(X, Z)
    e.eq('shape of the training set', e.shape(A), (m, d))
    e.eq('shape of the test set', e.shape(B), (t, d))
    for a in range(d):
        mu, var = moments(e, X0, a, m)
        sd = e.sqrt(e.ite(var <= 0.0005, 1, var))
        for i in range(m):
            e.eq('training value', e.at(A, i, a) * sd, e.at(X0, i, a) - mu)
        for i in range(t):
            e.eq('test value', e.at(B, i, a) * sd, e.at(Z0, i, a) - mu)
    e.unchanged('training set', X, X0)
    e.unchanged('test set', Z, Z0)


@harness('P41', [dict(m=3), dict(m=2)])
def no_leak(e, m):
    """the training set is scaled in the same way whatever the test set; a test example whatever the others"""
    X, Z, W = e.mat('x', m, 1, -3, 3), e.mat('z', 2, 1, -3, 3), e.mat('w', 3, 1, -3, 3)
    mu, var = moments(e, X, 0, m)
    e.assume(var >= 0.001)
    f = e.mod('data_utils').normalize
    A, B = f(X, Z)
    A2, B2 = f(X, W)
    e.eq('training set', A, A2)
    _, C = f(X, Z[1:])
    e.eq('test example', C, B[1:])


@harness('P41', [dict(m=2, d=1), dict(m=3, d=2)], more=[dict(m=4, d=3)])
def loading(e, m, d):
    """the last column holds the labels"""
    X = e.mat('x', m, d, -3, 3)
    y = e.ints('y', m, list(range(-2, 6)))
    with e.text_table(e.np.hstack((X, y.reshape(-1, 1)))) as name:
        A, b = e.mod('data_utils').load_data(name)
    e.eq('shape', e.shape(A), (m, d))
    e.eq('shape of the labels', e.shape(b), (m,))
    e.eq('features', A, X)
    e.eq('labels', b, y)
    e.true('labels are integers', np.asarray(b).dtype.kind in 'iO')
