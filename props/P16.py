"""The mixture solvers: problems posed, reuse, and the matrix of the quadratic problem."""
from symq.harness import harness
from props.common import *
import numpy as np

BOUNDS = '2-5 classes (the posed problem for every training column up to 3 classes, concrete training columns for 4 and 5), 2-3 bins (4 thorough), every training column and test vector in [0,1]; two or three consecutive test vectors per problem; up to 5 classes and 16 bins with two symbolic values per test vector; quadratic matrices 1x1 to 3x3; concrete singular and indefinite matrices for the positive definite repair'
OUTSIDE = 'accuracy of the external solvers (cvxpy/ECOS/quadprog) beyond the 5e-3 tolerance of the replay; repair of symbolic matrices larger than 1x1 (eigenvalue iteration); training matrices that are entirely zero'


def solve(e, dist, A, t, n, prob=None, **kw):
    o = e.mod('optimization')
    if dist == 'L1':
        return o.solve_l1(train_distrib=A, test_distrib=t, n_classes=n, problem=prob, **kw)
    return o.solve_hd(train_distrib=A, test_distrib=t, n_classes=n, problem=prob, **kw)


def loss(e, dist, A, t, n, k):
    return mixture_loss(e, dist, [[e.at(A, i, c) for i in range(k)] for c in range(n)], [v for v in e.flat(t)])


@harness('P16', [dict(dist=d, n=n, k=k, column=c) for d in ('L1', 'HD') for n, k, c in ((2, 2, False), (2, 3, True), (3, 2, True))] + [dict(dist='L1', n=2, k=2, column=True, solver='ECOS'), dict(dist='L1', n=4, k=4, column=True), dict(dist='HD', n=4, k=3, column=True), dict(dist='L1', n=5, k=3, column=True)],
         more=[dict(dist='L1', n=3, k=4, column=True), dict(dist='HD', n=3, k=3, column=False), dict(dist='HD', n=5, k=4, column=True), dict(dist='L1', n=6, k=5, column=True)])
def problem(e, dist, n, k, column, solver=None):
    """the problem posed from scratch"""
    A, t = e.mat('a', k, n), e.vec('t', k)
    if column:
        t = e.col(t)
    s = e.snap(A), e.snap(t)
    p, r = solve(e, dist, A, t, n, **({} if solver is None else dict(solver=solver)))
    e.minimises('minimum over the simplex', r, n, loss(e, dist, A, t, n, k))
    e.unchanged('training columns unchanged', A, s[0])
    e.unchanged('test vector unchanged', t, s[1])
    e.true('the problem is returned for reuse', p is not None)


@harness('P16', [dict(dist=d, n=n, k=k) for d in ('L1', 'HD') for n, k in ((2, 2), (3, 2))] + [dict(dist='L1', n=2, k=3, times=3), dict(dist='L1', n=3, k=2, most=3), dict(dist='HD', n=2, k=2, most=3)], more=[dict(dist='HD', n=2, k=3, times=3), dict(dist='L1', n=3, k=3, times=3)])
def reuse(e, dist, n, k, times=2, most=1):
    """a problem built for a test vector solves the problem of the next test vector (cumulated vectors go beyond 1)"""
    A = e.mat('a', k, n, 0, most)
    p = None
    for i in range(times):
        t = e.col(e.vec('t%d_' % i, k, 0, most))
        p, r = solve(e, dist, A, t, n, p)
        e.minimises('minimum for test vector %d' % (i + 1), r, n, loss(e, dist, A, t, n, k))


def minors(e, M):
    n = len(M)
    def det(m):
        if len(m) == 1:
            return m[0][0]
        s = 0
        for j in range(len(m)):
            s = s + ((-1) ** j) * m[0][j] * det([r[:j] + r[j + 1:] for r in m[1:]])
        return s
    return [det([r[:i] for r in M[:i]]) for i in range(1, n + 1)]


@harness('P16', [dict(n=1), dict(n=2), dict(n=3)])
def is_pd(e, n):
    """the positive definite test agrees with the leading minors"""
    v = {}
    for i in range(n):
        for j in range(i, n):
            v[i, j] = e.real('m%d%d' % (i, j), -2, 2)
    M = [[v[min(i, j), max(i, j)] for j in range(n)] for i in range(n)]
    ms = minors(e, M)
    for m in ms:
        e.assume(e.or_(m >= 0.001, m <= -0.001))
    want = e.and_(*[m > 0 for m in ms])
    A = e.arr(M)
    s = e.snap(A)
    got = e.mod('optimization').is_pd(A)
    e.true('positive definite exactly when all leading minors are positive', e.and_(e.or_(e.not_(got), want), e.or_(e.not_(want), got)))
    e.unchanged('matrix unchanged', A, s)


@harness('P16', [dict(n=2, k=2), dict(n=2, k=3)], more=[dict(n=3, k=3)])
def l2_matrix(e, n, k):
    """positive definite matrices are used exactly; the constraints describe the simplex"""
    A, t = e.mat('a', k, n), e.col(e.vec('t', k))
    cols = [[e.at(A, i, c) for i in range(k)] for c in range(n)]
    ex = [[2 * e.sum([a * b for a, b in zip(cols[i], cols[j])]) for j in range(n)] for i in range(n)]
    for m in minors(e, ex):
        e.assume(m >= 0.001)
    o = e.mod('optimization')
    G, C, b = o.compute_l2_param_train(A, e.data(list(range(n))))
    e.eq('exact matrix', G, e.arr(ex))
    r = o.solve_l2(train_distrib=A, test_distrib=t, G=G, C=C, b=b)
    e.minimises('minimum of the squared distance', r, n, loss(e, 'L2', A, t, n, k))


WIDE = {4: [[.7, .1, .05, .2], [.1, .6, .2, .05], [.15, .1, .7, .15], [.05, .2, .05, .6]], 5: [[.6, .1, .1, .0, .2], [.1, .5, .1, .2, .1], [.1, .2, .6, .1, 0.], [.1, .1, .1, .6, .1], [.1, .1, .1, .1, .6], [.3, .1, .0, .2, .1]]}


@harness('P16', [dict(n=4), dict(n=5, times=2)])
def l2_wide(e, n, times=1):
    """four and five classes, given training columns, every test vector"""
    A = e.arr(WIDE[n])
    k = len(WIDE[n])
    o = e.mod('optimization')
    G, C, b = o.compute_l2_param_train(A, e.data(list(range(n))))
    cols = [[r[c] for r in WIDE[n]] for c in range(n)]
    e.eq('exact matrix', G, e.arr([[2 * sum(a * b for a, b in zip(cols[i], cols[j])) for j in range(n)] for i in range(n)]))
    for i in range(times):
        t = e.col(e.vec('t%d_' % i, k))
        r = o.solve_l2(train_distrib=A, test_distrib=t, G=G, C=C, b=b)
        e.minimises('minimum of the squared distance', r, n, mixture_loss(e, 'L2', cols, e.flat(t)))


SING = {'equal columns': [[0.5, 0.5], [0.5, 0.5]], 'zero column': [[0.5, 0.0], [0.5, 0.0]], 'three, rank 2': [[1.0, 0.0, 0.5], [0.0, 1.0, 0.5]], 'three equal': [[0.25] * 3] * 2, 'almost': [[0.5, 0.5000001], [0.5, 0.4999999]]}


@harness('P16', [dict(case=c) for c in SING])
def l2_singular(e, case):
    """singular training matrices are replaced by a positive definite one close to them, and the result is optimal"""
    A = e.arr(SING[case])
    k, n = e.shape(A)
    o = e.mod('optimization')
    G, C, b = o.compute_l2_param_train(A, e.data(list(range(n))))
    g = [[float(e.at(G, i, j)) for j in range(n)] for i in range(n)]
    a = np.array(SING[case])
    ex = 2 * a.T.dot(a)
    e.true('symmetric', all(abs(g[i][j] - g[j][i]) <= 1e-9 for i in range(n) for j in range(n)))
    e.true('positive definite up to rounding', min(np.linalg.eigvalsh(np.array(g))) > -1e-9)
    e.eq('close to the exact matrix', e.arr(g), e.arr(ex.tolist()), tol=1e-4)
    t = e.col(e.vec('t', k))
    r = o.solve_l2(train_distrib=A, test_distrib=t, G=G, C=C, b=b)
    e.minimises('minimum of the squared distance', r, n, mixture_loss(e, 'L2', [[float(a[i, c]) for i in range(k)] for c in range(n)], e.flat(t)), tol=5e-3)


@harness('P16', [dict(n=1)])
def nearest(e, n):
    """the repair of a 1x1 matrix"""
    x = e.real('x', -2, 2)
    e.assume(e.or_(x >= 0.001, x <= -0.001, e.and_(x >= 0, x <= 0)))
    A = e.arr([[x]])
    s = e.snap(A)
    M = e.mod('optimization').nearest_pd(A)
    m = e.at(M, 0, 0)
    e.true('positive', m > 0)
    e.eq('closest value', m, e.max(x, 0), tol=1e-6)
    e.unchanged('matrix unchanged', A, s)


INDEF = [[[1.0, 2.0], [2.0, 1.0]], [[0.0, 0.0], [0.0, 0.0]], [[-1.0, 0.0], [0.0, 2.0]], [[2.0, -1.0, 0.0], [-1.0, 0.5, 0.0], [0.0, 0.0, 3.0]], [[1.0, 1.0, 1.0]] * 3]


@harness('P16', [dict(i=i) for i in range(len(INDEF))])
def nearest_concrete(e, i):
    """the repair gives the projection on the positive semidefinite matrices (plus a minimal shift)"""
    a = np.array(INDEF[i])
    A = e.arr(a.tolist())
    o = e.mod('optimization')
    M = o.nearest_pd(A)
    n = len(a)
    g = np.array([[float(e.at(M, r, c)) for c in range(n)] for r in range(n)])
    e.true('symmetric', abs(g - g.T).max() <= 1e-9)
    e.true('positive definite up to rounding', np.linalg.eigvalsh(g).min() > -1e-9)
    w, v = np.linalg.eigh((a + a.T) / 2)
    e.eq('nearest positive semidefinite matrix', e.arr(g.tolist()), e.arr((v @ np.diag(np.maximum(w, 0)) @ v.T).tolist()), tol=1e-5)


@harness('P16', [dict(dist=d, n=n, k=k) for d in ('L1', 'HD', 'L2') for n, k in ((2, 5), (3, 5), (4, 6), (5, 8))] + [dict(dist='L1', n=2, k=16)], limit=60)
def larger(e, dist, n, k):
    """given training columns; two values of each of three test vectors are symbolic, and the problem is used again"""
    A = [[row(2 * c + 1, k)[i] for c in range(n)] for i in range(k)]
    for c in range(n):
        A[c][c] += 0.5      # independent columns
    cols = [[A[i][c] for i in range(k)] for c in range(n)]
    A = e.arr(A)
    s = e.snap(A)
    o = e.mod('optimization')
    p = None
    if dist == 'L2':
        G, C, b = o.compute_l2_param_train(A, e.data(list(range(n))))
        e.eq('exact matrix', G, e.arr([[2 * sum(a * b for a, b in zip(cols[i], cols[j])) for j in range(n)] for i in range(n)]))
    for j in range(3):
        t = [e.real('t%d_%d' % (j, i), 0, 1) if i in (j, k - 1) else row(j, k)[i] for i in range(k)]
        t = e.col(e.arr(t))
        if dist == 'L2':
            r = o.solve_l2(train_distrib=A, test_distrib=t, G=G, C=C, b=b)
        else:
            p, r = solve(e, dist, A, t, n, p)
        e.minimises('minimum for test vector %d' % (j + 1), r, n, mixture_loss(e, dist, cols, e.flat(t)))
    e.unchanged('training columns unchanged', A, s)
