"""Contract stubs for the environment of the code under test (numpy.random, sklearn helpers, scipy helpers,
cvxpy, quadprog, joblib, builtins).  Every stub is listed in STUBS and reported in the evidence."""
import builtins
import importlib
import math
import numbers
from fractions import Fraction
import numpy as np
import z3

from . import core as C
from . import arr as A
from .core import SNum, Unsupported, rawv, rcmp, isz, radd, rsub, rmul, rdiv, rite, rabs
from .arr import SArr, PArr, obj, wrap, emap, sarr, UF, anysym

STUBS = {
    'numpy.random.RandomState': 'any value its documented contract allows (randint in [low, high), choice from the given elements, dirichlet on the simplex); equal seeds give equal streams',
    'sklearn check_X_y/check_array/check_consistent_length': 'length/finite checks, arrays returned unchanged',
    'sklearn confusion_matrix, manhattan/euclidean distances, rbf_kernel, weighted_mode, scipy rankdata/gmean/linalg.inv': 'their mathematical definition over exact reals',
    'quadprog.solve_qp': 'an arbitrary point of the feasible set, problem recorded',
    'cvxpy': 'an arbitrary point satisfying the posed constraints, problem recorded',
    'KNeighborsClassifier.kneighbors': 'scikit-learn itself, on concrete examples',
    'joblib.Parallel': 'sequential execution',
    'print': 'no effect',
}


# --------------------------------------------------------------------------- builtins
class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, float) or (isinstance(x, SNum) and x.k == 'f')


class Float(float, metaclass=_FloatMeta):
    dtype = np.dtype('f8')          # numpy takes the class for its float64

    def __new__(cls, x=0.0):
        if isinstance(x, SNum):
            return C.cast(x, float)
        if isinstance(x, SArr):
            if x.size != 1:
                raise TypeError('only length-1 arrays can be converted to Python scalars')
            return C.cast(A.obj(x).reshape(-1)[0], float)
        if isinstance(x, Fraction):
            return SNum(x)
        return float(x)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int) or (isinstance(x, SNum) and x.k == 'i')


class Int(int, metaclass=_IntMeta):
    dtype = np.dtype('i8')

    def __new__(cls, x=0, *a):
        if isinstance(x, SArr):
            if x.size != 1:
                raise TypeError('only length-1 arrays can be converted to Python scalars')
            x = A.obj(x).reshape(-1)[0]
        if isinstance(x, SNum):
            v = C.rtrunc(x.v)
            if C.isspecial(v):
                return int(float(v))
            if not isz(v):
                return int(v)
            return SNum(v, 'i')
        return int(x, *a)


_dt = C.dtkind


def dtkind(dt):
    if dt is Float:
        return 'f'
    if dt is Int:
        return 'i'
    return _dt(dt)


C.dtkind = dtkind
A.dtkind = dtkind

_FTYPES = (float, np.float64, np.floating, np.inexact)
_ITYPES = (int, np.int64, np.integer, np.signedinteger, numbers.Integral, numbers.Rational)


def sym_isinstance(x, cls):
    if isinstance(x, SNum):
        cl = cls if isinstance(cls, tuple) else (cls,)
        for c in cl:
            if isinstance(c, tuple):
                if sym_isinstance(x, c):
                    return True
                continue
            if c in (numbers.Number, numbers.Real, numbers.Complex, np.number, np.generic, SNum, object):
                return True
            if x.k == 'f' and (c in _FTYPES or c is Float):
                return True
            if x.k == 'i' and (c in _ITYPES or c is Int):
                return True
            if x.k == 'b' and c in (bool, np.bool_, int, Int):
                return True
        return False
    if isinstance(x, SymRandomState):
        cl = cls if isinstance(cls, tuple) else (cls,)
        return any(c is RandomStateType or c is SymRandomState or c is np.random.RandomState for c in cl)
    return builtins.isinstance(x, cls)


def _minmax(name, uf):
    real = getattr(builtins, name)

    def f(*a, **k):
        if k:
            return real(*a, **k)
        xs = list(a[0]) if len(a) == 1 else list(a)
        if not any(isinstance(x, (SNum, SArr)) for x in xs):
            return real(xs)
        if any(isinstance(x, np.ndarray) and x.size != 1 for x in xs):
            return real(xs)
        xs = [A.obj(x).reshape(-1)[0] if isinstance(x, np.ndarray) else A.wrapel(x) for x in xs]
        acc = xs[0]
        for x in xs[1:]:
            acc = UF[uf](acc, x)
        return acc
    return f


def sym_sum(it, start=0):
    it = list(it)
    if it and all(isinstance(x, SNum) for x in it) and isinstance(start, (int, float)):
        return A.fold('add', [A.wrapel(start)] + it) if start != 0 else A.fold('add', it)
    return builtins.sum(it, start)


def sym_print(*a, **k):
    pass


def make_builtins(imp):
    b = dict(vars(builtins))
    b['float'] = Float
    b['int'] = Int
    b['isinstance'] = sym_isinstance
    b['min'] = _minmax('min', 'minimum')
    b['max'] = _minmax('max', 'maximum')
    b['sum'] = sym_sum
    b['print'] = sym_print
    b['__import__'] = imp
    return b


# --------------------------------------------------------------------------- math
class MathFacade:
    def __getattr__(self, n):
        real = getattr(math, n)
        f = {'sqrt': C.rsqrt, 'log': None, 'log2': C.rlog2, 'exp': C.rexp, 'fabs': C.rabs,
             'expm1': lambda v: C.rsub(C.rexp(v), 1), 'log1p': lambda v: C.rlog(C.radd(v, 1)), 'floor': C.rfloor, 'ceil': lambda v: C.rneg(C.rfloor(C.rneg(v))), 'trunc': C.rtrunc}.get(n)

        def g(*a, **k):
            if n == 'fsum':
                return A.np_sum(list(a[0]))
            if not any(isinstance(x, (SNum, np.ndarray)) for x in a):
                return real(*[float(x) if isinstance(x, Fraction) else x for x in a], **k)
            vs = [A.obj(x).reshape(-1)[0] for x in a]
            if all(not isz(x.v) for x in vs):
                if f is None or n in ('log', 'log2', 'exp'):
                    r = real(*[float(x.v) if x.k == 'f' else x.v for x in vs], **k)
                    return r
                return SNum(f(vs[0].v), 'i' if n in ('floor', 'ceil', 'trunc') else 'f')
            if n == 'isclose':
                return A.np_isclose(a[0], a[1], k.get('rel_tol', 1e-9), k.get('abs_tol', 0.0))
            if n in ('isnan', 'isinf'):
                return False
            if n == 'isfinite':
                return True
            if n == 'hypot':
                return A.np_norm(A.sarr([x for x in a]))
            if n == 'prod':
                return A.fold('multiply', list(obj(a[0]).flat))
            if n == 'pow':
                return SNum(C.rpow(vs[0].v, vs[1].v))
            if n == 'log':
                r = C.rlog(vs[0].v)
                if len(vs) > 1:
                    r = C.rdiv_pos(r, C.rlog(vs[1].v))
                return SNum(r)
            if f is None:
                raise Unsupported('math.' + n)
            return SNum(f(vs[0].v), 'i' if n in ('floor', 'ceil', 'trunc') else 'f')
        return g if callable(real) else real


# --------------------------------------------------------------------------- random
def given_draw(n, lo, hi):
    """draw n of a stream that is not symbolic"""
    return lo + (n * n * 13 + 7 * n + n // 3) % (hi - lo)


def given_row(n, k):
    w = [(1 + 5 * n + 3 * c + n * c) % 7 + (c == n % k) for c in range(k)]
    return [v / sum(w) for v in w]


class SymRandomState:
    """arbitrary stream: draw k of the generator tagged `tag` is the input `rs:<tag>:<k>`; with `free`, only the draws with these
    numbers are, the others are given"""

    def __init__(self, seed=None, most=None, free=None):
        self.free = free
        self.most = most           # bound on the number of draws (rejection loops)
        if seed is None:
            n = C.CTX.cache.get('rs_anon', 0)
            C.CTX.cache['rs_anon'] = n + 1
            tag = 'anon%d' % n
        else:
            tag = str(int(seed)) if isinstance(seed, (int, np.integer, SNum)) else str(seed)
        self.tag = tag
        self.n = 0
        self.log = []

    def __deepcopy__(self, memo):
        r = SymRandomState(self.tag, self.most, self.free)
        r.n = self.n
        return r

    def _name(self):
        self.n += 1
        if self.most is not None and self.n > self.most:
            raise C.PathAbort()
        return 'rs:%s:%d' % (self.tag, self.n)

    def _arr(self, shape, f, kd):
        if shape is None:
            return f()
        sh = A._shape(shape)
        out = np.empty(sh, dtype=object)
        for i in np.ndindex(sh):
            out[i] = f()
        return wrap(out, kd) if sh != () else out[()]

    def _int_in(self, lo, hi):
        name = self._name()
        if self.free is not None and self.n not in self.free:
            return A.wrapel(given_draw(self.n, lo, hi))
        return C.CTX.intvar('%s:%d-%d' % (name, lo, hi), range(lo, hi))

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        lo, hi = Int(low), Int(high)
        lo = int(lo) if isinstance(lo, SNum) else lo
        hi = int(hi) if isinstance(hi, SNum) else hi
        if lo >= hi:
            raise ValueError('low >= high')
        r = self._arr(size, lambda: self._int_in(lo, hi), 'i')
        self.log.append(('randint', lo, hi, r))
        return r

    integers = randint

    def choice(self, a, size=None, replace=True, p=None):
        if isinstance(a, (int, np.integer, SNum)):
            a = np.arange(int(a)).view(PArr)
        elif isinstance(a, range):
            a = np.arange(a.start, a.stop, a.step).view(PArr)
        elif not isinstance(a, np.ndarray):
            a = A.np_array(list(a))
        n = len(a)
        if n == 0:
            if size is not None and int(np.prod([int(x) for x in A._shape(size)])) == 0:
                return sarr(np.empty(0, dtype=object), 'i')
            raise ValueError("'a' cannot be empty unless no samples are taken")
        pv = None
        if p is not None:
            pv = [e.v for e in obj(p).reshape(-1)]
            if len(pv) != n:
                raise ValueError("'a' and 'p' must have same size")
        drawn = []
        entry = ['choice', n, size, p, None]
        self.log.append(entry)

        def one():
            x = self._int_in(0, n)
            if pv is not None:
                for j, q in enumerate(pv):
                    c = rcmp('le', q, 0)
                    if c is True:
                        C.CTX.assume(x.v != j)
                    elif c is not False:
                        C.CTX.assume(z3.Implies(c, x.v != j))
            if not replace:
                for d in drawn:
                    C.CTX.assume(x.v != d.v)
                drawn.append(x)
            r = a[x]
            return A.wrapel(r) if isinstance(r, (int, float, np.number)) else r
        if not replace and size is not None and int(np.prod(A._shape(size))) > n:
            raise ValueError("Cannot take a larger sample than population when 'replace=False'")
        entry[4] = self._arr(size, one, None)
        return entry[4]

    def dirichlet(self, alpha, size=None):
        if alpha is None:
            raise TypeError('object of type NoneType has no len()')
        k = len(alpha)
        for x in obj(alpha).reshape(-1):
            c = rcmp('le', x.v, 0)
            if C.CTX.branch(c) if isz(c) else c:
                raise ValueError('alpha <= 0')

        def row():
            if self.free is not None and self.n + 1 not in self.free:
                self.n += 1
                return [A.wrapel(v) for v in given_row(self.n, k)]
            xs = [C.CTX.real(self._name(), 0, 1) for _ in range(k)]
            C.CTX.assume(z3.Sum([x.v for x in xs]) == 1)
            return xs
        sh = A._shape(size) if size is not None else ()
        out = np.empty(sh + (k,), dtype=object)
        for i in np.ndindex(sh):
            out[i] = row()
        return wrap(out, 'f')

    def rand(self, *sh):
        return self._arr(sh or None, lambda: C.CTX.real(self._name(), 0, 1, hi_strict=True), 'f')

    def random_sample(self, size=None):
        return self._arr(size, lambda: C.CTX.real(self._name(), 0, 1, hi_strict=True), 'f')
    random = random_sample

    def uniform(self, low=0.0, high=1.0, size=None):
        def f():
            u = C.CTX.real(self._name(), 0, 1, hi_strict=True)
            return A.wrapel(low) + u * (A.wrapel(high) - A.wrapel(low))
        return self._arr(size, f, 'f')

    def permutation(self, x):
        n = int(x) if isinstance(x, (int, np.integer, SNum)) else len(x)
        idx = self.choice(n, n, replace=False)
        return idx if isinstance(x, (int, np.integer, SNum)) else x[idx]

    def multinomial(self, n, pvals, size=None):
        n = int(n)
        k = len(pvals)
        pv = [e.v for e in obj(pvals).reshape(-1)]

        def row():
            xs = [C.CTX.intvar(self._name(), range(0, n + 1)) for _ in range(k)]
            C.CTX.assume(z3.Sum([x.v for x in xs]) == n)
            for x, q in zip(xs, pv):
                c = rcmp('le', q, 0)
                if c is True:
                    C.CTX.assume(x.v == 0)
                elif c is not False:
                    C.CTX.assume(z3.Implies(c, x.v == 0))
            return xs
        sh = A._shape(size) if size is not None else ()
        out = np.empty(sh + (k,), dtype=object)
        for i in np.ndindex(sh):
            out[i] = row()
        return wrap(out, 'i')

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('RandomState.' + n)


class _RSMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (SymRandomState, np.random.RandomState))

    def __call__(cls, seed=None):
        return SymRandomState(seed)


class RandomStateType(metaclass=_RSMeta):
    pass


class RandomFacade:
    """numpy.random: the global generator is an arbitrary stream independent of every seed"""
    RandomState = RandomStateType

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        if n in ('seed', 'set_state'):
            return lambda *a, **k: None
        if n in ('default_rng', 'Generator', 'mtrand'):
            if n == 'default_rng':
                return lambda seed=None: SymRandomState(seed)
            return getattr(np.random, n)
        g = C.CTX.cache.get('rs_global')
        if g is None:
            g = SymRandomState('GLOBAL')
            C.CTX.cache['rs_global'] = g
        return getattr(g, n)


# --------------------------------------------------------------------------- sklearn / scipy helpers
def _len(x):
    return len(x)


def check_consistent_length(*arrays):
    ls = [len(a) for a in arrays if a is not None]
    if len(set(ls)) > 1:
        raise ValueError('Found input variables with inconsistent numbers of samples: %r' % ls)


def check_array(X, accept_sparse=False, ensure_2d=True, ensure_min_samples=1, **k):
    if not isinstance(X, np.ndarray):
        if isinstance(X, SNum):
            X = sarr(obj(X)).reshape(())
        else:
            X = A.np_array(X)
    if ensure_2d and X.ndim == 0:
        raise ValueError('Expected 2D array, got scalar array instead')
    if ensure_2d and X.ndim == 1:
        raise ValueError('Expected 2D array, got 1D array instead')
    if X.ndim >= 3 and not k.get('allow_nd', False):
        raise ValueError('Found array with dim %d. expected <= 2.' % X.ndim)
    if X.ndim and X.shape[0] < ensure_min_samples:
        raise ValueError('Found array with 0 sample(s)')
    if isinstance(X, SArr) and k.get('force_all_finite', True):
        for e in obj(X).flat:
            if C.isspecial(e.v):
                raise ValueError('Input contains NaN or infinity')
    return X


def check_X_y(X, y, accept_sparse=False, **k):
    X = check_array(X, accept_sparse)
    y = y if isinstance(y, np.ndarray) else A.np_array(y)
    if y.ndim == 2 and y.shape[1] == 1:
        y = y.reshape(-1)
    if y.ndim != 1:
        raise ValueError('y should be a 1d array')
    check_consistent_length(X, y)
    return X, y


def check_pairwise_arrays(X, Y, **k):
    X = check_array(X)
    Y = X if Y is None else check_array(Y)
    if X.shape[1] != Y.shape[1]:
        raise ValueError('Incompatible dimension for X and Y matrices: X.shape[1] == %d while Y.shape[1] == %d' % (X.shape[1], Y.shape[1]))
    return X, Y


def _pair(f):
    def g(X, Y=None, **k):
        X, Y = check_pairwise_arrays(X, Y)
        a, b = obj(X), obj(Y)
        out = np.empty((a.shape[0], b.shape[0]), dtype=object)
        for i in range(a.shape[0]):
            for j in range(b.shape[0]):
                out[i, j] = SNum(f(a[i], b[j]), 'f')
        return wrap(out, 'f') if out.size else sarr(out, 'f')
    return g


def _l1(a, b):
    t = 0
    for x, y in zip(a, b):
        t = radd(t, rabs(rsub(x.v, y.v)))
    return t


def _sq(a, b):
    t = 0
    for x, y in zip(a, b):
        t = radd(t, C.rpow(rsub(x.v, y.v), 2))
    return t


manhattan_distances = _pair(_l1)
_eucl2 = _pair(_sq)
_eucl = _pair(lambda a, b: rabs(rsub(a[0].v, b[0].v)) if len(a) == 1 else C.rsqrt(_sq(a, b)))


def euclidean_distances(X, Y=None, squared=False, **k):
    return _eucl2(X, Y) if squared else _eucl(X, Y)


def rbf_kernel(X, Y=None, gamma=None):
    d = _eucl2(X, Y)
    g = rdiv(1, X.shape[1]) if gamma is None else rawv(gamma)
    return emap(lambda e: SNum(C.rexp(C.rneg(rmul(g, e.v)))), d)


def pairwise_distances(X, Y=None, metric='euclidean', **k):
    if callable(metric):
        raise Unsupported('pairwise_distances callable')
    return {'euclidean': euclidean_distances, 'manhattan': manhattan_distances, 'l1': manhattan_distances,
            'cityblock': manhattan_distances, 'l2': euclidean_distances}[metric](X, Y)


def cdist(XA, XB, metric='euclidean', **k):
    f = {'euclidean': euclidean_distances, 'cityblock': manhattan_distances,
         'sqeuclidean': lambda a, b: euclidean_distances(a, b, squared=True)}.get(metric)
    if metric == 'chebyshev':
        def cb(a, b):
            t = 0
            for x, y in zip(a, b):
                t = C.rmax(t, rabs(rsub(x.v, y.v)))
            return t
        f = _pair(cb)
    if f is None:
        raise Unsupported('cdist metric %r' % (metric,))
    return f(XA, XB)


def confusion_matrix(y_true, y_pred, labels=None, sample_weight=None, normalize=None):
    check_consistent_length(y_true, y_pred)
    if normalize is not None:
        cm = confusion_matrix(y_true, y_pred, labels, sample_weight)
        if normalize not in ('true', 'pred', 'all'):
            raise ValueError('normalize')
        s = A.np_sum(cm, axis={'true': 1, 'pred': 0, 'all': None}[normalize], keepdims=True)
        return A.emap(lambda c, t: SNum(0, 'f') if A._is(C.rcmp('eq', t.v, 0)) else UF['divide'](c, t), cm, s)
    if sample_weight is not None:
        raise Unsupported('confusion_matrix options')
    if not anysym(y_true, y_pred):
        from sklearn.metrics import confusion_matrix as real
        return A.conv(real(np.asarray(y_true), np.asarray(y_pred), labels=None if labels is None else np.asarray(labels)))
    if labels is None:
        labels = A.np_unique(A.np_concatenate([y_true, y_pred]))
    labels = list(labels)
    k = len(labels)
    eqs = []
    for arr_ in (y_true, y_pred):
        rows = []
        for v in (list(arr_) if not isinstance(arr_, SArr) else list(obj(arr_))):
            rows.append([v == l if isinstance(v, (str, np.str_)) or isinstance(l, (str, np.str_)) else
                         C.rcmp('eq', rawv(v), rawv(l)) for l in labels])
        eqs.append(rows)
    out = np.empty((k, k), dtype=object)
    for i in range(k):
        for j in range(k):
            out[i, j] = A.fold('add', [SNum(C.rand_(bool(a[i]) if not isz(a[i]) else a[i], bool(b[j]) if not isz(b[j]) else b[j]), 'b')
                                       for a, b in zip(*eqs)])
    return wrap(out, 'i')


def rankdata(a, method='average', *, axis=None, nan_policy='propagate'):
    if method != 'average' and method not in ('min', 'max', 'dense', 'ordinal'):
        raise ValueError('unknown method')
    o = obj(a)
    if axis is not None and o.ndim > 1:
        return A.np_apply_along_axis(lambda c: rankdata(c, method), axis, a)
    o = o.reshape(-1)
    out = np.empty(len(o), dtype=object)
    for i, x in enumerate(o):
        less, eq = 0, 0
        for j, y in enumerate(o):
            if method == 'ordinal' and j >= i and j != i:
                pass
            less = radd(less, A._num(rcmp('lt', y.v, x.v)))
            eq = radd(eq, A._num(rcmp('eq', y.v, x.v)))
        if method == 'average':
            v = radd(less, rdiv(radd(eq, 1), 2))
        elif method == 'min':
            v = radd(less, 1)
        elif method == 'max':
            v = radd(less, eq)
        else:
            raise Unsupported('rankdata method')
        out[i] = SNum(v, 'f' if method == 'average' else 'i')
    return wrap(out, 'f' if method == 'average' else 'i')


def gmean(a, axis=0, dtype=None, weights=None, **k):
    o = obj(a)
    if o.ndim != 1:
        raise Unsupported('gmean of >1-d')
    n = len(o)
    p = 1
    for e in o:
        if C.isspecial(e.v):
            return SNum(e.v)
        p = rmul(p, e.v)
    if n == 1:
        return SNum(p)
    return SNum(C.rsqrt(p) if n == 2 else C.rroot(p, n))


def weighted_mode(a, w, *, axis=0):
    a_, w_ = a, obj(w)
    n, k = w_.shape
    if axis != 1:
        raise Unsupported('weighted_mode axis')
    rows, tot = [], []
    for i in range(n):
        vals = [a_[i, j] for j in range(k)]
        if all(not isinstance(v, SNum) for v in vals):
            labs = sorted(set(vals))
            eq = lambda v, l: v == l
        else:
            labs = list(A.np_unique(sarr(vals)))
            eq = lambda v, l: rcmp('eq', rawv(v), rawv(l))
        best, bs = None, None
        for l in labs:
            s = 0
            for j in range(k):
                s = radd(s, rite(eq(vals[j], l), w_[i, j].v, 0))
            if best is None:
                best, bs = l, s
                continue
            c = rcmp('gt', s, bs)
            if isz(c) and isinstance(best, (str, np.str_)):
                c = C.CTX.branch(c)
            best = rite(c, rawv(l), rawv(best)) if not isinstance(l, (str, np.str_)) else (l if c else best)
            bs = rite(c, s, bs)
        rows.append(best)
        tot.append(SNum(bs))
    if any(isinstance(r, (str, np.str_)) for r in rows):
        m = np.array(rows).reshape(-1, 1).view(PArr)
    else:
        m = sarr([SNum(r, 'i') if not isinstance(r, SNum) else r for r in rows]).reshape(-1, 1)
    return m, sarr(tot).reshape(-1, 1)


class NormFacade:
    def __getattr__(self, n):
        from scipy.stats import norm
        real = getattr(norm, n)

        def f(*a, **k):
            if any(A.hassym(x) for x in a):
                raise Unsupported('norm.' + n)
            r = real(*[A.to_plain(x) if anysym(x) else x for x in a], **k)
            return r
        return f


def parallel(n_jobs=None, **k):
    class P:
        def __call__(self, it):
            return [f(*a, **kw) for f, a, kw in it]
    return P()


def Parallel(*a, **k):
    return parallel()


def delayed(f):
    return lambda *a, **k: (f, a, k)


# --------------------------------------------------------------------------- optimisation problems
class Posed:
    """a recorded optimisation problem: minimise `objective(z)` subject to `constraints(z)`"""

    def __init__(self, kind, n, objective, feasible, solution, meta=None):
        self.kind, self.n, self.objective, self.feasible, self.solution = kind, n, objective, feasible, solution
        self.meta = meta or {}


def posed_list():
    return C.CTX.cache.setdefault('posed', [])


def problem_key(kind, objective, feasible, n, nonneg=False):
    """syntactically equal problems have the same solution (the solvers are deterministic)"""
    z = [SNum(z3.Real('%s%d' % ('kn' if nonneg else 'kz', i))) for i in range(n)]
    if nonneg:
        # unknowns declared nonnegative
        for x in z:
            C.CTX.nonneg.add(x.v.get_id())
            C.CTX.assume(x.v >= 0)
        C.CTX.cache.setdefault('keepalive', []).append((z, z))
    o, f = rawv(objective(z)), rawv(feasible(z))
    o = z3.simplify(C.numz(o)) if not C.isspecial(o) else o
    f = z3.simplify(C.tobool(f)) if isz(f) else f
    C.CTX.cache.setdefault('keepalive', []).append((o, f))
    return ('solved', kind, n, o if C.isspecial(o) else o.get_id(), f.get_id() if isz(f) else f)


def solve_qp(G, a, C_=None, b=None, meq=0, factorized=False, **kw):
    Cm = kw.get('C', C_)
    g, av = obj(G), obj(a).reshape(-1)
    n = len(av)
    if g.shape != (n, n):
        raise ValueError('G and a must have the same dimension')
    cm = None if Cm is None else obj(Cm)
    bv = np.zeros(0) if b is None else obj(b).reshape(-1)
    if cm is not None and cm.shape != (n, len(bv)):
        raise ValueError('The number of columns of C must match the length of b')

    def objective(z):
        z = [rawv(x) for x in z]
        t = 0
        for i in range(n):
            for j in range(n):
                t = radd(t, rmul(rmul(rmul(Fraction(1, 2), g[min(i, j), max(i, j)].v), z[i]), z[j]))    # the solver reads the upper triangle
            t = rsub(t, rmul(av[i].v, z[i]))
        return SNum(t)

    def feasible(z):
        z = [rawv(x) for x in z]
        out = []
        for j in range(len(bv)):
            s = 0
            for i in range(n):
                s = radd(s, rmul(cm[i, j].v, z[i]))
            out.append(rcmp('eq' if j < int(meq) else 'ge', s, bv[j].v))
        return SNum(C.rand_all(out), 'b')
    k = len(posed_list())
    key = problem_key('qp', objective, feasible, n)
    sol = C.CTX.cache.get(key)
    if sol is None:
        sol = [SNum(C.CTX.fresh('qp%d_%d' % (k, i))) for i in range(n)]
        C.CTX.cache[key] = sol
    if any(C.isspecial(e.v) for e in g.flat) or any(C.isspecial(e.v) for e in av):
        raise ValueError('matrix G is not positive definite')
    C.CTX.assume(feasible(sol).v)
    posed_list().append(Posed('qp', n, objective, feasible, sol, dict(meq=meq)))
    x = sarr(sol)
    return (x, objective(sol), x.copy(), 0, None, None)


class CvxExpr:
    """mini cvxpy expression: evaluated lazily on an assignment of the variables"""
    __array_ufunc__ = None
    __array_priority__ = 2000.0

    def __init__(self, f, shape):
        self.f, self.shape = f, shape      # f(env) -> SArr/SNum

    @staticmethod
    def of(x):
        if isinstance(x, CvxExpr):
            return x
        if isinstance(x, SNum) or isinstance(x, np.ndarray):
            x2 = x
        else:
            x2 = x
        return CvxExpr(lambda env: x2, np.shape(x2))

    def _b(self, o, uf, rev=False):
        o = CvxExpr.of(o)
        a, b = (o, self) if rev else (self, o)
        return CvxExpr(lambda env: emap(UF[uf], a.f(env), b.f(env)), np.broadcast_shapes(a.shape, b.shape))

    def __add__(self, o): return self._b(o, 'add')
    def __radd__(self, o): return self._b(o, 'add', True)
    def __sub__(self, o): return self._b(o, 'subtract')
    def __rsub__(self, o): return self._b(o, 'subtract', True)
    def __truediv__(self, o): return self._b(o, 'divide')
    def __neg__(self): return CvxExpr(lambda env: emap(UF['negative'], self.f(env)), self.shape)
    def __pow__(self, p): return CvxExpr(lambda env: emap(UF['power'], self.f(env), p), self.shape)
    def __abs__(self): return CvxExpr(lambda env: emap(UF['absolute'], self.f(env)), self.shape)

    def __mul__(self, o):
        o = CvxExpr.of(o)
        if len(self.shape) == 2 and o.shape != () and self.shape != ():
            return self.__matmul__(o)
        return self._b(o, 'multiply')

    def __rmul__(self, o):
        o = CvxExpr.of(o)
        if len(o.shape) == 2 and self.shape != ():
            return o.__matmul__(self)
        return self._b(o, 'multiply', True)

    def __matmul__(self, o):
        o = CvxExpr.of(o)
        sh = np.shape(np.zeros(self.shape) @ np.zeros(o.shape))
        return CvxExpr(lambda env: A.dot(self.f(env), o.f(env)), sh)

    def __rmatmul__(self, o):
        return CvxExpr.of(o).__matmul__(self)

    def __getitem__(self, i):
        return CvxExpr(lambda env: self.f(env)[i], np.shape(np.zeros(self.shape)[i]))

    def _c(self, o, op):
        o = CvxExpr.of(o)
        a, b = self, o
        return CvxCon(lambda env: C.rand_all([e.v for e in np.ravel(obj(emap(lambda x, y: SNum(rcmp(op, x.v, y.v), 'b'), a.f(env), b.f(env))))]))

    def __eq__(self, o): return self._c(o, 'eq')
    def __le__(self, o): return self._c(o, 'le')
    def __ge__(self, o): return self._c(o, 'ge')
    __hash__ = object.__hash__

    @property
    def T(self):
        return CvxExpr(lambda env: self.f(env).T, tuple(reversed(self.shape)))

    @property
    def size(self):
        return int(np.prod(self.shape)) if self.shape else 1

    @property
    def value(self):
        try:
            return self.f(None)
        except KeyError:
            return None


class CvxCon:
    def __init__(self, f):
        self.f = f


class CvxVariable(CvxExpr):
    def __init__(self, shape=(), nonneg=False, **k):
        if any(k.values()):
            raise Unsupported('cvxpy.Variable options %r' % (k,))
        shape = (int(shape),) if not isinstance(shape, tuple) else shape
        self.shape = shape
        self.nonneg = nonneg
        self._v = None
        self.id = id(self)
        self.f = self._get

    def _get(self, env):
        if env is not None and self in env:
            return env[self]
        if self._v is None:
            raise KeyError('unsolved variable')
        return self._v

    @property
    def value(self):
        return self._v

    @value.setter
    def value(self, v):
        self._v = v


class CvxParameter(CvxExpr):
    def __init__(self, shape=(), nonneg=False, value=None, **k):
        self.shape = (int(shape),) if not isinstance(shape, tuple) else shape
        self.nonneg = nonneg
        self._v = None
        self.f = lambda env: self._v if self._v is not None else _none()
        if value is not None:
            self.value = value

    @property
    def value(self):
        return self._v

    @value.setter
    def value(self, v):
        sh = np.shape(v)
        if sh != self.shape:
            raise ValueError('Invalid dimensions %s for Parameter value.' % (sh,))
        if self.nonneg:
            c = C.ror_all([rcmp('lt', e.v, Fraction(-1, 10 ** 8)) for e in np.ravel(obj(v))])
            if C.CTX.branch(c) if isz(c) else c:
                raise ValueError('Parameter value must be nonnegative.')
        self._v = v.copy() if isinstance(v, np.ndarray) else v


def _none():
    raise ValueError('parameter without value')


class _Sol:
    def __init__(self, pv):
        self.primal_vars = pv


class CvxProblem:
    def __init__(self, objective, constraints=()):
        self.objective, self.constraints = objective, list(constraints)
        self._vars, self._pars = [], []
        self.solution = None
        self.status = None
        self.value = None

    def _collect(self):
        # the variables and parameters created in this world, in order
        w = C.CTX.cache.setdefault('cvx_objs', [])
        return w

    def parameters(self):
        return list(self._pars)

    def variables(self):
        return list(self._vars)

    def solve(self, *a, **k):
        vs = self._vars
        if len(vs) != 1:
            raise Unsupported('cvxpy problem with %d variables' % len(vs))
        v = vs[0]
        n = v.size
        sense, expr = self.objective

        def env_of(z):
            if v.shape == (n,):
                return {v: sarr(list(z))}
            return {v: sarr(list(z)).reshape(v.shape)}
        # parameters are read now (later re-assignments must not change this record)
        snap = [(p, p._v) for p in self._pars]

        def with_params(fn):
            def g(z):
                old = [(p, p._v) for p, _ in snap]
                for p, val in snap:
                    p._v = val
                try:
                    return fn(z)
                finally:
                    for p, val in old:
                        p._v = val
            return g

        def objective(z):
            r = expr.f(env_of(z))
            r = A.obj(r).reshape(-1)[0]
            return r if sense == 'min' else -r

        def feasible(z):
            cs = [c.f(env_of(z)) for c in self.constraints]
            if v.nonneg:
                cs += [rcmp('ge', rawv(x), 0) for x in z]
            return SNum(C.rand_all(cs), 'b')
        kk = len(posed_list())
        key = problem_key('cvx', objective, feasible, n, v.nonneg)
        sol = C.CTX.cache.get(key)
        if sol is None:
            sol = [SNum(C.CTX.fresh('cvx%d_%d' % (kk, i))) for i in range(n)]
            C.CTX.cache[key] = sol
        C.CTX.assume(feasible(sol).v)
        for s in sol:
            if v.nonneg:
                C.CTX.nonneg.add(s.v.get_id())
        val = sarr(sol).reshape(v.shape)
        v._v = val
        self.solution = _Sol({v.id: val.copy()})
        self.status = 'optimal'
        posed_list().append(Posed('cvx', n, with_params(objective), with_params(feasible), sol, dict(solver=k.get('solver'))))
        try:
            self.value = None
        except Exception:
            pass
        return self.value


class CvxFacade:
    """the part of cvxpy the library uses, with an arbitrary feasible point as the solution"""

    def __init__(self):
        self._vars, self._pars = [], []
        self.Expression = CvxExpr
        self.ECOS, self.SCS, self.OSQP, self.CLARABEL = 'ECOS', 'SCS', 'OSQP', 'CLARABEL'
        self.OPTIMAL = 'optimal'

        class SolverError(Exception):
            pass
        self.SolverError = SolverError
        self.error = type('error', (), {'SolverError': SolverError})

    def _reg(self, o):
        return o

    def Variable(self, *a, **k):
        v = CvxVariable(*a, **k)
        C.CTX.cache.setdefault('cvx_new', []).append(v)
        return v

    def Parameter(self, *a, **k):
        p = CvxParameter(*a, **k)
        C.CTX.cache.setdefault('cvx_new', []).append(p)
        return p

    def Minimize(self, e): return ('min', CvxExpr.of(e))
    def Maximize(self, e): return ('max', CvxExpr.of(e))

    def Problem(self, objective, constraints=()):
        p = CvxProblem(objective, constraints)
        new = C.CTX.cache.get('cvx_new', [])
        C.CTX.cache['cvx_new'] = []
        p._vars = [x for x in new if isinstance(x, CvxVariable)]
        p._pars = [x for x in new if isinstance(x, CvxParameter)]
        return p

    def _el(self, uf, *fixed):
        def g(x, *rest):
            x = CvxExpr.of(x)
            r = [CvxExpr.of(q) for q in rest]
            return CvxExpr(lambda env: emap(UF[uf], x.f(env), *[q.f(env) for q in r]), x.shape)
        return g

    def sqrt(self, x): return self._el('sqrt')(x)
    def abs(self, x): return self._el('absolute')(x)
    def square(self, x): return self._el('square')(x)
    def log(self, x): return self._el('log')(x)
    def power(self, x, p): return CvxExpr.of(x) ** p
    def pos(self, x): return self._el('maximum')(x, 0)
    def maximum(self, x, y): return self._el('maximum')(x, y)
    def minimum(self, x, y): return self._el('minimum')(x, y)

    def multiply(self, x, y):
        return CvxExpr.of(x)._b(y, 'multiply')

    def sum(self, x, axis=None, **k):
        x = CvxExpr.of(x)
        return CvxExpr(lambda env: A.np_sum(x.f(env), axis), () if axis is None else np.shape(np.zeros(x.shape).sum(axis)))

    def norm(self, x, p=2, axis=None):
        x = CvxExpr.of(x)
        if axis is not None:
            raise Unsupported('cvxpy.norm axis')
        if p == 1:
            return CvxExpr(lambda env: A.np_sum(emap(UF['absolute'], x.f(env))), ())
        if p in (2, 'fro'):
            return CvxExpr(lambda env: emap(UF['sqrt'], A.np_sum(emap(UF['square'], x.f(env)))), ())
        if p in ('inf', np.inf):
            return CvxExpr(lambda env: A.reduce_('maximum', emap(UF['absolute'], x.f(env)), None), ())
        raise Unsupported('cvxpy.norm %r' % (p,))

    def norm1(self, x): return self.norm(x, 1)
    def norm2(self, x): return self.norm(x, 2)
    def norm_inf(self, x): return self.norm(x, 'inf')
    def sum_squares(self, x): return self.sum(self.square(x))

    def max(self, x):
        x = CvxExpr.of(x)
        return CvxExpr(lambda env: A.reduce_('maximum', x.f(env), None), ())

    def cumsum(self, x, axis=0):
        x = CvxExpr.of(x)
        return CvxExpr(lambda env: A.accumulate('add', x.f(env), axis), x.shape)

    def installed_solvers(self):
        return ['ECOS', 'OSQP', 'SCS', 'CLARABEL']

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        raise Unsupported('cvxpy.' + n)


class LabelBinarizerStub:
    pass


def _make_lb():
    from sklearn.preprocessing import LabelBinarizer as LB

    class LabelBinarizer(LB):
        def fit(self, y):
            super().fit(_plain_labels(y))
            self.classes_ = np.asarray(self.classes_).view(PArr)
            return self

        def transform(self, y):
            return np.asarray(super().transform(_plain_labels(y))).view(PArr)

        def fit_transform(self, y):
            self.fit(y)
            return self.transform(y)
    LabelBinarizer.__name__ = 'LabelBinarizer'
    return LabelBinarizer


def _plain_labels(y):
    if isinstance(y, SArr):
        return np.asarray(A.force_int(y))
    return np.asarray(y)


def _make_ovo():
    from sklearn.multiclass import OneVsOneClassifier as OVO

    class OneVsOneClassifier(OVO):
        """scikit-learn's own training on the concrete labels"""
        def fit(self, X, y, **k):
            super().fit(np.asarray(X), np.asarray(_plain_labels(y)), **k)
            self.classes_ = np.asarray(self.classes_).view(PArr)
            return self
    return OneVsOneClassifier


def _make_le():
    from sklearn.preprocessing import LabelEncoder as LE

    class LabelEncoder(LE):
        """transform() of symbolic integer labels is done by case split over the classes"""
        def fit(self, y):
            super().fit(np.asarray(_plain_labels(y)))
            self.classes_ = self.classes_.view(PArr)
            return self

        def fit_transform(self, y):
            self.fit(y)
            return self.transform(y)

        def transform(self, y):
            if not anysym(y):
                return np.asarray(super().transform(np.asarray(y))).view(PArr)

            def f(e):
                acc = len(self.classes_) - 1
                for k in range(len(self.classes_) - 2, -1, -1):
                    acc = rite(rcmp('eq', e.v, rawv(self.classes_[k])), k, acc)
                return SNum(acc, 'i')
            return emap(f, y, kd='i')

        def inverse_transform(self, y):
            return self.classes_[y]
    return LabelEncoder


def unique_labels(*ys):
    vals = []
    for y in ys:
        vals.append(A.np_ravel(y))
    return A.np_unique(A.np_concatenate(vals))


class StandardScaler:
    """centred on the column means and divided by the standard deviations (1 for constant columns)"""

    def __init__(self, copy=True, with_mean=True, with_std=True):
        self.copy, self.with_mean, self.with_std = copy, with_mean, with_std

    def get_params(self, deep=True):
        return dict(copy=self.copy, with_mean=self.with_mean, with_std=self.with_std)

    def fit(self, X, y=None, sample_weight=None):
        if sample_weight is not None:
            raise Unsupported('StandardScaler(sample_weight)')
        X = check_array(X)
        self.n_features_in_, self.n_samples_seen_ = X.shape[1], X.shape[0]
        self.mean_ = A.np_mean(X, 0) if self.with_mean or self.with_std else None
        self.var_ = A.np_var(X, 0) if self.with_std else None
        self.scale_ = emap(lambda v: SNum(rite(rcmp('eq', v.v, 0), 1, C.rsqrt(v.v))), self.var_) if self.with_std else None
        return self

    def _fitted(self, X):
        if not hasattr(self, 'n_features_in_'):
            from sklearn.exceptions import NotFittedError
            raise NotFittedError('This StandardScaler instance is not fitted yet')
        X = check_array(X)
        if X.shape[1] != self.n_features_in_:
            raise ValueError('X has %d features, but StandardScaler is expecting %d features as input' % (X.shape[1], self.n_features_in_))
        return X

    def transform(self, X, copy=None):
        into = X if not (self.copy if copy is None else copy) else None
        X = self._fitted(X)
        if self.with_mean:
            X = X - self.mean_
        if self.with_std:
            X = X / self.scale_
        if into is not None:
            into[:] = X
        return X

    def fit_transform(self, X, y=None, **k):
        return self.fit(X, y).transform(X)

    def inverse_transform(self, X, copy=None):
        X = self._fitted(X)
        if self.with_std:
            X = X * self.scale_
        return X + self.mean_ if self.with_mean else X


TABLES = {}


def read_table(fname, dtype=float, delimiter=None, usecols=None, **k):
    """text files registered by the harness: comma separated"""
    if fname not in TABLES:
        raise FileNotFoundError(str(fname))
    if delimiter != ',' or [v for n, v in k.items() if v is not None and (n, v) not in (('comments', '#'), ('skip_header', 0), ('skiprows', 0), ('ndmin', 0), ('unpack', False))] \
            or dtype not in (float, np.float64):
        raise Unsupported('reading a text file with other options')
    M = TABLES[fname].copy()
    if usecols is not None:
        M = M[:, list(usecols)]
    return M[0] if M.shape[0] == 1 else M      # one line is read as a vector


class LineCollectionStub:
    def __init__(self, segments, colors=None, linewidths=None, **k):
        self.segments, self.colors, self.k = segments, colors, dict(k, linewidths=linewidths)


class Overlay:
    """a real module with some attributes replaced"""

    def __init__(self, name, over, sub=None):
        self.__dict__['_name'] = name
        self.__dict__['_over'] = over
        self.__dict__['__name__'] = name

    def __getattr__(self, n):
        if n in self._over:
            return self._over[n]
        if n.startswith('__') and n != '__version__':
            raise AttributeError(n)
        full = self._name + '.' + n
        if full in OVERLAYS:
            return overlay(full)
        real = importlib.import_module(self._name)
        try:
            return getattr(real, n)
        except AttributeError:
            importlib.import_module(full)
            return getattr(real, n)


class _LazyScipyLinalg:
    pass


def _scipy_inv(a, overwrite_a=False, check_finite=True):
    if isinstance(a, SArr) and A.hassym(a) or isinstance(a, SArr):
        return A.inv(a)
    return A.conv(A.inv(a))


def _plain(X):
    """concrete data as a numpy array"""
    if A.hassym(X):
        raise Unsupported('neighbours of symbolic examples')
    return np.array([[float(rawv(e)) for e in r] for r in obj(X)])


def _make_knn():
    import sklearn.neighbors as N

    class KNeighborsClassifier(N.KNeighborsClassifier):
        """neighbours of concrete examples; the labels may be symbolic"""

        def fit(self, X, y):
            self._ql_y = y
            super().fit(_plain(X), np.arange(len(y)) % 2)
            return self

        def kneighbors(self, X=None, n_neighbors=None, return_distance=True):
            r = super().kneighbors(None if X is None else _plain(X), n_neighbors, return_distance)
            return tuple(v.view(PArr) for v in r) if return_distance else r.view(PArr)

        def predict(self, X):
            raise Unsupported('KNeighborsClassifier.predict')

        def predict_proba(self, X):
            raise Unsupported('KNeighborsClassifier.predict_proba')
    return KNeighborsClassifier


def normalize(X, norm='l2', *, axis=1, copy=True, return_norm=False):
    if not copy or return_norm or norm not in ('l1', 'l2', 'max') or axis not in (0, 1):
        raise Unsupported('normalize options')
    X = check_array(X)
    if norm == 'l1':
        s = A.np_sum(A.emap(UF['absolute'], X), axis=axis, keepdims=True)
    elif norm == 'max':
        s = A.reduce_('maximum', A.emap(UF['absolute'], X), axis, True)
    else:
        s = A.np_norm(X, axis=axis, keepdims=True)
    return A.emap(lambda x, t: x if A._is(C.rcmp('eq', t.v, 0)) else UF['divide'](x, t), X, s)


def label_binarize(y, *, classes, neg_label=0, pos_label=1, sparse_output=False):
    if sparse_output:
        raise Unsupported('label_binarize options')
    return _make_lb()(neg_label=neg_label, pos_label=pos_label).fit(classes).transform(y)


def accuracy_score(y_true, y_pred, *, normalize=True, sample_weight=None):
    if sample_weight is not None:
        raise Unsupported('accuracy_score options')
    check_consistent_length(y_true, y_pred)
    m = A.emap(UF['equal'], y_true, y_pred)
    return A.np_mean(m) if normalize else A.np_sum(m)


OVERLAYS = {
    'sklearn': {}, 'sklearn.utils': {'check_X_y': check_X_y, 'check_array': check_array,
                                     'check_consistent_length': check_consistent_length},
    'sklearn.utils.validation': {'check_X_y': check_X_y, 'check_array': check_array,
                                 'check_consistent_length': check_consistent_length},
    'sklearn.utils.multiclass': {'unique_labels': unique_labels},
    'sklearn.utils.extmath': {'weighted_mode': weighted_mode},
    'sklearn.metrics': {'confusion_matrix': confusion_matrix, 'pairwise_distances': pairwise_distances, 'euclidean_distances': euclidean_distances, 'accuracy_score': accuracy_score},
    'sklearn.metrics.pairwise': {'manhattan_distances': manhattan_distances, 'euclidean_distances': euclidean_distances,
                                 'rbf_kernel': rbf_kernel, 'check_pairwise_arrays': check_pairwise_arrays,
                                 'pairwise_distances': pairwise_distances},
    'sklearn.preprocessing': {'StandardScaler': StandardScaler, 'normalize': normalize, 'label_binarize': label_binarize}, 'sklearn.multiclass': {}, 'sklearn.neighbors': {},
    'scipy': {}, 'scipy.stats': {'rankdata': rankdata, 'gmean': gmean, 'norm': NormFacade()},
    'scipy.stats.mstats': {'gmean': gmean},
    'scipy.linalg': {'inv': _scipy_inv, 'LinAlgError': np.linalg.LinAlgError, 'solve': lambda a, b, **k: A.solve(a, b), 'norm': A.np_norm},
    'scipy.spatial': {}, 'scipy.spatial.distance': {'cdist': cdist},
    'quadprog': {'solve_qp': solve_qp},
    'joblib': {'Parallel': Parallel, 'delayed': delayed},
    'matplotlib': {}, 'matplotlib.collections': {'LineCollection': LineCollectionStub},
}
_OV = {}


def overlay(name):
    if name not in _OV:
        over = dict(OVERLAYS[name])
        if name == 'sklearn.preprocessing':
            over['LabelBinarizer'] = _make_lb()
            over['LabelEncoder'] = _make_le()
        if name == 'sklearn.neighbors':
            over['KNeighborsClassifier'] = _make_knn()
        if name == 'sklearn.multiclass':
            over['OneVsOneClassifier'] = _make_ovo()
        _OV[name] = Overlay(name, over)
    return _OV[name]


SPECIAL = {}


def special(name):
    if not SPECIAL:
        SPECIAL['numpy'] = A.NumpyFacade(RandomFacade())
        SPECIAL['numpy'].genfromtxt = SPECIAL['numpy'].loadtxt = read_table
        SPECIAL['math'] = MathFacade()
        SPECIAL['cvxpy'] = CvxFacade()
    return SPECIAL.get(name)
