"""Symbolic arrays (object ndarrays of SNum) and the numpy facade used while executing /repo's code."""
import builtins
import math
import itertools
from fractions import Fraction
import numpy as np
import z3

from . import core as C
from .core import (SNum, Unsupported, rawv, radd, rsub, rmul, rdiv, rneg, rcmp, rabs, rmax, rmin, rite,
                   rand_all, ror_all, rand_, ror_, rnot, tobool, rsqrt, rpow, isz, isspecial, kind_of,
                   cast, dtkind, INF, NAN)


def wrapel(x):
    if isinstance(x, SNum):
        return x
    v = rawv(x)
    if v is NotImplemented:
        if isinstance(x, (str, np.str_, bytes)) or x is None:
            raise Unsupported('non-numeric element in a symbolic array')
        raise Unsupported('element of type %s' % type(x).__name__)
    return SNum(v, kind_of(x))


def obj(x):
    """anything numeric -> base object ndarray of SNum"""
    if isinstance(x, SArr):
        return x.view(np.ndarray)
    if isinstance(x, SNum):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            out = np.empty(x.shape, dtype=object)
            for i in np.ndindex(x.shape):
                out[i] = wrapel(x[i])
            return out
        if x.dtype.kind in 'USO':
            raise Unsupported('string array in arithmetic')
        out = np.empty(x.shape, dtype=object)
        xb = x.view(np.ndarray)
        k = {'f': 'f', 'i': 'i', 'u': 'i', 'b': 'b'}[x.dtype.kind]
        for i in np.ndindex(x.shape):
            out[i] = SNum(rawv(xb[i]), k)
        return out
    if isinstance(x, (list, tuple)) or hasattr(x, '__next__') or isinstance(x, range):
        parts = [obj(e) for e in x]
        if not parts:
            return np.empty((0,), dtype=object)
        sh = parts[0].shape
        if any(p.shape != sh for p in parts):
            raise ValueError('setting an array element with a sequence. The requested array has an inhomogeneous shape')
        out = np.empty((len(parts),) + sh, dtype=object)
        for i, p in enumerate(parts):
            out[i] = p[()] if p.ndim == 0 else p
        return out
    a = np.empty((), dtype=object)
    a[()] = wrapel(x)
    return a


def sarr(x, kd=None):
    o = x if (isinstance(x, np.ndarray) and type(x) is np.ndarray and x.dtype == object) else obj(x)
    r = np.array(o, dtype=object, copy=True).view(SArr) if o is x else o.copy().view(SArr)
    r.kd = kd or arrkind(o)
    return r


def arrkind(o):
    k = 0
    for e in o.flat:
        ek = C._KORD[e.k] if isinstance(e, SNum) else 2
        if ek > k:
            k = ek
            if k == 2:
                break
    if o.size == 0:
        return 'f'
    return 'bif'[k]


def wrap(o, kd=None):
    """base object ndarray -> SArr, or SNum when 0-d"""
    if o.ndim == 0:
        e = o[()]
        return cast(e, {'f': float, 'i': int, 'b': bool}[kd]) if kd else e
    r = o.view(SArr)
    r.kd = kd or arrkind(o)
    return r


def emap(f, *xs, kd=None):
    os = [obj(x) for x in xs]
    bs = np.broadcast_arrays(*os) if len(os) > 1 else os
    out = np.empty(bs[0].shape, dtype=object)
    for i in np.ndindex(out.shape):
        r = f(*[b[i] for b in bs])
        out[i] = r
    return wrap(out, kd)


def isconc(x):
    return all(not isz(e.v) for e in obj(x).flat)


def hassym(x):
    if isinstance(x, SNum):
        return isz(x.v)
    if isinstance(x, SArr):
        return any(isz(e.v) for e in x.view(np.ndarray).flat)
    if isinstance(x, (list, tuple)):
        return any(hassym(e) for e in x)
    return False


def anysym(*xs):
    return any(isinstance(x, (SArr, SNum)) or (isinstance(x, (list, tuple)) and anysym(*x)) for x in xs)


def to_plain(x):
    """concrete symbolic array -> plain machine array (PArr)"""
    if isinstance(x, SNum):
        if isz(x.v):
            raise Unsupported('machine value of a symbolic number')
        return float(x.v) if x.k == 'f' else (bool(x.v) if x.k == 'b' else int(x.v))
    if isinstance(x, SArr):
        o = x.view(np.ndarray)
        dt = {'f': float, 'i': np.int64, 'b': bool}[x.kd]
        out = np.empty(o.shape, dtype=dt)
        for i in np.ndindex(o.shape):
            v = o[i].v
            if isz(v):
                s = z3.simplify(v)
                q = C.q_of(s)
                if q is None:
                    raise Unsupported('machine array of symbolic numbers')
                v = q
            out[i] = float(v) if x.kd == 'f' else v
        return out.view(PArr)
    if isinstance(x, list):
        return [to_plain(e) for e in x]
    if isinstance(x, tuple):
        return tuple(to_plain(e) for e in x)
    return x


def force_int(x):
    """int array, forking over the values of symbolic entries"""
    o = obj(x)
    out = np.empty(o.shape, dtype=np.int64)
    for i in np.ndindex(o.shape):
        out[i] = int(o[i])
    return out.view(PArr)


def force_bool(x):
    o = obj(x)
    out = np.empty(o.shape, dtype=bool)
    for i in np.ndindex(o.shape):
        out[i] = bool(o[i])
    return out.view(PArr)


# --------------------------------------------------------------------------- elementwise table
def _e2(f, kf=None):
    def g(a, b):
        k = kf or C.join_kind(a, b)
        if k == 'b' and kf is None:
            k = 'i'
        return SNum(f(a.v, b.v), k)
    return g


def _cmp(op):
    return lambda a, b: SNum(rcmp(op, a.v, b.v), 'b')


def _mixk(f):
    return lambda a, b: SNum(f(a.v, b.v), C.join_kind(a, b))


def _e1(f, k=None):
    return lambda a: SNum(f(a.v), k or (a.k if a.k != 'b' else 'i'))


def rsign(v):
    if isspecial(v):
        return NAN if math.isnan(v) else (1 if v > 0 else -1)
    if not isz(v):
        return (v > 0) - (v < 0)
    v = C.numz(v)
    return z3.If(v > 0, z3.RealVal(1), z3.If(v < 0, z3.RealVal(-1), z3.RealVal(0)))


def _npint(v, f):
    return v


def _is(c):
    return C.CTX.branch(c) if isz(c) else c


def _xlogy(a, b):
    if _is(rcmp('eq', a.v, 0)):
        return SNum(0, 'f')
    return SNum(rmul(a.v, C.rlog(b.v)), 'f')


def _rel_entr(a, b):
    if _is(rcmp('eq', a.v, 0)):
        return SNum(0 if _is(rcmp('ge', b.v, 0)) else INF, 'f')
    if _is(rand_(rcmp('gt', a.v, 0), rcmp('gt', b.v, 0))):
        return SNum(rmul(a.v, C.rlog(rdiv(a.v, b.v))), 'f')
    return SNum(INF, 'f')


UF = {
    'add': lambda a, b: SNum(ror_(a.v, b.v), 'b') if a.k == 'b' and b.k == 'b' else _e2(radd)(a, b),
    'subtract': _e2(rsub),
    'multiply': lambda a, b: SNum(rand_(a.v, b.v), 'b') if a.k == 'b' and b.k == 'b' else _e2(rmul)(a, b),
    'divide': _e2(rdiv, 'f'), 'true_divide': _e2(rdiv, 'f'),
    'floor_divide': _e2(C.rfloordiv), 'remainder': _e2(C.rmod), 'mod': _e2(C.rmod),
    'fmod': _e2(C.rmod),
    'power': _e2(rpow), 'float_power': _e2(rpow, 'f'),
    'negative': _e1(rneg), 'positive': lambda a: a, 'absolute': _e1(rabs), 'fabs': _e1(rabs, 'f'),
    'sign': _e1(rsign),
    'sqrt': _e1(rsqrt, 'f'), 'square': _e1(lambda v: rpow(v, 2)), 'log': _e1(C.rlog, 'f'),
    'log2': _e1(C.rlog2, 'f'), 'exp': _e1(C.rexp, 'f'), 'cbrt': _e1(lambda v: C.rroot(v, 3), 'f'),
    'log1p': _e1(lambda v: C.rlog(radd(v, 1)), 'f'),
    'log10': _e1(lambda v: C.rdiv_pos(C.rlog(v), C.rlog(10)), 'f'),
    'reciprocal': _e1(lambda v: rdiv(1, v), 'f'),
    'less': _cmp('lt'), 'less_equal': _cmp('le'), 'greater': _cmp('gt'), 'greater_equal': _cmp('ge'),
    'equal': _cmp('eq'), 'not_equal': _cmp('ne'),
    'logical_and': lambda a, b: SNum(rand_(a.v, b.v), 'b'),
    'logical_or': lambda a, b: SNum(ror_(a.v, b.v), 'b'),
    'logical_not': lambda a: SNum(rnot(a.v), 'b'),
    'logical_xor': lambda a, b: SNum(rcmp('ne', tobool(a.v), tobool(b.v)), 'b'),
    'bitwise_and': lambda a, b: SNum(rand_(a.v, b.v), 'b') if a.k == 'b' and b.k == 'b' else _unsup('bitand'),
    'bitwise_or': lambda a, b: SNum(ror_(a.v, b.v), 'b') if a.k == 'b' and b.k == 'b' else _unsup('bitor'),
    'bitwise_xor': lambda a, b: SNum(rcmp('ne', tobool(a.v), tobool(b.v)), 'b'),
    'invert': lambda a: ~a,
    'maximum': _mixk(rmax), 'minimum': _mixk(rmin), 'fmax': _mixk(lambda a, b: rmax(a, b)),
    'fmin': _mixk(lambda a, b: rmin(a, b)),
    'floor': _e1(C.rfloor), 'ceil': _e1(lambda v: rneg(C.rfloor(rneg(v)))), 'rint': _e1(C.rround),
    'trunc': _e1(C.rtrunc),
    'isnan': lambda a: SNum(isspecial(a.v) and math.isnan(a.v), 'b'),
    'isinf': lambda a: SNum(isspecial(a.v) and math.isinf(a.v), 'b'),
    'isfinite': lambda a: SNum(not isspecial(a.v), 'b'),
    'conjugate': lambda a: a,
    'expm1': _e1(lambda v: rsub(C.rexp(v), 1), 'f'),
    'hypot': lambda a, b: SNum(rsqrt(radd(rpow(a.v, 2), rpow(b.v, 2))), 'f'),
    'heaviside': lambda a, b: SNum(rite(rcmp('lt', a.v, 0), 0, rite(rcmp('eq', a.v, 0), b.v, 1)), 'f'),
    'xlogy': _xlogy, 'rel_entr': _rel_entr,
    'spacing': lambda a: SNum(Fraction(1, 2 ** 60)),
}


def _unsup(n):
    raise Unsupported(n)


_IDENT = {'add': 0, 'multiply': 1, 'logical_and': True, 'logical_or': False, 'bitwise_or': False,
          'bitwise_and': True}


def _is_str(x):
    return isinstance(x, (str, np.str_)) or (isinstance(x, np.ndarray) and x.dtype.kind in 'US') or \
        (isinstance(x, np.ndarray) and not isinstance(x, SArr) and np.ndarray.dtype.__get__(x) == object and x.size > 0 and
         isinstance(x.flat[0], str))


def ufunc_dispatch(ufunc, method, inputs, kw):
    name = ufunc.__name__
    out = kw.pop('out', None)
    if out is not None and not isinstance(out, tuple):
        out = (out,)
    if method == '__call__':
        if name == 'matmul':
            r = matmul(*inputs)
        else:
            if name in ('equal', 'not_equal') and any(_is_str(x) for x in inputs):
                sh = np.broadcast_shapes(*[np.shape(x) for x in inputs])
                if all(_is_str(x) for x in inputs):
                    r = getattr(np, name)(*[np.asarray(_strip(x)).astype(str) for x in inputs])
                    return r.view(PArr) if isinstance(r, np.ndarray) else bool(r)
                r = np.full(sh, name == 'not_equal', dtype=bool).view(PArr)
                return r if r.ndim else bool(r)
            f = UF.get(name)
            if f is None:
                raise Unsupported('ufunc ' + name)
            where = kw.pop('where', True)
            dt = kw.pop('dtype', None)
            kw.pop('casting', None)
            r = emap(f, *inputs)
            if dt is not None:
                r = astype(r, dt)
            if where is not True:
                base = out[0] if out else r
                r = emap(lambda c, a, b: SNum(rite(c.v, a.v, b.v), C.join_kind(a, b)), where, r, base)
    elif method == 'reduce':
        axis = kw.get('axis', 0)
        r = reduce_(name, inputs[0], axis, kw.get('keepdims', False), initial=kw.get('initial', None))
        if kw.get('dtype') is not None:
            r = astype(r, kw['dtype'])
    elif method == 'accumulate':
        r = accumulate(name, inputs[0], kw.get('axis', 0))
    elif method == 'outer':
        a, b = obj(inputs[0]), obj(inputs[1])
        r = emap(UF[name], a.reshape(a.shape + (1,) * b.ndim), b)
    elif method == 'at':
        a, idx = inputs[0], inputs[1]
        idx = force_int(idx)
        vals = np.broadcast_to(obj(inputs[2]), idx.shape)
        for p in np.ndindex(idx.shape):
            a[int(idx[p])] = UF[name](wrapel(a[int(idx[p])]), vals[p])
        return None
    else:
        raise Unsupported('ufunc method ' + method)
    if out:
        o = out[0]
        if isinstance(o, SArr) or isinstance(o, PArr):
            o[...] = r
            return o
        if isinstance(o, np.ndarray):
            o[...] = to_plain(r)
            return o
        return r
    return r


def _axes(axis, ndim):
    if axis is None:
        return tuple(range(ndim))
    if isinstance(axis, (int, np.integer, SNum)):
        axis = (int(axis),)
    out = []
    for a in axis:
        a = int(a)
        if a < -ndim or a >= ndim:
            raise np.AxisError(a, ndim)
        out.append(a % ndim)
    return tuple(out)


def fold(name, els):
    if name == 'add':
        acc = 0
        syms = []
        k = 'i'
        for e in els:
            if e.k == 'f':
                k = 'f'
            if isz(e.v):
                syms.append(C.numz(e.v))
            else:
                acc = radd(acc, e.v)
        if isspecial(acc):
            return SNum(acc, k)
        if not syms:
            return SNum(acc, k)
        t = syms[0] if len(syms) == 1 else z3.Sum(syms)
        return SNum(radd(t, acc), k)
    if name in ('logical_and', 'bitwise_and'):
        return SNum(rand_all([e.v for e in els]), 'b')
    if name in ('logical_or', 'bitwise_or'):
        return SNum(ror_all([e.v for e in els]), 'b')
    if not els:
        if name in _IDENT:
            return SNum(_IDENT[name], 'f')
        raise ValueError('zero-size array to reduction operation %s which has no identity' % name)
    f = UF[name]
    acc = els[0]
    for e in els[1:]:
        acc = f(acc, e)
    return acc


def reduce_with(f, x, axis, keepdims=False, kd=None):
    """apply f(list of SNum) over the given axes"""
    o = obj(x)
    if o.ndim == 0:
        return f([o[()]])
    ax = _axes(axis, o.ndim)
    rest = [i for i in range(o.ndim) if i not in ax]
    t = np.transpose(o, rest + list(ax)).reshape([o.shape[i] for i in rest] + [-1] if o.size else
                                                 [o.shape[i] for i in rest] + [int(np.prod([o.shape[i] for i in ax]))])
    out = np.empty([o.shape[i] for i in rest], dtype=object)
    for i in np.ndindex(out.shape):
        out[i] = f(list(t[i].reshape(-1)) if t[i].ndim else [t[i]])
    if keepdims:
        out = out.reshape([1 if i in ax else o.shape[i] for i in range(o.ndim)])
    return wrap(out, kd)


def reduce_(name, x, axis, keepdims=False, initial=None):
    def f(els):
        if initial is not None and initial is not np._NoValue:
            els = [wrapel(initial)] + els
        return fold(name, els)
    return reduce_with(f, x, axis, keepdims)


def accumulate(name, x, axis=None):
    o = obj(x)
    if axis is None:
        o = o.reshape(-1)
        axis = 0
    ax = _axes(axis, o.ndim)[0]
    out = np.empty(o.shape, dtype=object)
    t = np.moveaxis(o, ax, -1)
    w = np.moveaxis(out, ax, -1)
    f = UF[name]
    for i in np.ndindex(t.shape[:-1]):
        acc = None
        for j in range(t.shape[-1]):
            e = t[i][j]
            if acc is None:
                acc = e if e.k != 'b' else cast(e, int)
            else:
                acc = f(acc, e)
            w[i + (j,)] = acc
    return wrap(out)


def matmul(a, b):
    a, b = obj(a), obj(b)
    if a.ndim == 0 or b.ndim == 0:
        raise ValueError('matmul: Input operand does not have enough dimensions')
    return dot(a, b)


def dot(a, b):
    a, b = obj(a), obj(b)
    if a.ndim == 0 or b.ndim == 0:
        return emap(UF['multiply'], a, b)
    va, vb = a.ndim == 1, b.ndim == 1
    if va:
        a = a.reshape(1, -1)
    if vb:
        b = b.reshape(-1, 1)
    if a.ndim > 2 or b.ndim > 2:
        raise Unsupported('dot of >2-d arrays')
    if a.shape[1] != b.shape[0]:
        raise ValueError('shapes %s and %s not aligned' % (a.shape, b.shape))
    out = np.empty((a.shape[0], b.shape[1]), dtype=object)
    for i in range(a.shape[0]):
        for j in range(b.shape[1]):
            out[i, j] = fold('add', [UF['multiply'](cast(a[i, k], float) if a[i, k].k == 'b' else a[i, k], b[k, j])
                                     for k in range(a.shape[1])])
    if va and vb:
        return out[0, 0]
    if va:
        out = out[0]
    elif vb:
        out = out[:, 0]
    return wrap(out)


def astype(x, dt, **kw):
    k = dtkind(dt)
    if isinstance(x, SNum):
        return cast(x, dt)
    o = obj(x)
    out = np.empty(o.shape, dtype=object)
    for i in np.ndindex(o.shape):
        out[i] = cast(o[i], dt)
    r = out.view(SArr)
    r.kd = k if k in 'fib' else arrkind(o)
    return r


# --------------------------------------------------------------------------- order statistics
def sort_vals(vs):
    """sorting network on raw values (no forks)"""
    vs = list(vs)
    n = len(vs)
    for i in range(n):
        for j in range(0, n - 1 - i):
            a, b = vs[j], vs[j + 1]
            c = rcmp('le', a, b)
            if c is True:
                continue
            if c is False:
                vs[j], vs[j + 1] = b, a
            else:
                vs[j], vs[j + 1] = rite(c, a, b), rite(c, b, a)
    return vs


def fork_argsort(vs):
    """stable insertion argsort, forking on comparisons"""
    idx = []
    for i, v in enumerate(vs):
        p = len(idx)
        while p > 0:
            c = rcmp('lt', v, vs[idx[p - 1]])
            if isinstance(vs[idx[p - 1]], float) and math.isnan(vs[idx[p - 1]]) and not (isspecial(v) and math.isnan(v)):
                c = True
            if C.CTX.branch(c) if isz(c) else c:
                p -= 1
            else:
                break
        idx.insert(p, i)
    return idx


def np_sort(a, axis=-1, kind=None, order=None, **kw):
    o = obj(a).copy()
    if axis is None:
        o = o.reshape(-1)
        axis = -1
    ax = _axes(axis, o.ndim)[0]
    t = np.moveaxis(o, ax, -1)
    kd = arrkind(o)
    for i in np.ndindex(t.shape[:-1]):
        vs = sort_vals([e.v for e in t[i]])
        for j, v in enumerate(vs):
            t[i + (j,)] = SNum(v, kd)
    return wrap(o, kd)


def np_argsort(a, axis=-1, kind=None, order=None, **kw):
    o = obj(a)
    if axis is None:
        o = o.reshape(-1)
        axis = -1
    ax = _axes(axis, o.ndim)[0]
    t = np.moveaxis(o, ax, -1)
    out = np.empty(o.shape, dtype=np.int64)
    w = np.moveaxis(out, ax, -1)
    for i in np.ndindex(t.shape[:-1]):
        w[i] = fork_argsort([e.v for e in t[i]])
    return out.view(PArr)


def _argext(vs, op):
    """index of first extreme, as a raw symbolic integer (no forks)"""
    for i, v in enumerate(vs):
        if isspecial(v) and math.isnan(v):
            return i
    best, bi = vs[0], 0
    for i in range(1, len(vs)):
        c = rcmp(op, vs[i], best)
        bi = rite(c, i, bi)
        best = rite(c, vs[i], best)
    return bi


def np_argmax(a, axis=None, out=None, keepdims=False):
    return reduce_with(lambda els: SNum(_argext([_num(e.v) for e in els], 'gt'), 'i') if els else _empty(), a, axis, keepdims)


def np_argmin(a, axis=None, out=None, keepdims=False):
    return reduce_with(lambda els: SNum(_argext([_num(e.v) for e in els], 'lt'), 'i') if els else _empty(), a, axis, keepdims)


def _empty():
    raise ValueError('attempt to get argmax of an empty sequence')


def _num(v):
    if isinstance(v, bool):
        return int(v)
    if isz(v) and z3.is_bool(v):
        return C.numz(v)
    return v


def np_sum(a, axis=None, dtype=None, out=None, keepdims=False, initial=0, where=True):
    if keepdims is np._NoValue:
        keepdims = False
    if where is not True and where is not np._NoValue:
        a = emap(lambda c, x: SNum(rite(c.v, x.v, 0), x.k), where, a)
    r = reduce_('add', a, axis, keepdims)
    if initial is not np._NoValue and initial is not None and not (isinstance(initial, (int, float)) and initial == 0):
        r = emap(UF['add'], r, initial)
    if dtype is not None:
        r = astype(r, dtype)
    return r


def np_broadcast(x, like):
    return wrap(np.array(np.broadcast_to(obj(x), obj(like).shape)))


def _where_given(where):
    if where is not True and where is not np._NoValue:
        raise Unsupported('where argument')


def _mean(els):
    s = fold('add', els)
    return SNum(rdiv(s.v, len(els)), 'f')


def np_mean(a, axis=None, dtype=None, out=None, keepdims=False, where=True):
    if where is not True and where is not np._NoValue:
        n = np_sum(np_broadcast(where, a), axis, keepdims=keepdims)
        return emap(UF['divide'], np_sum(a, axis, keepdims=keepdims, where=where), n)
    if keepdims is np._NoValue:
        keepdims = False
    return reduce_with(_mean, a, axis, keepdims, 'f')


def _var(els, ddof=0):
    n = len(els)
    if n - ddof <= 0:
        return SNum(NAN)
    m = _mean(els)
    sq = [SNum(rpow(rsub(e.v, m.v), 2)) for e in els]
    return SNum(rdiv(fold('add', sq).v, n - ddof))


def np_var(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    return reduce_with(lambda e: _var(e, ddof), a, axis, bool(keepdims), 'f')


def np_std(a, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
    return reduce_with(lambda e: SNum(rsqrt(_var(e, ddof).v)), a, axis, bool(keepdims), 'f')


def np_average(a, axis=None, weights=None, returned=False, keepdims=False):
    if weights is None:
        return np_mean(a, axis, keepdims=keepdims)
    a_, w = obj(a), obj(weights)
    if a_.shape != w.shape:
        if axis is None:
            raise TypeError('Axis must be specified when shapes of a and weights differ.')
        ax = _axes(axis, a_.ndim)[0]
        w = w.reshape([-1 if i == ax else 1 for i in range(a_.ndim)])
    num = np_sum(emap(UF['multiply'], a_, w), axis, keepdims=keepdims)
    den = np_sum(np.broadcast_to(w, a_.shape), axis, keepdims=keepdims)
    r = emap(UF['divide'], num, den)
    return (r, den) if returned else r


def _median(els):
    vs = sort_vals([e.v for e in els])
    n = len(vs)
    if n == 0:
        return SNum(NAN)
    if any(isspecial(v) and math.isnan(v) for v in vs):
        return SNum(NAN)
    if n % 2:
        return SNum(vs[n // 2], 'f')
    return SNum(rdiv(radd(vs[n // 2 - 1], vs[n // 2]), 2), 'f')


def np_median(a, axis=None, out=None, overwrite_input=False, keepdims=False):
    return reduce_with(_median, a, axis, keepdims, 'f')


def np_quantile(a, q, axis=None, **kw):
    if kw.get('method', 'linear') != 'linear' or kw.get('interpolation'):
        raise Unsupported('quantile method')

    def one(qv):
        def f(els):
            vs = sort_vals([e.v for e in els])
            pos = rmul(qv, len(vs) - 1)
            if isz(pos):
                raise Unsupported('symbolic quantile')
            lo = math.floor(pos)
            hi = min(lo + 1, len(vs) - 1)
            return SNum(radd(vs[lo], rmul(pos - lo, rsub(vs[hi], vs[lo]))))
        return reduce_with(f, a, axis, kd='f')
    qo = obj(q)
    if qo.ndim == 0:
        return one(qo[()].v)
    return np_stack([one(e.v) for e in qo])


def np_percentile(a, q, axis=None, **kw):
    return np_quantile(a, emap(UF['divide'], q, 100), axis, **kw)


def np_histogram_bin_edges(a, bins=10, range=None, weights=None):
    if isinstance(bins, SNum):
        bins = int(bins)
    if not isinstance(bins, (int, np.integer)):
        return sarr(bins)
    if range is None:
        o = obj(a)
        if o.size == 0:
            lo, hi = 0, 1
        else:
            lo = fold('minimum', list(o.flat)).v
            hi = fold('maximum', list(o.flat)).v
    else:
        lo, hi = rawv(range[0]), rawv(range[1])
        c = rcmp('gt', lo, hi)
        if C.CTX.branch(c) if isz(c) else c:
            raise ValueError('max must be larger than min in range parameter.')
    if isspecial(lo) or isspecial(hi):
        raise ValueError('supplied range of [%s, %s] is not finite' % (lo, hi))
    eq = rcmp('eq', lo, hi)
    if C.CTX.branch(eq) if isz(eq) else eq:
        lo, hi = rsub(lo, Fraction(1, 2)), radd(hi, Fraction(1, 2))
    return np_linspace(SNum(lo), SNum(hi), bins + 1)


def np_histogram(a, bins=10, range=None, density=None, weights=None):
    if not isinstance(bins, (int, np.integer, SNum)):
        e = obj(bins).reshape(-1)
        for i in builtins.range(len(e) - 1):
            c = rcmp('gt', e[i].v, e[i + 1].v)
            if C.CTX.branch(c) if isz(c) else c:
                raise ValueError('`bins` must increase monotonically, when an array')
    else:
        e = obj(np_histogram_bin_edges(a, bins, range))
    x = obj(a).reshape(-1)
    for v in x:
        if isspecial(v.v) and math.isnan(v.v) and isinstance(bins, (int, np.integer)):
            raise ValueError('autodetected range of [nan, nan] is not finite')
    w = None if weights is None else obj(weights).reshape(-1)
    n = len(e) - 1
    out = np.empty(n, dtype=object)
    for j in builtins.range(n):
        acc = []
        for i, v in enumerate(x):
            lo = rcmp('ge', v.v, e[j].v)
            hi = rcmp('le' if j == n - 1 else 'lt', v.v, e[j + 1].v)
            c = rand_(lo, hi)
            one = SNum(1, 'i') if w is None else w[i]
            if c is True:
                acc.append(one)
            elif c is not False:
                acc.append(SNum(rite(c, one.v, 0), one.k))
        out[j] = fold('add', acc)
    h = wrap(out, 'i' if w is None else 'f')
    if density:
        tot = np_sum(h)
        h = emap(lambda c, a_, b_: SNum(rdiv(c.v, rmul(tot.v, rsub(b_.v, a_.v)))), h, e[:-1], e[1:])
    return h, sarr(e)


def np_digitize(x, bins, right=False):
    e = obj(bins).reshape(-1)
    inc = True

    def f(v):
        acc = 0
        for b in e:
            acc = radd(acc, _num(rcmp('gt' if right else 'ge', v.v, b.v)))
        return SNum(acc, 'i')
    return emap(f, x, kd='i')


def np_searchsorted(a, v, side='left', sorter=None):
    if not anysym(a, v):
        return np.searchsorted(a, v, side=side)
    e = obj(a).reshape(-1)

    def f(x):
        acc = 0
        for b in e:
            acc = radd(acc, _num(rcmp('lt' if side == 'left' else 'le', b.v, x.v)))
        return SNum(acc, 'i')
    return emap(f, v, kd='i')


def np_bincount(x, weights=None, minlength=0):
    if not anysym(x, weights):
        return np.bincount(x, weights=weights, minlength=minlength).view(PArr)
    o = obj(x).reshape(-1)
    hi = int(minlength) - 1
    for e in o:
        if isz(e.v):
            v = C.numz(e.v)
            k = 0
            while k < 64 and C.CTX.feasible(v > max(hi, k)):
                k += 1
                if max(hi, k) == k:
                    pass
            hi = max(hi, k)
        else:
            hi = max(hi, int(e.v))
    # the length depends on the maximum: fork on it when it can exceed minlength
    n = hi + 1
    while n > int(minlength) and n > 0:
        c = ror_all([rcmp('eq', e.v, n - 1) for e in o])
        if C.CTX.branch(c) if isz(c) else c:
            break
        n -= 1
    w = None if weights is None else obj(weights).reshape(-1)
    out = np.empty(n, dtype=object)
    for j in range(n):
        acc = []
        for i, e in enumerate(o):
            c = rcmp('eq', e.v, j)
            one = SNum(1, 'i') if w is None else w[i]
            if c is True:
                acc.append(one)
            elif c is not False:
                acc.append(SNum(rite(c, one.v, 0), one.k))
        out[j] = fold('add', acc)
    return wrap(out, 'i' if w is None else 'f') if n else sarr(np.empty(0, dtype=object), 'i')


def np_unique(ar, return_index=False, return_inverse=False, return_counts=False, axis=None, **kw):
    if not anysym(ar) or isconc_any(ar):
        r = np.unique(to_plain(ar) if anysym(ar) else np.asarray(ar), return_index=return_index,
                      return_inverse=return_inverse, return_counts=return_counts, axis=axis)
        return tuple(conv(x) for x in r) if isinstance(r, tuple) else conv(r)
    o = obj(ar).reshape(-1)
    vals = None if return_index else finite_values([e.v for e in o])
    if vals is not None:
        present = []
        for v in vals:
            c = ror_all([rcmp('eq', e.v, v) for e in o])
            if C.CTX.branch(c) if isz(c) else c:
                present.append(v)
        res = [np.array(present, dtype=np.int64).view(PArr)]
        if return_inverse:
            def inv(e):
                acc = len(present) - 1
                for k in range(len(present) - 2, -1, -1):
                    acc = rite(rcmp('eq', e.v, present[k]), k, acc)
                return SNum(acc, 'i')
            res.append(emap(inv, wrap(o), kd='i'))
        if return_counts:
            cn = np.empty(len(present), dtype=object)
            for k, v in enumerate(present):
                t = 0
                for e in o:
                    t = C.radd(t, rite(rcmp('eq', e.v, v), 1, 0))
                cn[k] = SNum(t, 'i')
            res.append(wrap(cn))
        return res[0] if len(res) == 1 else tuple(res)
    order = fork_argsort([e.v for e in o])
    groups = []
    for i in order:
        if groups:
            c = rcmp('eq', o[groups[-1][0]].v, o[i].v)
            if C.CTX.branch(c) if isz(c) else c:
                groups[-1].append(i)
                continue
        groups.append([i])
    u = np.empty(len(groups), dtype=object)
    for k, g in enumerate(groups):
        u[k] = o[g[0]]
    res = [wrap(u)]
    if return_index:
        res.append(np.array([min(g) for g in groups]).view(PArr))
    if return_inverse:
        inv = np.empty(len(o), dtype=np.int64)
        for k, g in enumerate(groups):
            inv[g] = k
        res.append(inv.view(PArr))
    if return_counts:
        res.append(np.array([len(g) for g in groups]).view(PArr))
    return res[0] if len(res) == 1 else tuple(res)


def finite_values(terms, limit=12):
    """sorted integers the terms can take when they are case distinctions over integer inputs, else None"""
    out = set()
    todo = list(terms)
    n = 0
    while todo:
        t = todo.pop()
        n += 1
        if n > 4000:
            return None
        if not isz(t):
            if C.isspecial(t) or isinstance(t, bool) or t != int(t):
                return None
            out.add(int(t))
        elif z3.is_rational_value(t):
            todo.append(C.q_of(t))
        elif z3.is_const(t):
            d = C.CTX.domains.get(str(t))
            if d is None or d[0] != 'i':
                return None
            out.update(int(v) for v in d[1])
        elif t.decl().kind() == z3.Z3_OP_ITE and not z3.is_bool(t):
            todo += [t.arg(1), t.arg(2)]
        else:
            return None
        if len(out) > limit:
            return None
    return sorted(out)


def isconc_any(x):
    try:
        return not hassym(x)
    except Exception:
        return False


def np_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    num = int(num)
    a, b = rawv(start), rawv(stop)
    div = (num - 1) if endpoint else num
    out = np.empty(num, dtype=object)
    for i in range(num):
        if i == 0:
            v = a
        elif endpoint and i == num - 1:
            v = b
        else:
            v = radd(a, rmul(rsub(b, a), Fraction(i, div)))
        out[i] = SNum(v, 'f')
    r = wrap(out, 'f')
    return (r, SNum(rdiv(rsub(b, a), div))) if retstep else r


# --------------------------------------------------------------------------- construction
def np_array(x, dtype=None, copy=True, order=None, subok=False, ndmin=0, like=None):
    k = dtkind(dtype)
    if isinstance(x, SArr) and not (copy is False and (k is None or k == x.kd)):
        r = x.copy()
        if k in ('f', 'i', 'b') and k != x.kd:
            r = astype(r, dtype)
    elif isinstance(x, SArr):
        r = x
    else:
        if not anysym(x) and not _deep_sym(x):
            if k in ('U', 'O', 'S') or isinstance(x, (str,)):
                return np.array(x, dtype=dtype).view(PArr)
            p = np.array(x, dtype=dtype if k not in ('f',) else None)
            if p.dtype.kind in 'USO':
                return p.view(PArr)
            if k is None and p.dtype.kind in 'iub' or k in ('i', 'b'):
                r = p.astype(int if k == 'i' else p.dtype).view(PArr) if k != 'b' else p.astype(bool).view(PArr)
            else:
                r = sarr(p, 'f')
        else:
            r = sarr(obj(x))
            if k in ('f', 'i', 'b'):
                r = astype(r, dtype)
    while r.ndim < ndmin:
        r = r[np.newaxis]
    return r


def _deep_sym(x):
    if isinstance(x, (SNum, SArr)):
        return True
    if isinstance(x, (list, tuple)):
        return any(_deep_sym(e) for e in x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return any(isinstance(e, (SNum, SArr)) for e in x.flat)
    return False


def np_asarray(x, dtype=None, order=None, **k):
    if isinstance(x, (SArr, PArr)) and (dtype is None or dtkind(dtype) == (x.kd if isinstance(x, SArr) else dtkind(x.dtype))):
        return x
    if isinstance(x, np.ndarray) and dtype is None:
        return conv(x)
    return np_array(x, dtype=dtype)


def conv(x):
    """plain numpy result -> facade arrays (floats become exact symbolic-capable arrays)"""
    if isinstance(x, (SArr, PArr)):
        if isinstance(x, PArr) and x.dtype.kind == 'f':
            return sarr(np.asarray(x), 'f') if x.ndim else SNum(rawv(float(x)))
        return x
    if isinstance(x, np.ndarray):
        if x.dtype.kind == 'f':
            return sarr(x, 'f')
        return x.view(PArr)
    if isinstance(x, np.floating):
        return SNum(rawv(x))
    return x


def _shape(s):
    if isinstance(s, (int, np.integer, SNum)):
        return (int(s),)
    if s is None:
        return ()
    return tuple(int(i) for i in s)


def full(shape, val, dtype=None):
    k = dtkind(dtype)
    sh = _shape(shape)
    if k in ('O', 'U', 'S') or (k is None and isinstance(val, (str,))):
        return np.full(sh, val, dtype=dtype).view(PArr if k != 'O' else OArr)
    vo = obj(val)
    out = np.empty(sh, dtype=object)
    b = np.broadcast_to(vo, sh)
    for i in np.ndindex(sh):
        out[i] = b[i] if k is None else cast(b[i], dtype)
    r = out.view(SArr)
    r.kd = k or arrkind(vo)
    if k == 'i':
        r.wd = _narrow(dtype)
    return r


def _narrow(dtype):
    """range of an integer type of at most 16 bits (wider ones are taken as unbounded)"""
    d = np.dtype(dtype)
    return (int(np.iinfo(d).min), int(np.iinfo(d).max)) if d.kind in 'iu' and d.itemsize <= 2 else None


def _wrap_around(e, wd):
    """value kept by an integer type with the range `wd`"""
    lo, hi = wd
    if not isinstance(e, SNum) or not isz(e.v):
        v = int(e.v if isinstance(e, SNum) else e)
        return wrapel((v - lo) % (hi - lo + 1) + lo)
    if C.CTX.branch(z3.And(C.numz(e.v) >= lo, C.numz(e.v) <= hi)):
        return e
    return (e - lo) % (hi - lo + 1) + lo


def np_zeros(shape, dtype=float, order='C', **k):
    return full(shape, 0, dtype or float)


def np_ones(shape, dtype=float, order='C', **k):
    return full(shape, 1, dtype or float)


def np_empty(shape, dtype=float, order='C', **k):
    if dtkind(dtype) in ('O', 'U'):
        return np.empty(_shape(shape), dtype=dtype).view(OArr)
    return full(shape, 0, dtype or float)


def np_full(shape, fill_value, dtype=None, order='C', **k):
    if dtype is None and not anysym(fill_value) and isinstance(fill_value, (int, np.integer, str, bool)):
        return np.full(_shape(shape), fill_value).view(PArr)
    return full(shape, fill_value, dtype)


def _like(val):
    def f(a, dtype=None, order='K', subok=True, shape=None):
        if shape is None:
            shape = np.shape(a)
        if dtype is None:
            k = a.kd if isinstance(a, SArr) else (dtkind(np.asarray(a).dtype) if not anysym(a) else arrkind(obj(a)))
            if k == 'U':
                raise Unsupported('zeros_like of strings')
            dtype = {'f': float, 'i': int, 'b': bool, 'O': object}[k]
        return full(shape, val, dtype)
    return f


def np_full_like(a, fill_value, dtype=None, **kw):
    r = _like(0)(a, dtype=dtype)
    r[...] = fill_value
    return r


def np_eye(N, M=None, k=0, dtype=float, **kw):
    M = N if M is None else M
    r = np_zeros((int(N), int(M)), dtype)
    for i in range(int(N)):
        if 0 <= i + k < int(M):
            r[i, i + k] = 1
    return r


def np_arange(*a, dtype=None, **kw):
    a = [int(x) if isinstance(x, SNum) and x.k == 'i' else (to_plain(x) if isinstance(x, SNum) else x) for x in a]
    r = np.arange(*a, dtype=dtype)
    return conv(r)


def np_concatenate(arrs, axis=0, out=None, dtype=None, **k):
    arrs = list(arrs)
    if not any(anysym(a) or _deep_sym(a) for a in arrs):
        return conv(np.concatenate([np.asarray(a) for a in arrs], axis=axis))
    os = [obj(a) for a in arrs]
    kd = 'bif'[max(C._KORD[a.kd if isinstance(a, SArr) else arrkind(o)] for a, o in zip(arrs, os))]
    return wrap(np.concatenate(os, axis=axis), kd)


def _lift(x):
    if isinstance(x, (SArr, PArr)):
        return x
    return np_asarray(x)


def np_vstack(tup, **k):
    return np_concatenate([np_atleast_2d(a) for a in tup], axis=0)


def np_hstack(tup, **k):
    arrs = [np_atleast_1d(a) for a in tup]
    return np_concatenate(arrs, axis=0 if arrs and arrs[0].ndim == 1 else 1)


def np_column_stack(tup):
    arrs = []
    for a in tup:
        a = _lift(a)
        arrs.append(a.reshape(-1, 1) if a.ndim < 2 else a)
    return np_concatenate(arrs, axis=1)


def np_stack(arrays, axis=0, **k):
    arrs = [_lift(a) if not isinstance(a, SNum) else sarr(obj(a)) for a in arrays]
    nd = arrs[0].ndim + 1
    ax = axis % nd
    return np_concatenate([a.reshape(a.shape[:ax] + (1,) + a.shape[ax:]) for a in arrs], axis=ax)


def np_atleast_1d(*a):
    r = []
    for x in a:
        x = sarr(obj(x)) if isinstance(x, SNum) else _lift(x)
        r.append(x.reshape(1) if x.ndim == 0 else x)
    return r[0] if len(r) == 1 else r


def np_atleast_2d(*a):
    r = []
    for x in a:
        x = sarr(obj(x)) if isinstance(x, SNum) else _lift(x)
        r.append(x.reshape(1, -1) if x.ndim <= 1 else x)
    return r[0] if len(r) == 1 else r


def np_append(arr, values, axis=None):
    if axis is None:
        return np_concatenate([np_ravel(arr), np_ravel(values)])
    return np_concatenate([_lift(arr), _lift(values)], axis=axis)


def np_ravel(a, order='C'):
    a = sarr(obj(a)) if isinstance(a, SNum) else _lift(a)
    return a.reshape(-1)


def np_where(cond, x=None, y=None):
    if x is None and y is None:
        c = force_bool(cond) if anysym(cond) else np.asarray(cond)
        return tuple(i.view(PArr) for i in np.nonzero(np.asarray(c)))
    if not anysym(cond, x, y):
        return conv(np.where(np.asarray(cond), x, y))
    return emap(lambda c, a, b: SNum(rite(c.v, _same(a, b), _same(b, a)), C.join_kind(a, b)), cond, x, y)


def _same(a, b):
    if a.k == 'b' and b.k != 'b':
        return _num(a.v)
    return a.v


def np_select(condlist, choicelist, default=0):
    r = default
    for c, x in reversed(list(zip(condlist, choicelist))):
        r = np_where(c, x, r)
    return r


def np_nonzero(a):
    return np_where(a if not isinstance(a, SArr) or a.kd == 'b' else emap(lambda e: SNum(tobool(e.v), 'b'), a))


def np_flatnonzero(a):
    return np_nonzero(np_ravel(a))[0]


def np_argwhere(a):
    return np.transpose(np.array(np_nonzero(a))).view(PArr)


def np_count_nonzero(a, axis=None, keepdims=False):
    if not anysym(a):
        r = np.count_nonzero(a, axis=axis, keepdims=keepdims)
        return r
    return reduce_with(lambda els: SNum(fold('add', [SNum(_num(tobool(e.v)), 'i') for e in els]).v, 'i'), a, axis, keepdims)


def np_clip(a, a_min=None, a_max=None, out=None, **kw):
    def f(x, *lims):
        v = x.v
        k = x.k
        i = 0
        if a_min is not None:
            v = rmax(v, lims[0].v)
            k = C.join_kind(SNum(0, k), lims[0])
            i = 1
        if a_max is not None:
            v = rmin(v, lims[i].v)
            k = C.join_kind(SNum(0, k), lims[i])
        return SNum(v, k)
    ls = [x for x in (a_min, a_max) if x is not None]
    r = emap(f, a, *ls)
    if out is not None:
        out[...] = r
        return out
    return r


def np_diff(a, n=1, axis=-1, **kw):
    for q in kw:
        if q not in ('prepend', 'append'):
            raise TypeError('diff: ' + q)
    if not anysym(a) and not any(anysym(x) for x in kw.values()):
        return conv(np.diff(np.asarray(a), n=n, axis=axis, **{q: np.asarray(x) for q, x in kw.items()}))
    if kw:
        a = _lift(a)
        ax = _axes(axis, a.ndim)[0]
        sh = list(a.shape)
        sh[ax] = 1
        ends = {q: _lift(np.broadcast_to(obj(x), sh) if np.ndim(x) == 0 else x) for q, x in kw.items()}
        a = np_concatenate([ends[q] for q in ('prepend',) if q in ends] + [a] + [ends[q] for q in ('append',) if q in ends], axis=ax)
    o = obj(a)
    ax = _axes(axis, o.ndim)[0]
    for _ in range(n):
        o = obj(emap(UF['subtract'], np.take(o, range(1, o.shape[ax]), axis=ax), np.take(o, range(0, o.shape[ax] - 1), axis=ax)))
    return wrap(o)


def np_round(a, decimals=0, out=None):
    if decimals == 0:
        r = emap(lambda e: SNum(C.rround(e.v), e.k), a)
    else:
        r = emap(lambda e: e.__round__(decimals), a)
    return r


def np_allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return reduce_('logical_and', np_isclose(a, b, rtol, atol), None)


def np_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    rt, at = C.f2q(rtol), C.f2q(atol)
    return emap(lambda x, y: SNum(rcmp('le', rabs(rsub(x.v, y.v)), radd(at, rmul(rt, rabs(y.v)))), 'b'), a, b)


def np_array_equal(a, b, equal_nan=False):
    if not anysym(a, b):
        return np.array_equal(a, b)
    sa, sb = np.shape(a), np.shape(b)
    if sa != sb:
        return False
    return reduce_('logical_and', emap(UF['equal'], a, b), None)


def np_isscalar(x):
    return isinstance(x, SNum) or np.isscalar(x)


def np_dot(a, b, out=None):
    if not anysym(a, b) and not isinstance(a, PArr) and not isinstance(b, PArr):
        return np.dot(a, b)
    return dot(a, b)


def np_outer(a, b, out=None):
    a, b = obj(a).reshape(-1), obj(b).reshape(-1)
    return emap(UF['multiply'], a.reshape(-1, 1), b.reshape(1, -1))


def np_diag(v, k=0):
    o = obj(v)
    if o.ndim == 1:
        r = np_zeros((len(o) + abs(k),) * 2)
        for i in range(len(o)):
            r[(i, i + k) if k >= 0 else (i - k, i)] = o[i]
        return r
    return wrap(np.diag(o, k))


def np_trace(a, **k):
    o = obj(a)
    return fold('add', [o[i, i] for i in range(min(o.shape))])


def np_apply_along_axis(func1d, axis, arr, *args, **kwargs):
    if not anysym(arr):
        return conv(np.apply_along_axis(func1d, axis, arr, *args, **kwargs))
    o = obj(arr)
    ax = _axes(axis, o.ndim)[0]
    t = np.moveaxis(o, ax, -1)
    res = {}
    shape = None
    kd0 = arr.kd if isinstance(arr, SArr) else arrkind(o)
    for i in np.ndindex(t.shape[:-1]):
        r = func1d(wrap(t[i].copy(), kd0), *args, **kwargs)
        r = obj(r)
        res[i] = r
        if shape is None:
            shape = r.shape
        elif shape != r.shape:
            raise ValueError('could not broadcast input array from shape %s into shape %s' % (r.shape, shape))
    out = np.empty(t.shape[:-1] + shape, dtype=object)
    for i, r in res.items():
        if shape == ():
            out[i] = r[()]
        else:
            out[i] = r
    if shape != ():
        # new axes replace `axis`
        for j in range(len(shape)):
            out = np.moveaxis(out, t.ndim - 1 + j, ax + j)
    return wrap(out)


def np_einsum(spec, *ops, **k):
    spec = spec.replace(' ', '')
    if '->' in spec:
        ins, out = spec.split('->')
    else:
        ins = spec
        letters = ins.replace(',', '')
        out = ''.join(sorted(c for c in set(letters) if letters.count(c) == 1))
    ins = ins.split(',')
    os = [obj(o) for o in ops]
    dims = {}
    for s, o in zip(ins, os):
        for c, d in zip(s, o.shape):
            dims[c] = d
    summed = [c for c in dims if c not in out]
    res = np.empty([dims[c] for c in out], dtype=object)
    for oi in np.ndindex(res.shape):
        env = dict(zip(out, oi))
        acc = []
        for si in itertools.product(*[range(dims[c]) for c in summed]):
            env.update(zip(summed, si))
            p = SNum(1, 'i')
            for s, o in zip(ins, os):
                p = UF['multiply'](p, o[tuple(env[c] for c in s)])
            acc.append(p)
        res[oi] = fold('add', acc)
    return wrap(res)


def np_take(a, indices, axis=None, mode='raise', **k):
    a = _lift(a)
    if axis is None:
        a = a.reshape(-1)
        axis = 0
    ax = axis % a.ndim
    idx = (slice(None),) * ax + (indices,)
    return a[idx]


def np_take_along_axis(arr, indices, axis):
    arr = _lift(arr)
    if anysym(indices):
        indices = force_int(indices)
    return wrap(np.take_along_axis(obj(arr), np.asarray(indices), axis)) if isinstance(arr, SArr) else \
        np.take_along_axis(arr, np.asarray(indices), axis)


def np_delete(arr, o, axis=None):
    if anysym(o):
        o = force_int(o)
    if isinstance(arr, SArr):
        return wrap(np.delete(obj(arr), o, axis), arr.kd)
    return conv(np.delete(arr, o, axis))


def np_insert(arr, o, values, axis=None):
    if isinstance(arr, SArr) or anysym(values):
        return wrap(np.insert(obj(arr), o, obj(values) if np.ndim(values) else obj(values)[()], axis))
    return conv(np.insert(arr, o, values, axis))


def np_interp(x, xp, fp, left=None, right=None, period=None):
    X, F = obj(xp).reshape(-1), obj(fp).reshape(-1)

    def f(e):
        v = e.v
        r = F[-1].v if right is None else rawv(right)
        last = F[-1].v
        r = rite(rcmp('le', v, X[-1].v), last, r)
        for i in range(len(X) - 2, -1, -1):
            w = rsub(X[i + 1].v, X[i].v)
            if not isz(w) and w == 0:
                continue
            seg = radd(F[i].v, rmul(rdiv(rsub(F[i + 1].v, F[i].v), w), rsub(v, X[i].v)))
            r = rite(rcmp('lt', v, X[i + 1].v), seg, r)
        r = rite(rcmp('lt', v, X[0].v), F[0].v if left is None else rawv(left), r)
        return SNum(r)
    return emap(f, x)


def np_any(a, axis=None, out=None, keepdims=False, where=True, **k):
    _where_given(where)
    if not anysym(a):
        return np.any(np.asarray(a), axis=axis, keepdims=keepdims)
    return reduce_('logical_or', a, axis, keepdims)


def np_all(a, axis=None, out=None, keepdims=False, where=True, **k):
    _where_given(where)
    if not anysym(a):
        return np.all(np.asarray(a), axis=axis, keepdims=keepdims)
    return reduce_('logical_and', a, axis, keepdims)


def np_cumsum(a, axis=None, dtype=None, out=None):
    r = accumulate('add', a, axis)
    if out is not None:
        out[...] = r
        return out
    return r


def np_cumprod(a, axis=None, **k):
    return accumulate('multiply', a, axis)


def np_isin(element, test_elements, **kw):
    if not anysym(element, test_elements):
        return np.isin(_strip(np.asarray(element)), np.asarray(_strip(test_elements)), **kw).view(PArr)
    t = obj(test_elements).reshape(-1)
    inv = kw.get('invert', False)
    return emap(lambda e: SNum(rnot(ror_all([rcmp('eq', e.v, x.v) for x in t])) if inv else
                               ror_all([rcmp('eq', e.v, x.v) for x in t]), 'b'), element)


def np_lexsort(keys, axis=-1):
    ks = [obj(k).reshape(-1) for k in keys]
    n = len(ks[0])

    def less(i, j):
        for k in reversed(ks):
            lt = rcmp('lt', k[i].v, k[j].v)
            if C.CTX.branch(lt) if isz(lt) else lt:
                return True
            gt = rcmp('gt', k[i].v, k[j].v)
            if C.CTX.branch(gt) if isz(gt) else gt:
                return False
        return False
    idx = []
    for i in range(n):
        p = len(idx)
        while p > 0 and less(i, idx[p - 1]):
            p -= 1
        idx.insert(p, i)
    return np.array(idx).view(PArr)


def np_nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    def f(e):
        if isspecial(e.v):
            if math.isnan(e.v):
                return SNum(rawv(nan))
            if e.v > 0:
                return SNum(10 ** 308 if posinf is None else rawv(posinf))
            return SNum(-10 ** 308 if neginf is None else rawv(neginf))
        return e
    return emap(f, x)


def np_tile(A, reps):
    A = sarr(obj(A)) if isinstance(A, SNum) else _lift(A)
    reps = tuple(int(r) for r in reps) if isinstance(reps, (tuple, list)) else int(reps)
    if isinstance(A, SArr):
        return wrap(np.tile(obj(A), reps), A.kd)
    return np.tile(np.asarray(A), reps).view(PArr)


def np_repeat(a, repeats, axis=None):
    a = sarr(obj(a)) if isinstance(a, SNum) else _lift(a)
    if anysym(repeats):
        repeats = force_int(repeats)
    if isinstance(a, SArr):
        return wrap(np.repeat(obj(a), repeats, axis), a.kd)
    return np.repeat(np.asarray(a), repeats, axis).view(PArr)


def np_norm(x, ord=None, axis=None, keepdims=False):
    if ord in (None, 2, 'fro') and (axis is not None or np.ndim(x) == 1 or ord in (None, 'fro')):
        return emap(UF['sqrt'], np_sum(emap(UF['square'], x), axis, keepdims=keepdims))
    if ord == 1 and (axis is not None or np.ndim(x) == 1):
        return np_sum(emap(UF['absolute'], x), axis, keepdims=keepdims)
    if ord == np.inf and (axis is not None or np.ndim(x) == 1):
        return reduce_('maximum', emap(UF['absolute'], x), axis, keepdims)
    raise Unsupported('norm order %r' % (ord,))


def det(o):
    n = o.shape[0]
    if n == 1:
        return o[0, 0].v
    if n == 2:
        return rsub(rmul(o[0, 0].v, o[1, 1].v), rmul(o[0, 1].v, o[1, 0].v))
    acc = 0
    for j in range(n):
        minor = np.delete(np.delete(o, 0, 0), j, 1)
        t = rmul(o[0, j].v, det(minor))
        acc = radd(acc, t) if j % 2 == 0 else rsub(acc, t)
    return acc


def inv(a, **kw):
    """exact inverse by cofactors; LinAlgError when singular"""
    o = obj(a)
    if o.ndim != 2 or o.shape[0] != o.shape[1]:
        raise np.linalg.LinAlgError('Last 2 dimensions of the array must be square')
    n = o.shape[0]
    for e in o.flat:
        if isspecial(e.v):
            raise ValueError('array must not contain infs or NaNs')
    d = det(o)
    if isz(d):
        # keep the cofactor polynomial small for the solver
        d = z3.simplify(d, som=True) if n <= 3 else d
        if z3.is_rational_value(d):
            d = C.q_of(d)
    z = rcmp('eq', d, 0)
    if C.CTX.branch(z) if isz(z) else z:
        raise np.linalg.LinAlgError('singular matrix')
    out = np.empty((n, n), dtype=object)
    if n == 1:
        out[0, 0] = SNum(rdiv(1, d))
        return wrap(out, 'f')
    for i in range(n):
        for j in range(n):
            minor = np.delete(np.delete(o, i, 0), j, 1)
            c = det(minor)
            if (i + j) % 2:
                c = rneg(c)
            out[j, i] = SNum(rdiv(c, d) if not isz(d) else C.numz(c) / d)
    return wrap(out, 'f')


def solve(a, b, **kw):
    return dot(inv(a), b)


# --------------------------------------------------------------------------- array classes
def _idx_has_sym(idx):
    if isinstance(idx, tuple):
        return any(_idx_has_sym(i) for i in idx)
    return isinstance(idx, (SNum, SArr)) or (isinstance(idx, list) and _deep_sym(idx))


def _plainize(i):
    """index component -> plain when it is concrete; ('mask'|'int', obj) otherwise"""
    if isinstance(i, SNum):
        if i.k == 'b':
            return bool(i)
        if i.k == 'f':
            raise IndexError('only integers, slices (`:`), ellipsis (`...`), numpy.newaxis (`None`) and integer or boolean arrays are valid indices')
        if not isz(i.v):
            return int(i.v)
        s = z3.simplify(C.numz(i.v))
        if z3.is_rational_value(s):
            return int(C.q_of(s))
        return i
    if isinstance(i, list) and _deep_sym(i):
        i = sarr(i)
    if isinstance(i, SArr):
        if not hassym(i):
            p = to_plain(i)
            if p.dtype.kind == 'f':
                if p.size == 0:
                    return np.asarray(p).astype(int)
                raise IndexError('arrays used as indices must be of integer (or boolean) type')
            return np.asarray(p)
        if i.kd == 'b':
            return i
        if i.kd == 'f':
            raise IndexError('arrays used as indices must be of integer (or boolean) type')
        return i
    if isinstance(i, PArr):
        return np.asarray(i)
    if isinstance(i, slice):
        f = lambda x: int(x) if isinstance(x, SNum) else x
        return slice(f(i.start), f(i.stop), f(i.step))
    return i


def _is_symidx(i):
    return isinstance(i, (SNum, SArr))


def _expand_ellipsis(idx, ndim):
    if not isinstance(idx, tuple):
        idx = (idx,)
    if any(i is Ellipsis for i in idx):
        p = [k for k, i in enumerate(idx) if i is Ellipsis][0]
        used = sum(1 for i in idx if i is not None and i is not Ellipsis and not _is_boolnd(i)) + \
            sum(np.ndim(i) for i in idx if _is_boolnd(i))
        idx = idx[:p] + (slice(None),) * (ndim - used) + idx[p + 1:]
    return idx


def _is_boolnd(i):
    return (isinstance(i, SArr) and i.kd == 'b') or (isinstance(i, np.ndarray) and not isinstance(i, SArr) and i.dtype == bool)


def _pick(get, s, n):
    """value at symbolic index s (SNum) among n rows; `get(k)` gives row k"""
    v = C.numz(s.v)
    lo = 0
    if C.CTX.feasible(v < 0):
        lo = -n
        if C.CTX.branch(v < -n):
            raise IndexError('index out of bounds')
    if C.CTX.branch(v >= n):
        raise IndexError('index %s is out of bounds for axis with size %d' % (s, n))
    ks = list(range(lo, n))
    rows = {k: get(k) for k in ks}
    first = rows[ks[0]]
    if isinstance(first, (str, np.str_)) or (isinstance(first, np.ndarray) and not isinstance(first, SArr) and
                                              first.dtype.kind in 'UO'):
        return rows[int(s)]
    if not isinstance(first, (SNum, np.ndarray, int, float, np.generic)):
        return rows[int(s)]
    acc = rows[ks[-1]]
    for k in reversed(ks[:-1]):
        c = v == k
        acc = emap(lambda a, b, c=c: SNum(rite(c, a.v, b.v), C.join_kind(a, b)), rows[k], acc)
    return acc


def _pick_runs(a, s):
    """element at symbolic position s of a long concrete array that is an arithmetic progression or made of few runs of
    equal values; None when it is neither or the position may be out of bounds"""
    v, n = C.numz(s.v), len(a)
    if C.CTX.feasible(z3.Or(v < 0, v >= n)):
        return None
    kd = 'b' if a.dtype.kind == 'b' else 'f' if a.dtype.kind == 'f' else 'i'
    if kd == 'i':
        d = np.diff(a.astype(object))
        if (d == d[0]).all():
            return SNum(radd(rmul(s.v, int(d[0])), int(a[0])), 'i')
    cuts = [int(i) + 1 for i in np.nonzero(a[1:] != a[:-1])[0]]
    if len(cuts) > 16:
        return None
    val = [wrapel(a[i]) for i in [0] + cuts]
    acc = val[-1]
    for c, x in zip(reversed(cuts), reversed(val[:-1])):
        acc = SNum(rite(v < c, x.v, acc.v), kd)
    return acc


def sym_get(self, idx, base_get):
    idx = _expand_ellipsis(idx, self.ndim)
    idx = tuple(_plainize(i) for i in idx)
    # boolean masks with symbolic entries: fork
    idx = tuple(np.asarray(force_bool(i)) if isinstance(i, SArr) and i.kd == 'b' else i for i in idx)
    if not any(_is_symidx(i) for i in idx):
        return base_get(idx if len(idx) != 1 else idx[0])
    adv = [k for k, i in enumerate(idx) if _is_symidx(i) or isinstance(i, (np.ndarray, list))]
    arrs = [k for k in adv if not isinstance(idx[k], SNum)]
    if not arrs:
        # scalar symbolic positions: resolve the first one
        k = [k for k in adv if isinstance(idx[k], SNum)][0]
        ax = sum(1 for i in idx[:k] if i is not None)
        n = self.shape[ax]
        if len(idx) == 1 and self.ndim == 1 and n > 16 and isinstance(self, PArr) and self.dtype.kind in 'iufb':
            r = _pick_runs(self.view(np.ndarray), idx[0])
            if r is not None:
                return r
        return _pick(lambda r: sym_get(self, idx[:k] + (r,) + idx[k + 1:], base_get), idx[k], n)
    # array positions: broadcast all advanced components, one element at a time
    comps = [np.asarray(idx[k], dtype=object) if not isinstance(idx[k], (SArr, SNum)) else obj(idx[k]) for k in adv]
    bs = np.broadcast_arrays(*comps)
    sh = bs[0].shape
    pieces = []
    for p in np.ndindex(sh):
        ni = list(idx)
        for b, k in zip(bs, adv):
            e = b[p]
            ni[k] = e if isinstance(e, SNum) else int(e)
        pieces.append(sym_get(self, tuple(ni), base_get))
    pos = len([i for i in idx[:adv[0]]])
    if adv != list(range(adv[0], adv[0] + len(adv))):
        pos = 0
    if not pieces:
        raise Unsupported('empty symbolic index')
    if isinstance(pieces[0], (str, np.str_)):
        return np.array(pieces).reshape(sh).view(PArr)
    po = [obj(p) for p in pieces]
    st = np.empty((len(po),) + po[0].shape, dtype=object)
    for q, p in enumerate(po):
        st[q] = p[()] if p.ndim == 0 else p
    st = st.reshape(sh + po[0].shape)
    if pos:
        for j in range(len(sh)):
            st = np.moveaxis(st, j, pos + j) if len(sh) == 1 else st
        if len(sh) != 1:
            raise Unsupported('multi-dimensional symbolic index behind a slice')
    return wrap(st)


class SArr(np.ndarray):
    __array_priority__ = 900.0
    kd = 'f'
    wd = None       # range of a narrow integer type

    def __array_finalize__(self, o):
        if o is not None:
            self.kd = getattr(o, 'kd', 'f')
            self.wd = getattr(o, 'wd', None)

    @property
    def dtype(self):
        return np.dtype({'f': np.float64, 'i': np.int64, 'b': bool}[self.kd])

    def __reduce__(self):
        raise Unsupported('pickling a symbolic array')

    def __deepcopy__(self, memo):
        return self.copy()

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return ufunc_dispatch(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        name = func.__name__
        f = NP_FUNCS.get(name)
        if f is not None:
            return f(*args, **kwargs)
        f = SHAPE_FUNCS.get(name)
        if f is not None:
            return f(*args, **kwargs)
        raise Unsupported('numpy function ' + name)

    def _base_get(self, idx):
        r = np.ndarray.__getitem__(self.view(np.ndarray), idx)
        if isinstance(r, np.ndarray):
            r = r.view(SArr)
            r.kd = self.kd
            return r
        return r

    def __getitem__(self, idx):
        if _idx_has_sym(idx):
            return sym_get(self, idx, self._base_get)
        if isinstance(idx, tuple):
            idx = tuple(_plainize(i) for i in idx)
        else:
            idx = _plainize(idx)
        return self._base_get(idx)

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError('iteration over a 0-d array')
        for i in range(self.shape[0]):
            yield self[i]

    def _cast_val(self, v):
        o = obj(v)
        dt = {'f': float, 'i': int, 'b': bool}[self.kd]
        if self.wd is None and all(e.k == self.kd for e in o.flat):
            return o
        out = np.empty(o.shape, dtype=object)
        for i in np.ndindex(o.shape):
            out[i] = cast(o[i], dt)
            if self.wd is not None:
                out[i] = _wrap_around(out[i], self.wd)
        return out

    def __setitem__(self, idx, val):
        val = self._cast_val(val)
        base = self.view(np.ndarray)
        if not _idx_has_sym(idx):
            idx = tuple(_plainize(i) for i in idx) if isinstance(idx, tuple) else _plainize(idx)
            self._bset(base, idx, val)
            return
        idx = _expand_ellipsis(idx, self.ndim)
        idx = tuple(_plainize(i) for i in idx)
        if not any(_is_symidx(i) for i in idx):
            self._bset(base, idx if len(idx) != 1 else idx[0], val)
            return
        syms = [k for k, i in enumerate(idx) if _is_symidx(i)]
        i0 = idx[syms[0]]
        if isinstance(i0, SArr) and i0.kd == 'b' and val.size == 1 and len(syms) == 1 and \
                (len(idx) == 1 or (i0.ndim == 1 and all(isinstance(i, slice) or isinstance(i, int) for k, i in enumerate(idx) if k != syms[0]))):
            v = val.reshape(-1)[0]
            if len(idx) == 1:
                m = obj(i0)
                for p in np.ndindex(m.shape):
                    c = m[p].v
                    if c is False:
                        continue
                    if m.ndim == base.ndim:
                        e = base[p]
                        base[p] = v if c is True else SNum(rite(c, v.v, e.v), self.kd)
                    else:
                        sub = base[p]
                        for q in np.ndindex(sub.shape):
                            e = sub[q]
                            sub[q] = v if c is True else SNum(rite(c, v.v, e.v), self.kd)
            else:
                k = syms[0]
                m = obj(i0)
                for r in range(m.shape[0]):
                    c = m[r].v
                    if c is False:
                        continue
                    ni = idx[:k] + (r,) + idx[k + 1:]
                    sub = base[ni]
                    if isinstance(sub, np.ndarray):
                        new = np.empty(sub.shape, dtype=object)
                        for q in np.ndindex(sub.shape):
                            new[q] = v if c is True else SNum(rite(c, v.v, sub[q].v), self.kd)
                        base[ni] = new
                    else:
                        base[ni] = v if c is True else SNum(rite(c, v.v, sub.v), self.kd)
            return
        if isinstance(i0, SNum) and len(syms) == 1:
            k = syms[0]
            ax = sum(1 for i in idx[:k] if i is not None)
            n = self.shape[ax]
            v = C.numz(i0.v)
            oob = z3.Or(v >= n, v < -n)
            if C.CTX.branch(oob):
                raise IndexError('index out of bounds')
            neg = C.CTX.feasible(v < 0)
            for r in range(n):
                c = z3.Or(v == r, v == r - n) if neg else v == r
                ni = idx[:k] + (r,) + idx[k + 1:]
                sub = base[ni]
                if isinstance(sub, np.ndarray):
                    new = np.empty(sub.shape, dtype=object)
                    vb = np.broadcast_to(val, sub.shape)
                    for q in np.ndindex(sub.shape):
                        new[q] = SNum(rite(c, vb[q].v, sub[q].v), self.kd)
                    base[ni] = new
                else:
                    base[ni] = SNum(rite(c, val.reshape(-1)[0].v, sub.v), self.kd)
            return
        # general case: make the index concrete by forking
        ni = tuple((np.asarray(force_bool(i)) if isinstance(i, SArr) and i.kd == 'b' else
                    (np.asarray(force_int(i)) if isinstance(i, SArr) else (int(i) if isinstance(i, SNum) else i))) for i in idx)
        self._bset(base, ni if len(ni) != 1 else ni[0], val)

    @staticmethod
    def _bset(base, idx, val):
        if val.ndim == 0:
            sub = base[idx]
            if isinstance(sub, np.ndarray):
                t = np.empty(sub.shape, dtype=object)
                t.fill(val[()])
                base[idx] = t
            else:
                base[idx] = val[()]
        else:
            sub = base[idx]
            if not isinstance(sub, np.ndarray):
                if val.size != 1:
                    raise ValueError('setting an array element with a sequence.')
                base[idx] = val.reshape(-1)[0]
            else:
                base[idx] = val

    # methods
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k): return np_sum(self, axis, dtype, keepdims=keepdims)
    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k): return np_mean(self, axis, keepdims=keepdims)
    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k): return np_std(self, axis, ddof=ddof, keepdims=keepdims)
    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k): return np_var(self, axis, ddof=ddof, keepdims=keepdims)
    def max(self, axis=None, out=None, keepdims=False, **k): return reduce_('maximum', self, axis, keepdims)
    def min(self, axis=None, out=None, keepdims=False, **k): return reduce_('minimum', self, axis, keepdims)
    def ptp(self, axis=None, **k): return emap(UF['subtract'], self.max(axis), self.min(axis))
    def prod(self, axis=None, **k): return reduce_('multiply', self, axis)
    def any(self, axis=None, out=None, keepdims=False, **k): return reduce_('logical_or', self, axis, keepdims)
    def all(self, axis=None, out=None, keepdims=False, **k): return reduce_('logical_and', self, axis, keepdims)
    def argmax(self, axis=None, out=None, **k): return np_argmax(self, axis)
    def argmin(self, axis=None, out=None, **k): return np_argmin(self, axis)
    def argsort(self, axis=-1, **k): return np_argsort(self, axis)
    def cumsum(self, axis=None, **k): return accumulate('add', self, axis)
    def cumprod(self, axis=None, **k): return accumulate('multiply', self, axis)
    def dot(self, b, out=None): return dot(self, b)
    def __matmul__(self, b): return matmul(self, b) if getattr(b, '__array_ufunc__', 1) is not None else NotImplemented
    def __rmatmul__(self, b): return matmul(b, self)
    def clip(self, min=None, max=None, out=None, **k): return np_clip(self, min, max, out)
    def round(self, decimals=0, out=None): return np_round(self, decimals)
    def astype(self, dt, **k): return astype(self, dt) if dtkind(dt) in ('f', 'i', 'b') else (self.copy() if dtkind(dt) == 'O' else _unsup('astype'))
    def nonzero(self): return np_nonzero(self)
    def take(self, indices, axis=None, **k): return np_take(self, indices, axis)
    def trace(self, **k): return np_trace(self)
    def conj(self): return self
    def searchsorted(self, v, side='left', **k): return np_searchsorted(self, v, side)

    def sort(self, axis=-1, **k):
        self[...] = np_sort(self, axis)

    def fill(self, v):
        self[...] = v

    def item(self, *a):
        return self.reshape(-1)[a[0] if a else 0] if a or self.size == 1 else _unsup('item')

    def tolist(self):
        return [e.tolist() if isinstance(e, SArr) else (to_plain(e) if not isz(e.v) and e.k != 'f' else e) for e in self]

    def __bool__(self):
        if self.size == 1:
            return bool(self.view(np.ndarray).reshape(-1)[0])
        if self.size == 0:
            return False
        raise ValueError('The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()')

    def __float__(self):
        if self.size == 1:
            return float(self.view(np.ndarray).reshape(-1)[0])
        raise TypeError('only length-1 arrays can be converted to Python scalars')

    def __int__(self):
        if self.size == 1:
            return int(self.view(np.ndarray).reshape(-1)[0])
        raise TypeError('only length-1 arrays can be converted to Python scalars')

    def __index__(self):
        if self.ndim == 0:
            return self.view(np.ndarray)[()].__index__()
        raise TypeError('only integer scalar arrays can be converted to a scalar index')

    def __contains__(self, x):
        return bool(np_any(emap(UF['equal'], self, x)))

    def __repr__(self):
        return 'SArr' + repr([str(e) for e in self.view(np.ndarray).flat])
    __str__ = __repr__

    def __format__(self, s):
        return repr(self)


_PLAIN_UF = {'less', 'less_equal', 'greater', 'greater_equal', 'equal', 'not_equal', 'logical_and', 'logical_or',
             'logical_not', 'isnan', 'isfinite', 'isinf', 'invert', 'bitwise_and', 'bitwise_or', 'logical_xor',
             'bitwise_xor'}


class PArr(np.ndarray):
    """machine array (labels, indices, concrete data) living in the symbolic world"""
    __array_priority__ = 800.0

    def __array_finalize__(self, o):
        pass

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        if anysym(*inputs):
            return ufunc_dispatch(ufunc, method, inputs, kw)
        ins = [np.asarray(x) if isinstance(x, PArr) else x for x in inputs]
        out = kw.get('out')
        if out:
            if any(isinstance(o, SArr) for o in out):
                return ufunc_dispatch(ufunc, method, inputs, kw)
            kw = dict(kw, out=tuple(np.asarray(o) for o in out))
        allint = all((isinstance(x, np.ndarray) and x.dtype.kind in 'iubUSO') or isinstance(x, (int, np.integer, bool, np.bool_, str)) for x in ins)
        if ufunc.__name__ in _PLAIN_UF or (allint and ufunc.__name__ in
                                           ('add', 'subtract', 'multiply', 'floor_divide', 'remainder', 'negative', 'absolute', 'maximum', 'minimum', 'matmul')):
            r = getattr(ufunc, method)(*ins, **kw)
            if out:
                return out[0]
            if isinstance(r, np.ndarray):
                return r.view(PArr)
            return r
        if any(isinstance(x, np.ndarray) and x.dtype.kind in 'USO' for x in ins):
            r = getattr(ufunc, method)(*ins, **kw)
            return r.view(PArr) if isinstance(r, np.ndarray) else r
        kw.pop('out', None)
        r = ufunc_dispatch(ufunc, method, inputs, dict(kw))
        if out:
            out[0][...] = to_plain(r)
            return out[0]
        return r

    def _base_get(self, idx):
        r = np.ndarray.__getitem__(self.view(np.ndarray), idx)
        return r.view(PArr) if isinstance(r, np.ndarray) else r

    def __getitem__(self, idx):
        if _idx_has_sym(idx):
            return sym_get(self, idx, self._base_get)
        return self._base_get(idx)

    def __setitem__(self, idx, val):
        if _idx_has_sym(idx):
            idx = _expand_ellipsis(idx, self.ndim)
            idx = tuple(_plainize(i) for i in idx)
            idx = tuple((np.asarray(force_bool(i)) if isinstance(i, SArr) and i.kd == 'b' else
                         (np.asarray(force_int(i)) if isinstance(i, SArr) else (int(i) if isinstance(i, SNum) else i))) for i in idx)
            idx = idx if len(idx) != 1 else idx[0]
        if anysym(val):
            if self.dtype.kind in 'iu':
                val = np.asarray(force_int(astype(val, int)))
                val = val[()] if val.ndim == 0 else val
            elif self.dtype.kind == 'b':
                val = np.asarray(force_bool(val))
                val = val[()] if val.ndim == 0 else val
            elif not hassym(val):
                val = to_plain(val)
            else:
                raise Unsupported('symbolic value stored in a machine array')
        np.ndarray.__setitem__(self, idx, val)

    def take(self, indices, axis=None, **k):
        if anysym(indices):
            return np_take(self, indices, axis)
        return np.asarray(self).take(indices, axis=axis, **k).view(PArr)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k): return np_mean(self, axis, keepdims=keepdims)
    def std(self, axis=None, ddof=0, keepdims=False, **k): return np_std(self, axis, ddof=ddof, keepdims=keepdims)
    def var(self, axis=None, ddof=0, keepdims=False, **k): return np_var(self, axis, ddof=ddof, keepdims=keepdims)

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return _unp(np.asarray(self).sum(axis=axis, dtype=dtype, keepdims=keepdims))

    def max(self, axis=None, out=None, keepdims=False, **k): return _unp(np.asarray(self).max(axis=axis, keepdims=keepdims))
    def min(self, axis=None, out=None, keepdims=False, **k): return _unp(np.asarray(self).min(axis=axis, keepdims=keepdims))
    def cumsum(self, axis=None, dtype=None, out=None): return _unp(np.asarray(self).cumsum(axis=axis))

    def dot(self, b, out=None):
        if anysym(b):
            return dot(self, b)
        return _unp(np.asarray(self).dot(np.asarray(b)))

    def __matmul__(self, b): return self.dot(b) if getattr(b, '__array_ufunc__', 1) is not None else NotImplemented

    def astype(self, dt, **k):
        if dtkind(dt) == 'f':
            return sarr(np.asarray(self), 'f')
        return np.asarray(self).astype(dt, **k).view(PArr)

    def __deepcopy__(self, memo):
        return np.array(np.asarray(self), copy=True).view(PArr)

    def __array_function__(self, func, types, args, kwargs):
        name = func.__name__
        f = NP_FUNCS.get(name) or SHAPE_FUNCS.get(name)
        if f is not None and (any(issubclass(t, SArr) for t in types) or anysym(*args) or anysym(*kwargs.values())):
            return f(*args, **kwargs)
        r = func(*[_strip(a) for a in args], **{k: _strip(a) for k, a in kwargs.items()})
        return tuple(_unp(x) for x in r) if isinstance(r, tuple) else \
            [_unp(x) for x in r] if isinstance(r, list) else _unp(r)


def _strip(x):
    if isinstance(x, PArr):
        return np.asarray(x)
    if isinstance(x, (list, tuple)):
        return type(x)(_strip(v) for v in x) if type(x) in (list, tuple) else x
    return x


def _unp(r):
    return conv(r) if isinstance(r, (np.ndarray, np.floating)) else r


class OArr(np.ndarray):
    """object array holding arbitrary python objects (e.g. lists of quantifiers)"""
    def __array_finalize__(self, o):
        pass

    def __getitem__(self, idx):
        if _idx_has_sym(idx):
            idx = tuple(_plainize(i) for i in idx) if isinstance(idx, tuple) else _plainize(idx)
            if isinstance(idx, SNum):
                idx = int(idx)
        return np.ndarray.__getitem__(self.view(np.ndarray), idx)


# --------------------------------------------------------------------------- less common functions
def np_vectorize(pyfunc=None, otypes=None, excluded=None, **k):
    if excluded:
        raise Unsupported('numpy.vectorize with excluded arguments')

    def g(*a):
        xs = np.broadcast_arrays(*[obj(x) for x in a])
        if xs[0].size == 0:
            raise ValueError('cannot call `vectorize` on size 0 inputs unless `otypes` is set')
        out = np.empty(xs[0].shape, dtype=object)
        for i in np.ndindex(out.shape):
            out[i] = wrapel(pyfunc(*[x[i] for x in xs]))
        return wrap(out)
    return g


def np_tensordot(a, b, axes=2):
    a, b = _lift(a), _lift(b)
    n = int(axes) if isinstance(axes, (int, np.integer, SNum)) else None
    if n == 0:
        return np_outer(a, b).reshape(tuple(a.shape) + tuple(b.shape))
    if n is None or n != 1:
        raise Unsupported('tensordot axes')
    return dot(a, b) if b.ndim <= 2 else _unsup('tensordot of many dimensions')


def np_ediff1d(ary, to_end=None, to_begin=None):
    parts = ([] if to_begin is None else [np_ravel(_lift(to_begin))]) + [np_diff(np_ravel(ary))] + ([] if to_end is None else [np_ravel(_lift(to_end))])
    return np_concatenate(parts) if len(parts) > 1 else parts[0]


def np_pad(array, pad_width, mode='constant', constant_values=0, **k):
    a = _lift(array)
    if mode not in ('constant', 'edge') or k or np.ndim(constant_values):
        raise Unsupported('pad options')
    w = np.broadcast_to(np.asarray(pad_width), (a.ndim, 2))
    for ax in range(a.ndim):
        parts = []
        for side, n in ((0, int(w[ax][0])), (1, int(w[ax][1]))):
            sh = list(a.shape)
            sh[ax] = n
            if mode == 'edge':
                q = [slice(None)] * a.ndim
                q[ax] = slice(0, 1) if side == 0 else slice(a.shape[ax] - 1, a.shape[ax])
                parts.append(np_repeat(a[tuple(q)], n, axis=ax))
            else:
                parts.append(np_full(tuple(sh), constant_values, dtype='i8' if getattr(a, 'kd', None) == 'i' else float))
        a = np_concatenate([parts[0], a, parts[1]], axis=ax)
    return a


def np_meshgrid(*xi, **k):
    if k.pop('indexing', 'xy') != 'xy' or k or len(xi) != 2:
        raise Unsupported('meshgrid options')
    x, y = [_lift(np_ravel(_lift(v))) for v in xi]
    return [np_repeat(x.reshape(1, -1), len(y), axis=0), np_repeat(y.reshape(-1, 1), len(x), axis=1)]


def np_compress(condition, a, axis=None, out=None):
    a = np_ravel(a) if axis is None else _lift(a)
    c = np.asarray(force_bool(condition) if anysym(condition) else condition)
    return np_take(a, np.nonzero(c)[0], axis=0 if axis is None else axis)


def np_extract(condition, arr):
    return np_compress(np_ravel(condition), np_ravel(arr))


def np_choose(a, choices, out=None, mode='raise'):
    r = choices[-1]
    for i in reversed(range(len(choices) - 1)):
        r = np_where(emap(UF['equal'], a, i), choices[i], r)
    return r


def np_put_along_axis(arr, indices, values, axis):
    idx = np.asarray(force_int(indices) if anysym(indices) else indices)
    if axis is None:
        raise Unsupported('put_along_axis without axis')
    axis = int(axis) % idx.ndim
    vals = np.broadcast_to(obj(values), idx.shape)
    for p in np.ndindex(idx.shape):
        q = list(p)
        q[axis] = int(idx[p])
        arr[tuple(q)] = vals[p]


def np_setop(keep):
    def f(ar1, ar2, assume_unique=False, **k):
        u = np_ravel(_lift(ar1)) if assume_unique and keep is False else np_unique(np_ravel(_lift(ar1)))
        m = np_isin(u, np_ravel(_lift(ar2)))
        return u[m if keep else ~m]
    return f


def np_union1d(ar1, ar2):
    return np_unique(np_concatenate([np_ravel(_lift(ar1)), np_ravel(_lift(ar2))]))


def np_convolve(a, v, mode='full'):
    x, y = list(obj(a).reshape(-1)), list(obj(v).reshape(-1))
    n, m = len(x), len(y)
    full_ = [fold('add', [UF['multiply'](x[i], y[k - i]) for i in range(n) if 0 <= k - i < m]) for k in range(n + m - 1)]
    if mode == 'same':
        big, small = max(n, m), min(n, m)
        full_ = full_[(small - 1) // 2:][:big]
    elif mode == 'valid':
        full_ = full_[min(n, m) - 1:max(n, m)]
    elif mode != 'full':
        raise Unsupported('convolve mode')
    return sarr(full_)


def _nonan(f):
    def g(a, *args, **k):
        for e in obj(a).flat:
            if isspecial(e.v) and math.isnan(e.v):
                raise Unsupported('missing values')
        return f(a, *args, **k)
    return g


def np_unravel_index(indices, shape, order='C'):
    r = np.unravel_index(np.asarray(force_int(indices)) if anysym(indices) else indices, shape, order=order)
    return tuple(x.view(PArr) if isinstance(x, np.ndarray) else x for x in r)


def np_ravel_multi_index(multi_index, dims, **k):
    r = np.ravel_multi_index(tuple(np.asarray(force_int(x)) if anysym(x) else x for x in multi_index), dims, **k)
    return r.view(PArr) if isinstance(r, np.ndarray) else r


def np_array_equiv(a, b):
    a, b = _lift(a), _lift(b)
    try:
        np.broadcast_shapes(a.shape, b.shape)
    except ValueError:
        return False
    return np_all(emap(UF['equal'], a, b))


def np_finfo(t=float):
    return np.finfo(np.float64 if getattr(t, '__module__', '').startswith('symq') or t == object else t)


class _Concat:
    """np.r_ and np.c_"""

    def __init__(self, columns):
        self.columns = columns

    def __getitem__(self, key):
        key = key if isinstance(key, tuple) else (key,)
        real = np.c_ if self.columns else np.r_
        if any(isinstance(x, str) for x in key):
            raise Unsupported('np.r_ directives')
        if not any(anysym(x) or _deep_sym(x) for x in key):
            return conv(real[tuple(np.asarray(x) if isinstance(x, PArr) else x for x in key)])
        parts = [conv(real[x]) if isinstance(x, slice) else (np_atleast_1d(sarr(obj(x)).reshape(()) if isinstance(x, SNum) else _lift(x))) for x in key]
        if not self.columns:
            return np_concatenate(parts, axis=parts[0].ndim - 1 if any(p.ndim > 1 for p in parts) else 0) if parts[0].ndim == 1 else np_concatenate(parts, axis=0)
        return np_concatenate([p.reshape(-1, 1) if p.ndim == 1 else p for p in parts], axis=1)


def matrix_rank(A_, tol=None, hermitian=False, **k):
    """exact rank by elimination"""
    o = obj(A_).copy()
    if o.ndim != 2 or tol is not None:
        raise Unsupported('matrix_rank options')
    r = 0
    for j in range(o.shape[1]):
        p = next((i for i in range(r, o.shape[0]) if _is(rcmp('ne', o[i, j].v, 0))), None)
        if p is None:
            continue
        o[[r, p]] = o[[p, r]]
        for i in range(r + 1, o.shape[0]):
            t = rdiv(o[i, j].v, o[r, j].v)
            for c in range(j, o.shape[1]):
                o[i, c] = SNum(rsub(o[i, c].v, rmul(t, o[r, c].v)), 'f')
        r += 1
        if r == o.shape[0]:
            break
    return r


# --------------------------------------------------------------------------- numpy facade tables
def _uf(name):
    real = getattr(np, name)

    class _U:
        __name__ = name

        def __call__(self, *a, **k):
            if any(anysym(x) or isinstance(x, PArr) for x in a):
                return ufunc_dispatch(real, '__call__', a, dict(k))
            if any(isinstance(x, (list, tuple)) and _deep_sym(x) for x in a):
                return ufunc_dispatch(real, '__call__', a, dict(k))
            if any(isinstance(x, float) for x in a) or any(isinstance(x, np.ndarray) for x in a):
                return ufunc_dispatch(real, '__call__', a, dict(k)) if not any(_is_str(x) for x in a) else real(*a, **k)
            if all(isinstance(x, (int, bool, Fraction)) for x in a) and name in UF:
                return ufunc_dispatch(real, '__call__', a, dict(k))
            return real(*a, **k)

        def reduce(self, a, axis=0, dtype=None, out=None, keepdims=False, initial=None, where=True):
            if anysym(a):
                return reduce_(name, a, axis, keepdims, initial)
            return conv(real.reduce(a, axis=axis, keepdims=keepdims))

        def accumulate(self, a, axis=0, **k):
            return accumulate(name, a, axis)

        def outer(self, a, b, **k):
            return ufunc_dispatch(real, 'outer', (a, b), k)

        def at(self, a, idx, b):
            return ufunc_dispatch(real, 'at', (a, idx, b), {})
    return _U()


def _red(name):
    def f(a, axis=None, out=None, keepdims=False, initial=None, where=True, **k):
        if keepdims is np._NoValue:
            keepdims = False
        _where_given(where)
        initial = None if initial is np._NoValue else initial
        if not anysym(a) and not _deep_sym(a) and not anysym(initial):
            arr_ = np.asarray(a)
            if arr_.dtype.kind in 'iub':
                return getattr(np, {'maximum': 'max', 'minimum': 'min', 'multiply': 'prod'}[name])(arr_, axis=axis, keepdims=keepdims, **({} if initial is None else dict(initial=initial)))
        return reduce_(name, a, axis, keepdims, initial)
    return f


def _shapefn(name):
    real = getattr(np, name)

    def f(a, *args, **kw):
        args = [int(x) if isinstance(x, SNum) else x for x in args]
        if isinstance(a, SNum):
            a = sarr(obj(a)).reshape(())
        if isinstance(a, SArr):
            r = real(a.view(np.ndarray), *args, **kw)
            if isinstance(r, np.ndarray):
                r = r.view(SArr)
                r.kd = a.kd
                return r
            if isinstance(r, list):
                out = []
                for x in r:
                    x = x.view(SArr)
                    x.kd = a.kd
                    out.append(x)
                return out
            return r
        if isinstance(a, PArr):
            r = real(np.asarray(a), *args, **kw)
            return r.view(PArr) if isinstance(r, np.ndarray) else ([x.view(PArr) for x in r] if isinstance(r, list) else r)
        if isinstance(a, (list, tuple)) and _deep_sym(a):
            return f(sarr(a), *args, **kw)
        r = real(a, *args, **kw)
        return conv(r) if isinstance(r, np.ndarray) else r
    return f


SHAPE_FUNCS = {n: _shapefn(n) for n in
               ['squeeze', 'reshape', 'transpose', 'expand_dims', 'swapaxes', 'moveaxis', 'flip', 'fliplr', 'flipud',
                'roll', 'broadcast_to', 'diagonal', 'rot90', 'split', 'array_split', 'hsplit', 'vsplit', 'triu', 'tril',
                'copy', 'resize', 'rollaxis', 'ascontiguousarray']}


def _np_shape(a):
    if isinstance(a, (np.ndarray, SNum)) or hasattr(a, 'shape'):
        return tuple(a.shape)
    return obj(a).shape if _deep_sym(a) else np.shape(a)


def _np_size(a, axis=None):
    sh = _np_shape(a)
    return int(np.prod(sh)) if axis is None else sh[int(axis)]


NP_FUNCS = {
    'array': np_array, 'asarray': np_asarray, 'asanyarray': np_asarray, 'zeros': np_zeros, 'ones': np_ones,
    'empty': np_empty, 'full': np_full, 'zeros_like': _like(0), 'ones_like': _like(1), 'empty_like': _like(0),
    'full_like': np_full_like, 'eye': np_eye, 'identity': lambda n, dtype=float: np_eye(n, dtype=dtype or float),
    'arange': np_arange, 'linspace': np_linspace, 'sum': np_sum, 'nansum': np_sum, 'mean': np_mean, 'nanmean': np_mean,
    'std': np_std, 'var': np_var, 'average': np_average, 'median': np_median, 'quantile': np_quantile,
    'percentile': np_percentile, 'max': _red('maximum'), 'amax': _red('maximum'), 'min': _red('minimum'),
    'amin': _red('minimum'), 'prod': _red('multiply'), 'product': _red('multiply'), 'any': np_any, 'all': np_all,
    'ptp': lambda a, axis=None, **k: emap(UF['subtract'], reduce_('maximum', a, axis), reduce_('minimum', a, axis)),
    'cumsum': np_cumsum, 'cumprod': np_cumprod, 'sort': np_sort, 'argsort': np_argsort, 'argmax': np_argmax,
    'argmin': np_argmin, 'nanargmax': np_argmax, 'nanargmin': np_argmin, 'histogram': np_histogram,
    'histogram_bin_edges': np_histogram_bin_edges, 'digitize': np_digitize, 'searchsorted': np_searchsorted,
    'bincount': np_bincount, 'unique': np_unique, 'concatenate': np_concatenate, 'vstack': np_vstack,
    'row_stack': np_vstack, 'hstack': np_hstack, 'column_stack': np_column_stack, 'stack': np_stack,
    'atleast_1d': np_atleast_1d, 'atleast_2d': np_atleast_2d, 'append': np_append, 'ravel': np_ravel,
    'where': np_where, 'select': np_select, 'nonzero': np_nonzero, 'flatnonzero': np_flatnonzero,
    'argwhere': np_argwhere, 'count_nonzero': np_count_nonzero, 'clip': np_clip, 'diff': np_diff, 'round': np_round,
    'around': np_round, 'round_': np_round, 'allclose': np_allclose, 'isclose': np_isclose,
    'array_equal': np_array_equal, 'isscalar': np_isscalar, 'dot': np_dot, 'vdot': np_dot, 'inner': np_dot,
    'outer': np_outer, 'diag': np_diag, 'trace': np_trace, 'apply_along_axis': np_apply_along_axis,
    'einsum': np_einsum, 'take': np_take, 'take_along_axis': np_take_along_axis, 'delete': np_delete,
    'insert': np_insert, 'interp': np_interp, 'in1d': np_isin, 'isin': np_isin, 'lexsort': np_lexsort,
    'nan_to_num': np_nan_to_num, 'tile': np_tile, 'repeat': np_repeat, 'shape': _np_shape, 'ndim': lambda a: len(_np_shape(a)),
    'size': _np_size, 'real': lambda x: x, 'matmul': matmul,
    'norm': np_norm, 'inv': inv, 'solve': solve, 'det': lambda a: SNum(det(obj(a))),
    'iscomplexobj': lambda x: False, 'result_type': lambda *a: np.dtype(float), 'may_share_memory': np.may_share_memory,
    'shares_memory': np.shares_memory,
    'vectorize': np_vectorize, 'frompyfunc': lambda f, nin, nout: np_vectorize(f) if nout == 1 else _unsup('frompyfunc'), 'tensordot': np_tensordot,
    'partition': lambda a, kth, axis=-1, **k: np_sort(a, axis), 'argpartition': lambda a, kth, axis=-1, **k: np_argsort(a, axis),
    'ediff1d': np_ediff1d, 'pad': np_pad, 'meshgrid': np_meshgrid, 'compress': np_compress, 'extract': np_extract, 'choose': np_choose,
    'put_along_axis': np_put_along_axis, 'union1d': np_union1d, 'intersect1d': np_setop(True), 'setdiff1d': np_setop(False), 'convolve': np_convolve,
    'nanmax': _nonan(_red('maximum')), 'nanmin': _nonan(_red('minimum')), 'nanmedian': _nonan(np_median), 'nanstd': _nonan(np_std), 'nanvar': _nonan(np_var),
    'nanquantile': _nonan(np_quantile), 'nanpercentile': _nonan(np_percentile), 'nancumsum': _nonan(np_cumsum), 'nanprod': _nonan(_red('multiply')),
    'unravel_index': np_unravel_index, 'ravel_multi_index': np_ravel_multi_index, 'array_equiv': np_array_equiv, 'finfo': np_finfo,
    'require': lambda a, dtype=None, requirements=None: np_asarray(a, dtype),
    'dstack': lambda tup: np_stack([np_atleast_2d(x) for x in tup], axis=2),
}
UF_NAMES = [n for n in UF if hasattr(np, n) and n not in ('spacing',)]


class _Linalg:
    LinAlgError = np.linalg.LinAlgError
    norm = staticmethod(np_norm)
    inv = staticmethod(inv)
    solve = staticmethod(solve)

    @staticmethod
    def det(a):
        return SNum(det(obj(a)))

    @staticmethod
    def matrix_rank(A_, tol=None, **k):
        if not anysym(A_) or not hassym(A_):
            return np.linalg.matrix_rank(np.asarray(to_plain(A_)) if isinstance(A_, SArr) else np.asarray(A_), tol, **k)
        return matrix_rank(A_, tol, **k)

    def __getattr__(self, n):
        def f(*a, **k):
            if anysym(*a) and any(hassym(x) for x in a):
                o = obj(a[0])
                if o.shape == (1, 1) and not k and n in ('svd', 'eigvals', 'eigvalsh'):
                    if n != 'svd':
                        return wrap(o.reshape(1).copy(), 'f')
                    one = np.ones((1, 1)).view(PArr)
                    s = np.empty(1, dtype=object)
                    s[0] = abs(o[0, 0])
                    return one, wrap(s, 'f'), one.copy()
                raise Unsupported('numpy.linalg.' + n)
            a = [np.asarray(to_plain(x)) if isinstance(x, SArr) else x for x in a]
            r = getattr(np.linalg, n)(*a, **k)
            return tuple(conv(x) for x in r) if isinstance(r, tuple) else conv(r)
        return f


class NumpyFacade:
    """stands in for the `numpy` module inside the executed sources"""
    __name__ = 'numpy'

    def __init__(self, random):
        self.random = random
        self.linalg = _Linalg()
        self._c = {}
        for n, f in list(NP_FUNCS.items()) + list(SHAPE_FUNCS.items()):
            if hasattr(np, n):
                setattr(self, n, f)
        for n in UF_NAMES:
            setattr(self, n, _uf(n))
        self.abs = _uf('absolute')
        self.mod = _uf('remainder')
        self.spacing = lambda x: SNum(Fraction(1, 2 ** 60))
        self.ndarray = np.ndarray
        self.inf = np.inf
        self.nan = np.nan
        self.newaxis = None
        self.pi = math.pi
        self.testing = np.testing
        self.r_, self.c_ = _Concat(False), _Concat(True)

    def __getattr__(self, n):
        if n in ('float', 'int', 'bool', 'object', 'str'):
            return getattr(np, n)          # raises exactly as the installed numpy does
        real = getattr(np, n)
        if isinstance(real, type) or not callable(real):
            return real

        def f(*a, **k):
            flat = list(a) + list(k.values())
            if any(anysym(x) for x in flat):
                if any(hassym(x) for x in flat):
                    raise Unsupported('numpy.' + n)
                a = [to_plain(x) for x in a]
                k = {q: to_plain(x) for q, x in k.items()}
            a = [np.asarray(x) if isinstance(x, PArr) else x for x in a]
            r = real(*a, **k)
            return tuple(conv(x) for x in r) if isinstance(r, tuple) else conv(r)
        return f
