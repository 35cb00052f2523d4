"""Refitting, repeated predictions and several objects: no state leaks."""
from symq.harness import harness
from props.families import *
from props import P07

BOUNDS = 'every quantifier family of props/families.py, 2 and 3 classes with 2-3 training and 1-2 test examples (14 families also with 4 classes): a second fit on every (symbolic) data set of the same or of another shape, with the same or other labels, after a fit on other labels, predictions, number of examples or of classes and a prediction, and on the very same arrays with other labels; predictions of every test set before and after another one (of another size, of the same size, with the same first example, with the same column sums, in the same array) and repeated; two quantifiers used in turns, on data of different and of the same shapes; fits and predictions with estimators and with given predictions in turns; decompositions and ensembles made of one shared base quantifier'
OUTSIDE = 'bag generators handed in by the user (they keep their bags by design) and an EnsembleOfClassifiers handed in unfitted (a second fit keeps the models by design); the first data set and the interleaved test set are fixed concrete ones; more than two fits'

# labels of the first training set: other classes or another number of examples than in the second
OTHER = {2: (3, 8, 8, 3), 3: (4, 6, 4, 9), 4: (3, 1, 8, 5, 1)}
FIRST = [[.6, .4], [.15, .85], [.25, .75], [.9, .1]]
FIRST4 = [[.2, .4, .3, .1], [.6, .2, .1, .1], [.15, .1, .15, .6], [.1, .1, .55, .25], [.4, .3, .1, .2]]
HEAVY = [('REGy', 3)]
CASES = each()
LIGHT = [c for c in CASES if (c['fam'], c['n']) not in HEAVY]
HEAVIER = [c for c in CASES if (c['fam'], c['n']) in HEAVY]


def first(e, f, n, y):
    """a concrete training set unlike the others"""
    m, L = len(y), sorted(set(y))
    D = dict(y=e.data(y), labels=L)
    if f.using:
        D['X'] = index_X(e, m)
        if f.crisp:
            D['P'] = e.data([L[(i * i + 1) % n] for i in range(m)])
        else:
            w = f.cols(n)
            D['P'] = e.arr([[r[j % 2] / 2 + (0.5 if j == 0 else 0) if w > 2 and j < 2 else r[j % 2] if w <= 2 else 0 for j in range(w)] for r in FIRST[:m]])
            if w > 2:
                D['P'] = e.arr([[.2, .3, .5], [.6, .3, .1], [.25, .7, .05], [.1, .15, .75]][:m])
            if w == 4:
                D['P'] = e.arr(FIRST4[:m])
    else:
        D['X'] = e.data([[0.4, 1.0], [3.0, 3.5], [2.0, 2.5], [1.0, 0.5], [1.5, 3.0]])[:m, :f.feats]
    return D


def other_test(e, f, n, labels, t):
    """a concrete test set unlike the others, one more row"""
    if f.using:
        P = e.data([labels[(2 * i + 1) % n] for i in range(t + 1)]) if f.crisp else e.arr([list(r) for r in f.table({1: [[.1], [.65], [.95]], 2: [[.05, .95], [.55, .45], [.7, .3]], 3: [[.8, .1, .1], [.15, .55, .3], [.4, .35, .25]], 4: [[.5, .2, .2, .1], [.05, .25, .3, .4], [.25, .45, .1, .2]]}, n, t + 1)])
        return dict(P=P, X=index_X(e, t + 1))
    return dict(X=e.data([[0.15, 4.0], [0.7, 1.2], [0.45, 2.2], [.95, 3.3]][:t + 1])[:, :f.feats])


def alone(e, f, D, T):
    """what one quantifier in a program of its own answers"""
    with e.fresh():
        q = f.new(e)
        f.fit(e, q, D)
        return f.predict(e, q, T)


@harness('P32', LIGHT, more=HEAVIER, limit=60)
def refit(e, fam, n):
    """fit, predict, fit again on other data (other labels and sizes): like a new quantifier"""
    f = BY[fam]
    if fam.startswith('EoQ'):
        m = len(f.labels(n))
        D1 = first(e, f, n, f.labels(n)[::-1])
    else:
        D1 = first(e, f, n, OTHER[n])
    T1 = other_test(e, f, n, D1['labels'], f.t)
    q = f.new(e)
    f.fit(e, q, D1)
    f.predict(e, q, T1)
    D = f.train(e, 'p', n)
    T = f.test(e, 't', n, labels=D['labels'])
    f.fit(e, q, D)
    a, ka = f.predict(e, q, T)
    b, kb = alone(e, f, D, T)
    e.same_result('after a second fit', a, ka, b, kb, n)
    e.eq('classes after a second fit', q.classes_, e.data(D['labels']))


@harness('P32', LIGHT, more=HEAVIER, limit=60)
def refit_same_shape(e, fam, n):
    """the first fit has the same classes and number of examples, with other labels and predictions"""
    f = BY[fam]
    y = f.labels(n)
    y1 = y[1:] + y[:1] if f.using else y[-1:] + y[:-1]
    D1 = first(e, f, n, y1)
    T1 = f.test(e, 'u', n, labels=D1['labels'], symbolic=False)
    q = f.new(e)
    f.fit(e, q, D1)
    f.predict(e, q, T1)
    D = f.train(e, 'p', n)
    T = f.test(e, 't', n, labels=D['labels'])
    f.fit(e, q, D)
    a, ka = f.predict(e, q, T)
    b, kb = alone(e, f, D, T)
    e.same_result('after a second fit', a, ka, b, kb, n)


MORE_CLASSES = [dict(fam=f.name, n=n) for f in ALL for n in (2, 3) if {2, 3} <= set(f.ns) and (f.name, n) not in HEAVY]


@harness('P32', MORE_CLASSES, limit=60)
def refit_classes(e, fam, n):
    """the first fit has another number of classes"""
    f = BY[fam]
    k = 5 - n
    D1 = first(e, f, k, OTHER[k])
    T1 = other_test(e, f, k, D1['labels'], f.t)
    q = f.new(e)
    f.fit(e, q, D1)
    f.predict(e, q, T1)
    D = f.train(e, 'p', n)
    T = f.test(e, 't', n, labels=D['labels'])
    f.fit(e, q, D)
    a, ka = f.predict(e, q, T)
    b, kb = alone(e, f, D, T)
    e.same_result('after a second fit', a, ka, b, kb, n)
    e.eq('classes after a second fit', q.classes_, e.data(D['labels']))


@harness('P32', LIGHT, more=HEAVIER, limit=60)
def repredict(e, fam, n):
    """predictions in any order and repeated: like the first one of a new quantifier"""
    f = BY[fam]
    D = f.train(e, 'p', n, symbolic=False)
    T = f.test(e, 't', n, labels=D['labels'])
    T1 = other_test(e, f, n, D['labels'], f.t)
    q = f.new(e)
    f.fit(e, q, D)
    c, kc = f.predict(e, q, T1)
    a, ka = f.predict(e, q, T)
    d, kd = f.predict(e, q, T1)
    a2, ka2 = f.predict(e, q, T)
    b, kb = alone(e, f, D, T)
    e.same_result('after another prediction', a, ka, b, kb, n)
    e.same_result('predicted again', a2, ka2, b, kb, n)
    e.same_result('first test set predicted again', c, kc, d, kd, n)


@harness('P32', LIGHT, more=HEAVIER, limit=60)
def two_objects(e, fam, n):
    """two quantifiers used in turns"""
    f = BY[fam]
    D1 = first(e, f, n, OTHER[n] if not fam.startswith('EoQ') else f.labels(n)[::-1])
    T1 = other_test(e, f, n, D1['labels'], f.t)
    D = f.train(e, 'p', n, symbolic=False)
    T = f.test(e, 't', n, labels=D['labels'])
    q1, q2 = f.new(e), f.new(e)
    f.fit(e, q1, D)
    f.fit(e, q2, D1)
    c, kc = f.predict(e, q2, T1)
    a, ka = f.predict(e, q1, T)
    d, kd = f.predict(e, q2, T1)
    b, kb = alone(e, f, D, T)
    e.same_result('while another quantifier is used', a, ka, b, kb, n)
    e.same_result('the other quantifier', c, kc, d, kd, n)


def rotated(f, n):
    y = f.labels(n)
    return y[1:] + y[:1] if f.using else y[-1:] + y[:-1]


@harness('P32', [c for c in LIGHT if c['fam'] != 'DFy-fn'], more=HEAVIER, limit=60)
def refit_same_labels(e, fam, n):
    """the first fit has the same labels with other predictions or examples"""
    f = BY[fam]
    D1 = first(e, f, n, f.labels(n))
    q = f.new(e)
    f.fit(e, q, D1)
    f.predict(e, q, f.test(e, 'u', n, labels=D1['labels'], symbolic=False))
    D = f.train(e, 'p', n)
    T = f.test(e, 't', n, labels=D['labels'])
    f.fit(e, q, D)
    a, ka = f.predict(e, q, T)
    b, kb = alone(e, f, D, T)
    e.same_result('after a fit on the same labels', a, ka, b, kb, n)


@harness('P32', LIGHT, more=HEAVIER, limit=60)
def refit_same_inputs(e, fam, n):
    """the first fit has the same examples and predictions (the very same arrays) with other labels"""
    f = BY[fam]
    D = f.train(e, 'p', n, symbolic=False)
    T = f.test(e, 't', n, labels=D['labels'])
    q = f.new(e)
    f.fit(e, q, dict(D, y=e.data(rotated(f, n))))
    f.predict(e, q, T)
    f.fit(e, q, D)
    a, ka = f.predict(e, q, T)
    b, kb = alone(e, f, D, T)
    e.same_result('after a fit on other labels', a, ka, b, kb, n)


def swapped(e, f, n, labels, T, how):
    """a test set of the size of T: with the same first example, the same column sums, or unlike it"""
    key = 'P' if f.using else 'X'
    A = T[key]
    t = len(A)
    if how == 'other' or t == 1:
        O = other_test(e, f, n, labels, t)
        return dict(X=index_X(e, t), P=O['P'][:t]) if f.using else dict(X=O['X'][:t])
    if f.using and f.crisp:
        rows = [e.at(A, 0)] + [labels[0]] * (t - 1)
    elif how == 'first':
        O = other_test(e, f, n, labels, t)[key]
        rows = [[e.at(A if i == 0 else O, i, j) for j in range(A.shape[1])] for i in range(t)]
    else:
        rows = [[e.sum([e.at(A, i, j) for i in range(t)]) / t for j in range(A.shape[1])]] * t
    return dict(T, **{key: e.data(rows) if f.using and f.crisp else e.arr(rows)})


@harness('P32', [dict(c, how=h) for c in LIGHT for h in ('other', 'first', 'sums') if h == 'other' or BY[c['fam']].symbolic_test and not (h == 'sums' and (BY[c['fam']].crisp or (c['fam'], c['n']) == ('CvMy', 3)) or h == 'first' and (c['fam'], c['n']) == ('EM', 4))],
         more=[dict(c, how='other') for c in HEAVIER], limit=60)
def repredict_same(e, fam, n, how):
    """predictions of two test sets of one size, then of the second one in the array of the first"""
    f = BY[fam]
    D = f.train(e, 'p', n, symbolic=False)
    T = f.test(e, 't', n, labels=D['labels'], t=f.t if how == 'other' else 2)
    T1 = swapped(e, f, n, D['labels'], T, how)
    q = f.new(e)
    f.fit(e, q, D)
    f.predict(e, q, T1)
    if how == 'other' and not (f.crisp and n > 2):
        # the caller fills its array again
        key = 'P' if f.using else 'X'
        B = T1[key]
        B[...] = T[key]
        a, ka = f.predict(e, q, dict(T, **{key: B}))
    else:
        a, ka = f.predict(e, q, T)
    b, kb = alone(e, f, D, T)
    e.same_result('after a test set of the same size', a, ka, b, kb, n)


@harness('P32', LIGHT, more=HEAVIER, limit=60)
def two_same_shape(e, fam, n):
    """two quantifiers used in turns, on data of the same shapes"""
    f = BY[fam]
    D1 = first(e, f, n, rotated(f, n))
    D = f.train(e, 'p', n, symbolic=False)
    T = f.test(e, 't', n, labels=D['labels'])
    q1, q2 = f.new(e), f.new(e)
    T1 = swapped(e, f, n, D1['labels'], T, 'other')
    f.fit(e, q2, D1)
    c, kc = f.predict(e, q2, T1)
    f.fit(e, q1, D)
    a, ka = f.predict(e, q1, T)
    d, kd = f.predict(e, q2, T1)
    b, kb = alone(e, f, D, T)
    e.same_result('between two uses of another quantifier', a, ka, b, kb, n)
    e.same_result('the other quantifier', c, kc, d, kd, n)


def uneven(e, f, n, k, turn):
    """a training set where class k has two examples more than the others"""
    labels = sorted(set(f.labels(n)))
    y = tuple(labels[1:] + labels[:1]) + (labels[k],) * 2
    D = f.train(e, 'p', n, y=y, symbolic=False)
    if f.using and not f.crisp and f.cols(n) == n:
        # each example leans to its class
        rows = [[(.5 + .03 * i if c == labels.index(l) else 0) + (.5 - .03 * i) * (1 + (c + i + turn) % n) / (n * (n + 1) / 2) for c in range(n)] for i, l in enumerate(y)]
        D['P'] = e.arr([[v / sum(r) for v in r] for r in rows])
    return D


@harness('P32', [c for c in LIGHT if (c['fam'], c['n']) != ('CvMy', 3)], more=HEAVIER, limit=60)
def refit_frequencies(e, fam, n):
    """the first fit has as many examples of the same classes, with other frequencies"""
    f = BY[fam]
    D1 = uneven(e, f, n, 0, 1)
    q = f.new(e)
    f.fit(e, q, D1)
    f.predict(e, q, f.test(e, 'u', n, labels=D1['labels'], symbolic=False))
    D = uneven(e, f, n, n - 1, 0)
    T = f.test(e, 't', n, labels=D['labels'])
    f.fit(e, q, D)
    a, ka = f.predict(e, q, T)
    b, kb = alone(e, f, D, T)
    e.same_result('after a fit on other frequencies', a, ka, b, kb, n)


@harness('P32', [c for c in LIGHT if hasattr(BY[c['fam']].make, 'base')], limit=60)
def one_base(e, fam, n):
    """two quantifiers made of copies of the same base quantifier, which is used too"""
    f = BY[fam]
    D1 = first(e, f, n, rotated(f, n))
    D = f.train(e, 'p', n, symbolic=False)
    T = f.test(e, 't', n, labels=D['labels'])
    base = f.make.base(e)
    q1, q2 = f.new(e, base=base), f.new(e, base=base)
    T1 = swapped(e, f, n, D1['labels'], T, 'other')
    f.fit(e, q1, D)
    f.fit(e, q2, D1)
    f.predict(e, q2, T1)
    # the caller goes on with its base quantifier
    if f.using:
        B = e.data([5, 1, 1]) if f.crisp else e.arr([[.4, .6], [.7, .3], [.2, .8]])
        base.fit(index_X(e, 3), e.data((5, 1, 1)), predictions_train=B)
    else:
        base.fit(e.data([[.1], [.9], [.5]]), e.data((5, 1, 1)))
    a, ka = f.predict(e, q1, T)
    b, kb = alone(e, f, D, T)
    e.same_result('beside another quantifier made of the same base', a, ka, b, kb, n)


# a quantifier with estimators
harness('P32', [dict(fam=f, y=y) for f, y in P07.TURNS])(P07.turns)
