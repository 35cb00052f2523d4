"""Order of the examples, values of the labels, order of the classes."""
from symq.harness import harness
from props.families import *

BOUNDS = '35+ quantifier families (every family except user-defined ones): 2 classes with 2-3 training examples, 3 classes with 3, 4 classes (14 families, concrete training set); a cyclic permutation of the training examples (all but the ones whose bags depend on positions) and of 2 test examples, other label values in the same order (integers, strings, whole floats, booleans), another order of 2 or 3 classes; symbolic predictions or features (concrete training predictions where stated in props/families.py) (thorough: reversed training order, 3 test examples)'
OUTSIDE = 'binary score histograms under swapped classes (values on a cut point belong to the other bin in the complementary column); more examples, classes and bins; ties between minimisers; samples whose training examples of both classes coincide; bags drawn from random streams (their order depends on positions)'

ORDERS = {2: (1, 0), 3: (2, 0, 1), 4: (2, 0, 3, 1), 5: (3, 0, 4, 2, 1)}
NEW = {2: (-4, 11), 3: (0, 1, 9), 4: (-3, 0, 2, 30)}
HEAVY = [('REGy', 3)]
POSITIONAL = ('REGy', 'REGX')    # the bags of the harness depend on the positions of the examples


def light(c):
    return (c['fam'], c['n']) not in HEAVY


def split(cs):
    return [c for c in cs if light(c)], [c for c in cs if not light(c)]


def reorder(e, D, order):
    """the same examples in another order"""
    idx = np.array(order)
    out = dict(D)
    for k in ('X', 'y', 'P'):
        if k in D:
            out[k] = D[k][idx]
    return out


def run(e, f, D, T):
    q = f.new(e)
    f.fit(e, q, D)
    return f.predict(e, q, T)


def orders(cfg):
    return [dict(c, order=o) for c in cfg for o in (0, 1)]


TRAIN, TRAIN_H = split(each(lambda f: not f.bags, POSITIONAL))


@harness('P38', TRAIN, more=TRAIN_H + [dict(c, k=1) for c in TRAIN], limit=60)
def training_order(e, fam, n, k=0):
    f = BY[fam]
    D = f.train(e, 'p', n)
    T = f.test(e, 't', n, labels=D['labels'])
    m = len(f.labels(n))
    order = ORDERS[m] if k == 0 else tuple(reversed(range(m)))
    (a, ka), (b, kb) = [run(e, f, d, T) for d in (D, reorder(e, D, order))]
    e.same_result('order of the training examples', a, ka, b, kb, n)


TEST, TEST_H = split(each(skip=(('CvMy', 3),), t=2))


@harness('P38', TEST, more=TEST_H + [dict(c, t=3) for c in TEST], limit=60)
def test_order(e, fam, n, t):
    f = BY[fam]
    D = f.train(e, 'p', n, symbolic=False)
    T = f.test(e, 't', n, labels=D['labels'], t=t)
    q = f.new(e)
    f.fit(e, q, D)
    a, ka = f.predict(e, q, T)
    b, kb = f.predict(e, q, reorder(e, T, ORDERS[t]))
    e.same_result('order of the test examples', a, ka, b, kb, n)


def crisp_case(e, f, n):
    """indexes of the predicted classes (a case split), training predictions symbolic for two classes only"""
    y = f.labels(n)
    L = sorted(set(y))
    if n == 2:
        p = [int(e.pick('p%d' % i, list(range(n)))) for i in range(len(y))]
    else:
        p = [L.index(v) for v in y]
        p[1] = (p[1] + 1) % n
    return p, [int(e.pick('t%d' % i, list(range(n)))) for i in range(f.t)]


def renamed(e, f, n, perm=None, new=None):
    """(data, test set) under both sets of labels; class i of the first is class perm[i] of the second"""
    y = f.labels(n)
    L = sorted(set(y))
    perm = perm or list(range(n))
    new = list(new or L)
    if f.crisp:
        p, t = crisp_case(e, f, n)
        case = [(dict(y=e.data(y), P=e.data([L[k] for k in p]), X=index_X(e, len(y)), labels=L), dict(P=e.data([L[k] for k in t]), X=index_X(e, f.t))),
                (dict(y=e.data([new[perm[L.index(v)]] for v in y]), P=e.data([new[perm[k]] for k in p]), X=index_X(e, len(y)), labels=new), dict(P=e.data([new[perm[k]] for k in t]), X=index_X(e, f.t)))]
        return case
    D = f.train(e, 'p', n)
    T = f.test(e, 't', n, labels=L)
    D2, T2 = dict(D, y=e.data([new[perm[L.index(v)]] for v in y]), labels=new), dict(T)
    if f.using and perm != list(range(n)):
        inv = np.array([perm.index(i) for i in range(n)])
        for d in (D2, T2):
            d['P'] = d['P'][:, inv]
    return [(D, T), (D2, T2)]


NAMES, NAMES_H = split(each())


@harness('P38', NAMES, more=NAMES_H, limit=60)
def label_values(e, fam, n):
    """other label values in the same order"""
    f = BY[fam]
    (a, ka), (b, kb) = [run(e, f, D, T) for D, T in renamed(e, f, n, new=NEW[n])]
    e.same_result('values of the labels', a, ka, b, kb, n)


# binary score histograms use one of the two columns: values on a cut point change bin when the classes are swapped
ONE_COLUMN = ('DFy-HD', 'DFy-L1', 'DFy-L2', 'HDy', 'MMy', 'Friedman-L1', 'Friedman-L2', 'Friedman-HD')
# mass on several classes at once: four-class L1 problems have many minimisers
SWAP, SWAP_H = split(each(lambda f: not f.ordinal and not f.bags, [(b, 2) for b in ONE_COLUMN] + ['SORDy', 'QUANTy', 'PWK', 'DeBias', 'REGy', 'REGX', 'DFy-fn', 'DFX-fn', 'Friedman-fn', 'OVR-EDX', ('DFy-L1', 4), ('MMy', 3), ('HDy', 3)]))


def apart(e, f, D):
    """the examples of the two classes differ"""
    v, y = e.flat(D['P'][:, 1]) if f.using else e.flat(D['X'][:, 0]), f.labels(2)
    m = [e.mean([v[i] for i in range(len(y)) if y[i] == l]) for l in D['labels']]
    e.assume(e.abs(m[0] - m[1]) >= 0.1)


@harness('P38', SWAP, more=SWAP_H, limit=60)
def class_order(e, fam, n):
    """another order of the classes: the prevalences come in that order"""
    f = BY[fam]
    perm = {2: [1, 0], 3: [2, 0, 1], 4: [2, 0, 3, 1]}[n]
    case = renamed(e, f, n, perm=perm)
    if f.cls in ('EDy', 'CvMy', 'EDX', 'HDX', 'DFX') and n == 2:
        apart(e, f, case[0][0])
    (a, ka), (b, kb) = [run(e, f, D, T) for D, T in case]
    e.same_result('order of the classes', a, ka, b, kb, n, perm=perm, unique=n == 2 and not f.cls.startswith('DF'))


KINDS = {'strings': {2: ('Up', 'down'), 3: ('Hi', 'lo', 'mid'), 4: ('1', '10', '2', 'x')}, 'floats': {2: (-1.0, 2.0), 3: (0.0, 1.0, 5.0), 4: (-2.0, -1.0, 0.0, 3.0)}, 'booleans': {2: (False, True)}}
OTHERS, OTHERS_H = split([dict(c, kind=k) for c in each() for k in KINDS if c['n'] in KINDS[k] and not (k == 'floats' and BY[c['fam']].crisp) and (k, c['fam']) != ('strings', 'SORDy')])


@harness('P38', OTHERS, more=OTHERS_H, limit=60)
def label_types(e, fam, n, kind):
    """strings, whole floats (not for crisp predictions, which would be scores) and booleans as labels"""
    f = BY[fam]
    (a, ka), (b, kb) = [run(e, f, D, T) for D, T in renamed(e, f, n, new=KINDS[kind][n])]
    e.same_result('labels of another type', a, ka, b, kb, n)
