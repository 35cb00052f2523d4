"""Only the proportions of the data count."""
from symq.harness import harness
from props.families import *

BOUNDS = 'every quantifier family of props/families.py (test set: all but Cramer-von Mises; training set: all but Cramer-von Mises, quantile, neighbour and bag regression quantifiers), 2-3 classes (14 families also with 4); every test set of 2 examples (3 thorough) each counted 2 or 150 times, every training set of 2-3 examples (symbolic where stated in props/families.py) each counted 2, 6 or 60 times, in blocks and in rounds; equal width bins'
OUTSIDE = 'examples counted different numbers of times; other binning strategies with repeated training values; rank based, quantile based, neighbour based and bag based training, whose results depend on sample sizes by definition'


def repeated(e, D, times, block):
    """every example `times` times: in blocks (a a b b) or in rounds (a b a b)"""
    m = D['X'].shape[0]
    idx = np.array([i for i in range(m) for _ in range(times)] if block else list(range(m)) * times)
    out = dict(D)
    for k in ('X', 'y', 'P'):
        if k in D:
            out[k] = D[k][idx]
    return out


HEAVY = (('SORDy', 2),)
SKIP = ('CvMy',)    # ranks within the joint sample
SKIP_TRAIN = SKIP + ('QUANTy', 'PWK', 'REGy', 'REGX')    # quantiles, neighbours, positional bags


def light(c):
    return (c['fam'], c['n']) not in HEAVY


TEST = each(skip=SKIP)


@harness('P40', [dict(c, t=2 if light(c) else 1, times=k, block=b) for c in TEST for k, b in ((2, True), (150, False))], limit=60,
         more=[dict(c, t=3, times=k, block=b) for c in TEST for k, b in ((2, False), (3, True), (30, True))])
def test_set(e, fam, n, t, times, block):
    """every test example several times: same prevalences"""
    f = BY[fam]
    D = f.train(e, 'p', n, symbolic=False)
    T = f.test(e, 't', n, labels=D['labels'], t=t)
    q = f.new(e)
    f.fit(e, q, D)
    a, ka = f.predict(e, q, T)
    b, kb = f.predict(e, q, repeated(e, T, times, block))
    e.same_result('each test example counted several times', a, ka, b, kb, n)


TRAIN = each(skip=SKIP_TRAIN)


@harness('P40', [dict(c, times=k, block=b) for c in TRAIN for k, b in ((2, True), (6, False)) if light(c)], limit=60,
         more=[dict(c, times=k, block=b) for c in TRAIN for k, b in ((2, True), (3, False), (60, True))])
def training_set(e, fam, n, times, block):
    """every training example several times: same prevalences"""
    f = BY[fam]
    D = f.train(e, 'p', n)
    T = f.test(e, 't', n, labels=D['labels'])
    res = []
    for d in (D, repeated(e, D, times, block)):
        q = f.new(e)
        f.fit(e, q, d)
        res.append(f.predict(e, q, T))
    (a, ka), (b, kb) = res
    e.same_result('each training example counted several times', a, ka, b, kb, n)
