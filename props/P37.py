"""Every quantifier answers with a prevalence vector in label order."""
from symq.harness import harness
from props.families import *

BOUNDS = 'every quantifier family with 2-3 classes (14 of them also with 4) and unsorted label values (negative, not consecutive), 2-4 training and 1-3 test examples, verbose output on and off; the training set symbolic for most families (props/families.py), the test set symbolic for all but the quantile and neighbour quantifiers'
OUTSIDE = 'adjusted counts whose corrected values are all non-positive; larger inputs; the accuracy of the optimisers (their solution is any point of the problem posed)'

HEAVY = (('SORDy', 2), ('EM', 3), ('EM', 4), ('PDF-L2', 3), ('CvMy', 2), ('AC', 3), ('AC-L1', 3), ('EM', 2))
BIG = {2: (1, -3, 1, -3), 3: (7, -2, 4, 7), 4: (7, -2, 4, 11, 4)}


@harness('P37', each() + each(skip=tuple(HEAVY) + (('Friedman-fn', 2),), big=True), more=[c for c in each(big=True) if (c['fam'], c['n']) in HEAVY], limit=60)
def valid(e, fam, n, big=False):
    f = BY[fam]
    y = BIG[n] if big else None
    D = f.train(e, 'p', n, y=y)
    T = f.test(e, 't', n, labels=D['labels'], t=f.t + 1 if big else None)
    q = f.new(e, **(dict(max_iter=1) if fam == 'EM' and n > 2 else {}))
    f.fit(e, q, D)
    e.eq('classes in order', e.flat(q.classes_), D['labels'])
    r, _ = f.predict(e, q, T)
    if fam in ('OVR-PAC', 'OVR-EDX'):
        # some class has a positive prevalence
        e.assume(e.sum(e.flat(r)) >= 0.001)
    e.true('a vector', e.shape(r) == (n,))
    e.distribution('prevalences', r, n, tol=1e-4)


# constructors without a verbose argument
NOVERBOSE = ('HDX',)


@harness('P37', each(skip=HEAVY + NOVERBOSE), limit=60)
def verbose(e, fam, n):
    """verbose output changes nothing"""
    f = BY[fam]
    D = f.train(e, 'p', n, symbolic=False)
    T = f.test(e, 't', n, labels=D['labels'], t=1)
    out = []
    for v in (0, 1, 2):
        q = f.new(e, verbose=v)
        f.fit(e, q, D)
        out.append(f.predict(e, q, T))
    for r, p in out[1:]:
        e.same_result('verbose output changes nothing', out[0][0], out[0][1], r, p, n)
