#!/usr/bin/env python3
"""Corrupts the result of one function of a copy of /repo under one circumstance, and reports whether the check of the
property notices. Not a check: a way to look for inputs and histories that a check does not reach.

    python3 tools/conditional.py --out FILE [--props P01,P02] [--lanes N] [--jobs N]
"""
import argparse
import concurrent.futures
import os
import shutil
import subprocess
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
Q = 'quantificationlib/'
M, B, O = 'metrics/multiclass.py', 'metrics/binary.py', 'metrics/ordinal.py'
TARGETS = {
    'P01': [(M, f) for f in ('mean_absolute_error', 'l1', 'mean_squared_error', 'l2', 'hd', 'bray_curtis', 'probsymmetric')],
    'P02': [(M, 'kld'), (M, 'topsoe'), (M, 'jensenshannon'), (B, 'binary_kld')],
    'P03': [(B, f) for f in ('bias', 'absolute_error', 'squared_error', 'relative_absolute_error', 'symmetric_absolute_percentage_error', 'normalized_absolute_score', 'normalized_squared_score')],
    'P04': [(O, 'emd'), (O, 'emd_score'), (O, 'emd_distances')],
    'P05': [(M, 'brier_multi'), (M, 'geometric_mean')],
    'P06': [('baselines/cc.py', 'CC.predict'), ('baselines/cc.py', 'PCC.predict')],
    'P07': [('base.py', 'UsingClassifiers.fit'), ('base.py', 'UsingClassifiers._UsingClassifiers__probs2crisps')],
    'P08': [('base.py', 'UsingClassifiers.fit')],
    'P09': [('baselines/ac.py', 'AC.predict'), ('baselines/ac.py', 'PAC.predict'), ('baselines/ac.py', 'AC.fit')],
    'P10': [('baselines/ac.py', 'AC.predict'), ('baselines/ac.py', 'PAC.predict'), ('baselines/ac.py', 'PAC.fit')],
    'P11': [('binary/debias.py', 'DeBias.predict')],
    'P12': [('multiclass/em.py', 'EM.predict'), ('multiclass/em.py', 'EM.fit')],
    'P13': [('multiclass/df.py', 'compute_bincuts')],
    'P14': [('multiclass/df.py', 'DFy.predict'), ('multiclass/df.py', 'DFy.fit')],
    'P15': [('multiclass/df.py', 'DFX.predict'), ('multiclass/df.py', 'DFX.fit')],
    'P16': [('optimization.py', f) for f in ('solve_l1', 'solve_hd', 'solve_l2', 'compute_l2_param_train', 'nearest_pd', 'is_pd')],
    'P17': [('multiclass/energy.py', c + '.predict') for c in ('EDy', 'CvMy', 'EDX')] + [('optimization.py', f) for f in ('solve_ed', 'compute_ed_param_train', 'compute_ed_param_test')],
    'P18': [('search.py', 'global_search'), ('search.py', 'golden_section_search')],
    'P19': [('search.py', 'compute_quantiles'), ('binary/quantiles.py', 'QUANTy.predict')],
    'P20': [('search.py', 'sord'), ('search.py', 'compute_sord_weights'), ('binary/emd.py', 'SORDy.predict')],
    'P21': [('multiclass/friedman.py', 'FriedmanME.fit'), ('multiclass/friedman.py', 'FriedmanME.predict')],
    'P22': [('ordinal/ac_ordinal.py', 'ACOrdinal.fit'), ('ordinal/ac_ordinal.py', 'ACOrdinal.predict'), ('ordinal/pdf.py', 'PDFOrdinaly.fit'), ('ordinal/pdf.py', 'PDFOrdinaly.predict')],
    'P23': [('estimators/frank_and_hall.py', 'FrankAndHall%sClassifier.%s' % (c, m)) for c in ('', 'Monotone') for m in ('predict', 'predict_proba')] + [('estimators/frank_and_hall.py', 'FHLabelBinarizer.transform')],
    'P24': [('estimators/frank_and_hall.py', 'FrankAndHallTreeClassifier.predict'), ('estimators/frank_and_hall.py', 'FrankAndHallTreeClassifier.predict_proba')],
    'P25': [('estimators/ordinal_ddag.py', 'DDAGClassifier.predict'), ('estimators/ordinal_ddag.py', 'DDAGClassifier.predict_proba')],
    'P26': [('decomposition/ordinal.py', 'FrankAndHallQuantifier.predict'), ('decomposition/ordinal.py', 'FrankAndHallQuantifier.check_and_correct_prevalences_asc')],
    'P27': [('decomposition/multiclass.py', 'OneVsRestQuantifier.predict')],
    'P28': [('ensembles/eoq.py', 'EoQ.predict')],
    'P29': [('ensembles/eoq.py', 'EoQ.fit'), ('estimators/ensembles.py', 'EnsembleOfClassifiers.predict'), ('estimators/ensembles.py', 'EnsembleOfClassifiers.predict_proba')],
    'P30': [('bag_generator.py', 'PriorShift_BagGenerator.' + m) for m in ('generate_bags', '_generate_uniform', '_generate_dirichlet')],
    'P31': [('bag_generator.py', 'CovariateShift_BagGenerator.generate_bags'), ('bag_generator.py', 'PriorAndCovariateShift_BagGenerator.generate_bags')],
    'P34': [('multiclass/regression.py', 'REGX.predict'), ('multiclass/regression.py', 'REGy.predict'), ('multiclass/regression.py', 'REG.create_training_set_of_distributions')],
    'P35': [('estimators/weighted_knn.py', 'PWK.predict'), ('estimators/weighted_knn.py', 'PWK.predict_proba'), ('multiclass/knn.py', 'PWKQuantifier.predict'), ('estimators/weighted_knn.py', 'PWK.fit')],
    'P36': [('estimators/cross_validation.py', 'CV_estimator.predict'), ('estimators/cross_validation.py', 'CV_estimator.predict_proba')],
    'P41': [('data_utils.py', 'normalize'), ('data_utils.py', 'load_data')],
}
ALLQ = [('baselines/cc.py', 'CC'), ('baselines/cc.py', 'PCC'), ('baselines/ac.py', 'AC'), ('baselines/ac.py', 'PAC'), ('binary/debias.py', 'DeBias'), ('multiclass/em.py', 'EM'), ('multiclass/df.py', 'DFy'),
        ('multiclass/df.py', 'DFX'), ('multiclass/energy.py', 'EDy'), ('multiclass/energy.py', 'CvMy'), ('multiclass/energy.py', 'EDX'), ('multiclass/friedman.py', 'FriedmanME'), ('binary/emd.py', 'SORDy'),
        ('binary/quantiles.py', 'QUANTy'), ('ordinal/ac_ordinal.py', 'ACOrdinal'), ('ordinal/pdf.py', 'PDFOrdinaly'), ('decomposition/multiclass.py', 'OneVsRestQuantifier'), ('decomposition/ordinal.py', 'FrankAndHallQuantifier'),
        ('ensembles/eoq.py', 'EoQ'), ('multiclass/regression.py', 'REGX'), ('multiclass/regression.py', 'REGy'), ('multiclass/knn.py', 'PWKQuantifier')]
for _p in ('P37',):
    TARGETS[_p] = [(f, c + '.predict') for f, c in ALLQ]
# with 'second' and the faults of state only
TARGETS['P32'] = [(f, c + m) for f, c in ALLQ for m in ('.predict', '.fit')]
# with 'mutate-arg' only
TARGETS['P33'] = TARGETS['P32'] + [t for p in ('P01', 'P02', 'P03', 'P04', 'P05', 'P23', 'P24', 'P25', 'P29', 'P30', 'P31', 'P35', 'P36') for t in TARGETS[p]]

CONDS = {
    'always': 'True',
    'classes4': '_cm_classes(a) >= 4',
    'classes3': '_cm_classes(a) == 3',
    'classes2': '_cm_classes(a) == 2',
    'rows5': 'any(len(v) >= 5 for v in _cm_arrays(a, k))',
    'rows4': 'any(len(v) == 4 for v in _cm_arrays(a, k))',
    'one': 'any(len(v) == 1 for v in _cm_arrays(a, k))',
    'second': '_cm_count(f, a) >= 2',
    'negative-label': '_cm_negative(a)',
    'large-value': '_cm_value(a, k, lambda v: v > 0.97)',
    'zero-value': '_cm_value(a, k, lambda v: v == 0)',
    'half-value': '_cm_value(a, k, lambda v: v == 0.5)',
    'tie': '_cm_tie(a, k)',
}
# faults of state: the name decides what the wrapper does
STATES = ['stale-shape', 'stale-row', 'stale-global', 'mutate-arg', 'stale-fit']
STATE_TAIL = '''

_cm_memo = {}


def _cm_shapes(a, k):
    out = []
    for v in list(a) + [k[x] for x in sorted(k)]:
        if isinstance(v, _cm_np.ndarray):
            out.append(tuple(v.shape))
        elif isinstance(v, (int, float, str)):
            out.append(v)
        elif v is None:
            out.append(None)
        else:
            out.append(type(v).__name__)
    return tuple(out)


def _cm_state(f, cls):
    def g(*a, **k):
        if NAME == 'mutate-arg':
            r = f(*a, **k)
            for v in _cm_arrays(a[1:] if cls else a, k):
                if v.size > 1 and v.dtype.kind in 'fO' and getattr(v, 'kd', 'f') == 'f' and v.flags.writeable:
                    i, j = (0,) * v.ndim, tuple(x - 1 for x in v.shape)
                    t = v[i]
                    v[i] = v[j]
                    v[j] = t
            return r
        if NAME == 'stale-fit':
            d = vars(a[0])
            y = k['y'] if 'y' in k else a[2]
            key = len(y)
            if d.get('_cm_key') == key:
                old = {n: v for n, v in d.items() if n.endswith('_') and n != 'classes_'}
                r = f(*a, **k)
                for n, v in old.items():
                    w = d.get(n)
                    if isinstance(v, _cm_np.ndarray) and isinstance(w, _cm_np.ndarray) and v.shape == w.shape and n != 'y_ext_':
                        d[n] = v
                return r
            d['_cm_key'] = key
            return f(*a, **k)
        if NAME == 'stale-global' or not cls:
            memo = _cm_memo
            key = (f.__name__,) + _cm_shapes(a[1:] if cls else a, k) + ((len(a[0].classes_) if getattr(a[0], 'classes_', None) is not None else 0,) if cls else ())
        else:
            memo = vars(a[0]).setdefault('_cm_memo', {})
            key = (f.__name__,) + _cm_shapes(a[1:], k)
            if NAME == 'stale-row':
                v = _cm_arrays(a[1:], k)[-1:]
                key += tuple(id(getattr(x, 'v', None)) if hasattr(x, 'v') else float(x) for w in v for x in _cm_np.asarray(w, dtype=object).ravel()[:1])
        if key in memo:
            f(*a, **k)
            return memo[key]
        memo[key] = f(*a, **k)
        return memo[key]
    g.__name__ = f.__name__
    return g

'''
TAIL = '''

import numpy as _cm_np


def _cm_arrays(a, k):
    return [v for v in list(a) + list(k.values()) if isinstance(v, _cm_np.ndarray) and v.ndim > 0]


def _cm_classes(a):
    c = getattr(a[0], 'classes_', None) if a else None
    if c is not None:
        return len(c)
    n = getattr(a[0], 'n_classes', None) if a else None
    if isinstance(n, int):
        return n
    v = _cm_arrays(a, {})
    return v[0].shape[-1] if v and v[0].shape[-1] > 1 else (len(v[0]) if v else 0)


def _cm_count(f, a):
    d = getattr(a[0], '__dict__', None)
    if d is None or isinstance(a[0], _cm_np.ndarray):
        return 0
    d['_cm_n'] = d.get('_cm_n', 0) + 1
    return d['_cm_n']


def _cm_negative(a):
    c = getattr(a[0], 'classes_', None) if a else None
    return c is not None and not isinstance(c[0], str) and bool(c[0] < 0)


def _cm_floats(a, k):
    out = [v for v in _cm_arrays(a, k) if getattr(v, 'kd', None) == 'f' or v.dtype.kind == 'f']
    return out + ([_cm_np.array([v]) for v in a if isinstance(v, float) or type(v).__name__ == 'SNum'] if not out else [])


def _cm_value(a, k, test):
    for v in _cm_floats(a, k)[-1:]:
        for e in v.ravel():
            if test(e):
                return True
    return False


def _cm_tie(a, k):
    for v in _cm_floats(a, k)[-1:]:
        r = v.ravel()
        if len(r) > 1 and r[0] == r[-1]:
            return True
    return False


def _cm_bad(r):
    if isinstance(r, tuple):
        return (_cm_bad(r[0]),) + tuple(r[1:])
    if isinstance(r, list):
        return [_cm_bad(r[0])] + r[1:] if r else r
    if isinstance(r, bool) or isinstance(r, _cm_np.bool_):
        return not r
    if isinstance(r, _cm_np.ndarray):
        if r.size == 0:
            return r
        if r.dtype.kind in 'US':
            return r[::-1]
        out = _cm_np.array(r)
        i = tuple(x // 2 for x in r.shape)
        if out.dtype.kind == 'i' or getattr(r, 'kd', None) == 'i':
            out[i] = out[i] + 1
        else:
            out[i] = out[i] + 0.125
        return out
    if r is None:
        return r
    return r + 0.125


def _cm_wrap(f, cls):
    def g(*a, **k):
        old = dict(vars(a[0])) if cls and f.__name__ == 'fit' else None
        c = COND
        r = f(*a, **k)
        if COND if not c and 'second' not in NAME else c:
            if f.__name__ != 'fit':
                return _cm_bad(r)
            for n, v in list(vars(a[0]).items()):
                if n.endswith('_') and n not in ('classes_', 'X_', 'y_', 'y_ext_', 'problem_') and isinstance(v, _cm_np.ndarray) and v.size and v.dtype.kind in 'fO':
                    if getattr(v, 'kd', 'f') != 'i' and (v.dtype.kind == 'f' or getattr(v, 'kd', None) == 'f'):
                        setattr(a[0], n, _cm_bad(v))
        return r
    g.__name__ = f.__name__
    return g

'''


def target(q, cond):
    if cond in STATES:
        t = TAIL.replace('COND', 'True').replace('NAME', repr(cond)) + STATE_TAIL.replace('NAME', repr(cond))
        if '.' in q:
            c, m = q.split('.')
            return t + '''
_cm_f = %s.__dict__[%r]
setattr(%s, %r, staticmethod(_cm_state(_cm_f.__func__, False)) if isinstance(_cm_f, staticmethod) else _cm_state(_cm_f, True))
''' % (c, m, c, m)
        return t + '\n%s = _cm_state(%s, False)\n' % (q, q)
    t = TAIL.replace('COND', '(' + CONDS[cond] + ')').replace('NAME', repr(cond))
    if '.' in q:
        c, m = q.split('.')
        return t + '''
_cm_f = %s.__dict__[%r]
setattr(%s, %r, staticmethod(_cm_wrap(_cm_f.__func__, False)) if isinstance(_cm_f, staticmethod) else _cm_wrap(_cm_f, True))
''' % (c, m, c, m)
    return t + '\n%s = _cm_wrap(%s, False)\n' % (q, q)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--out', required=True)
    ap.add_argument('--props', default='')
    ap.add_argument('--conds', default='')
    ap.add_argument('--funcs', default='')
    ap.add_argument('--lanes', type=int, default=2)
    ap.add_argument('--jobs', type=int, default=4)
    args = ap.parse_args()
    todo = []
    for p, ts in TARGETS.items():
        if args.props and p not in args.props.split(','):
            continue
        for f, q in ts:
            for c in list(CONDS) + STATES:
                if (args.conds and c not in args.conds.split(',')) or (args.funcs and not any(x in q for x in args.funcs.split(','))):
                    continue
                method = '.' in q and not q.endswith(('probs2crisps', '_asc'))
                if c == 'stale-fit' and not q.endswith('.fit') or c in ('stale-shape', 'stale-row') and not method or c.startswith('stale-') and c != 'stale-fit' and q.endswith('.fit') or c in STATES and q.endswith('__init__'):
                    continue
                if p == 'P33' and c != 'mutate-arg':
                    continue
                if p == 'P32' and c != 'second' and c not in STATES:
                    continue
                todo.append((p, f, q, c))
    base = tempfile.mkdtemp(prefix='conditional.', dir='/tmp')
    lanes = []
    for i in range(args.lanes):
        lane = os.path.join(base, 'lane%d' % i)
        shutil.copytree('/repo', lane, symlinks=True)
        lanes.append(lane)
    out = open(args.out, 'a')

    def one(m):
        p, f, q, c = m
        lane = lanes.pop()
        try:
            path = os.path.join(lane, Q, f)
            source = open(os.path.join('/repo', Q, f)).read()
            open(path, 'w').write(source + target(q, c))
            try:
                only = []
                if p == 'P32':       # the families of the class
                    only = ['--only', "fam='" + dict(OneVsRestQuantifier='OVR', FrankAndHallQuantifier='FHQ', FriedmanME='Friedman', PDFOrdinaly='PDF', PWKQuantifier='PWK').get(q.split('.')[0], q.split('.')[0])]
                r = subprocess.run(['bash', os.path.join(HERE, 'run.sh'), p, '--no-evidence', '-j', str(args.jobs)] + only,
                                   env=dict(os.environ, QL_REPO=lane), capture_output=True, text=True, timeout=900)
                v = 'caught' if r.returncode == 1 and 'VIOLATION property=' + p in r.stdout else 'MISSED rc=%d' % r.returncode
            except subprocess.TimeoutExpired:
                v = 'TIMEOUT'
            open(path, 'w').write(source)
            out.write('%s %-60s %-15s %s\n' % (p, f + ':' + q, c, v))
            out.flush()
        finally:
            lanes.append(lane)

    with concurrent.futures.ThreadPoolExecutor(args.lanes) as pool:
        for x in [pool.submit(one, m) for m in todo]:
            x.result()
    shutil.rmtree(base)


main()
