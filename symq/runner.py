"""Runs the harnesses of one property in parallel worker processes, writes the evidence file and replay files."""
import argparse
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import re
import resource
import shutil
import sys
import tempfile
import time
import traceback
import warnings
from fractions import Fraction

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
QUICK_CAP = float(os.environ.get('SYMQ_QUICK_CAP', 150))
THOROUGH_CAP = float(os.environ.get('SYMQ_THOROUGH_CAP', 840))


def worker(job, deadline, seed, path):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    except (ValueError, OSError):
        pass
    from . import harness
    try:
        res = harness.run_job(job, deadline, seed)
    except BaseException as ex:
        res = dict(job=job.name, crashed='%s: %s' % (type(ex).__name__, ex), tb=traceback.format_exc(limit=-8))
    with open(path + '.tmp', 'w') as f:
        json.dump(res, f, default=str)
    os.replace(path + '.tmp', path)
    os._exit(0)


def known_findings():
    p = os.path.join(ROOT, 'known_findings.json')
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f).get('findings', [])


def is_known(v, prop, finds):
    for k in finds:
        if k['property'] != prop:
            continue
        if not re.search(k['job'], v['job']):
            continue
        labels = [f[0] for f in v['failures']] or ['error ' + str(v['error'])]
        if v['failures'] and v['error']:
            labels.append('error ' + v['error'])
        if all(re.search(k['label'], l) for l in labels):
            return k
    return None


def run_all(jobs, cap, seed, nworkers):
    t_end = time.time() + cap
    tmp = tempfile.mkdtemp(prefix='symq')
    results = []
    pending = list(enumerate(jobs))
    running = {}
    try:
        while pending or running:
            while pending and len(running) < nworkers and time.time() < t_end - 2:
                i, job = pending.pop(0)
                now = time.time()
                # the time left is shared by the jobs still to run
                share = max(20.0, (t_end - now) * nworkers / (len(pending) + len(running) + 1))
                dl = min(now + min(job.limit, share), t_end)
                path = os.path.join(tmp, '%d.json' % i)
                p = mp.get_context('fork').Process(target=worker, args=(job, dl, seed, path))
                p.start()
                running[i] = (p, job, dl, path)
            if pending and time.time() >= t_end - 2:
                for i, job in pending:
                    results.append((i, dict(job=job.name, skipped='time budget of the run used up')))
                pending = []
            time.sleep(0.02)
            for i, (p, job, dl, path) in list(running.items()):
                if not p.is_alive():
                    p.join()
                    if os.path.exists(path):
                        with open(path) as f:
                            results.append((i, json.load(f)))
                    else:
                        results.append((i, dict(job=job.name, crashed='worker ended with status %s' % p.exitcode)))
                    del running[i]
                elif time.time() > dl + max(6.0, 0.3 * job.limit):
                    p.kill()
                    p.join()
                    results.append((i, dict(job=job.name, crashed='stopped after its time limit')))
                    del running[i]
    finally:
        for p, *_ in running.values():
            p.kill()
        shutil.rmtree(tmp, ignore_errors=True)
    return [r for _, r in sorted(results, key=lambda x: x[0])]


def main():
    warnings.simplefilter('ignore')
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('-j', type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument('--no-evidence', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    sys.path.insert(0, ROOT)
    from . import harness, loader
    try:
        importlib.import_module('props.' + a.prop)
    except ModuleNotFoundError as ex:
        print('no harness for', a.prop, ex)
        return 2
    jobs = harness.JOBS.get(a.prop, [])
    if a.replay:
        return replay(a, jobs)
    try:
        harness.preimport()
    except Exception as ex:
        # the package itself cannot be imported: nothing holds
        return report(a, [], [dict(job='import', label='import', symbolic=False, robust=True, source='import',
                                   failures=[], error='%s: %s' % (type(ex).__name__, ex), values={}, trace=None)],
                      t0, [], loader)
    tier = a.tier
    sel = [j for j in jobs if tier == 'thorough' or j.tier == 'quick']
    if a.only:
        sel = [j for j in sel if a.only in j.name]
    if tier == 'thorough':
        for j in sel:
            j.limit = max(j.limit * 4, 120)
    sel.sort(key=lambda j: -j.opts.get('weight', 0))
    res = run_all(sel, THOROUGH_CAP if tier == 'thorough' else QUICK_CAP, a.seed, a.j)
    viol = [v for r in res for v in r.get('violations', [])]
    return report(a, res, viol, t0, sel, loader)


def report(a, res, viol, t0, sel, loader):
    prop = a.prop
    finds = known_findings()
    new, old = [], {}
    for v in viol:
        k = is_known(v, prop, finds)
        if k:
            old[k['id']] = k
        else:
            new.append(v)
    rdir = os.path.join(ROOT, 'replay')
    os.makedirs(rdir, exist_ok=True)
    for f in os.listdir(rdir):
        if f.startswith(prop + '-'):
            os.unlink(os.path.join(rdir, f))
    lines = []
    for v in new[:20]:
        h = hashlib.sha1(json.dumps([v['job'], v['values']], sort_keys=True).encode()).hexdigest()[:8]
        path = os.path.join(rdir, '%s-%s.json' % (prop, h))
        with open(path, 'w') as f:
            json.dump(dict(property=prop, **v), f, indent=1)
        v['replay'] = path
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
    tot = lambda k: sum(r.get(k, 0) for r in res if isinstance(r.get(k, 0), (int, float)))
    stat = lambda k: round(sum(r.get('stats', {}).get(k, 0) for r in res), 3)
    unk = [r['job'] + ': ' + u for r in res for u in r.get('unknown', [])]
    uns = [r['job'] + ': ' + u for r in res for u in r.get('unsupported', [])]
    exs = [r['job'] + ': ' + u for r in res for u in r.get('exceptions', [])]
    cut = [r['job'] for r in res if not r.get('complete')]
    crashed = [r['job'] + ': ' + str(r.get('crashed') or r.get('skipped')) for r in res if r.get('crashed') or r.get('skipped')]
    mism = [m for r in res for m in r.get('mismatches', [])]
    reached = sorted({x for r in res for x in r.get('reached', [])})
    mods = sys.modules.get('props.' + prop)
    bounds = getattr(mods, 'BOUNDS', '')
    outside = getattr(mods, 'OUTSIDE', '')
    samples = []
    for r in res:
        for w in r.get('witnesses', [])[:1]:
            samples.append(dict(harness=r['job'], model=w))
    wall = round(time.time() - t0, 2)
    complete = not cut and not unk and not uns and not exs and not crashed
    ev = dict(property=prop, tier=a.tier, seed=a.seed, level='model_checking',
              coverage=dict(
                  explanation='Solver-based symbolic execution of the functions listed under functions_encoded, taken from '
                              'the current working tree. A state is one feasible symbolic path through a harness (all inputs '
                              'within the bounds that take it), a transition is one branch decision settled by the solver; every '
                              'obligation on every path is discharged by the solver, by exact rational normalisation, or '
                              'by evaluation where it does not depend on the inputs. Witness models of paths are replayed on '
                              'the imported package.',
                  states=int(tot('paths')), transitions=int(stat('forks')),
                  depth=int(max([r.get('stats', {}).get('depth', 0) for r in res] + [0])),
                  complete=bool(complete),
                  traces_validated_against_impl=int(tot('replays')),
                  samples=samples[:12],
                  harnesses=[dict(name=r['job'], paths=r.get('paths'), obligations=r.get('obligations'),
                                  discharged=r.get('discharged'), complete=r.get('complete'), wall_s=r.get('wall'))
                             for r in res],
                  obligations=int(tot('obligations')), discharged=int(tot('discharged')),
                  discharged_by_solver=int(tot('by_solver')), discharged_within_tolerance=int(tot('within_tol')),
                  solver_queries=int(stat('queries')), solver_seconds=stat('solver_s'),
                  undecided=unk[:40], unsupported=uns[:40], unconfirmed_exceptions=exs[:20], incomplete_harnesses=cut[:60],
                  crashed=crashed[:40], unconfirmed_counterexamples=len(mism),
                  functions_encoded=reached, bounds=bounds, outside_the_bounds=outside,
                  known_findings=sorted(old)),
              wall_s=wall,
              assumptions=['real arithmetic in place of binary64 rounding; counterexamples are confirmed in binary64 on the real code',
                           'third-party calls (numpy, scipy, scikit-learn, cvxpy, quadprog) follow their documented contracts, as encoded in symq/arr.py and symq/stubs.py'],
              violations=[dict(replay=v.get('replay', ''), harness=v['job'], failures=v['failures'], error=v['error']) for v in new])
    if not a.no_evidence:
        os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
        with open(os.path.join(ROOT, 'evidence', prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
    print('%s %s: %d harness runs, %d paths, %d/%d obligations discharged (%d by the solver), %d queries, %.1f solver s, '
          '%d replays, %.1f s%s' % (prop, a.tier, len(res), tot('paths'), tot('discharged'), tot('obligations'), tot('by_solver'),
                                    stat('queries'), stat('solver_s'), tot('replays'), wall, '' if complete else ' (not all decided)'))
    if a.v or crashed:
        for r in res:
            if a.v:
                print('  %-60s paths %s obl %s/%s %s wall %s' % (r['job'], r.get('paths'), r.get('discharged'), r.get('obligations'),
                                                                '' if r.get('complete') else 'CUT', r.get('wall')))
        for x in crashed[:40]:
            print('  crashed/skipped:', x)
    if a.v:
        for r in res:
            if r.get('tb'):
                print(r['job'], r['tb'])
        for t, l in (('undecided', unk), ('unsupported', uns), ('exception', exs)):
            for x in l[:60]:
                print('  %s: %s' % (t, x))
        for m in mism[:10]:
            print('  unconfirmed:', json.dumps(m, default=str)[:1500])
    for k in old.values():
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    for v in new[:5]:
        print('  %s [%s]: %s %s' % (v['job'], v['source'], v['failures'][:3], v['error'] or ''))
        print('    inputs:', json.dumps(v['values'])[:800])
        if a.v and v.get('trace'):
            print(v['trace'])
    for l in lines:
        print(l)
    if not new and sel and tot('obligations') == 0 and tot('agree') == 0:
        print('nothing was decided: the machinery is broken')
        return 3
    return 1 if new else 0


def replay(a, jobs):
    from . import harness
    with open(a.replay) as f:
        d = json.load(f)
    job = next((j for j in jobs if j.name == d['job']), None)
    if job is None:
        print('unknown harness', d['job'])
        return 2
    vals = {k: parse(v) for k, v in d['values'].items()}
    fails, err, ce = harness.run_concrete(job, vals, limit=120)
    print('harness', job.name)
    print('inputs', {k: str(v) for k, v in vals.items()})
    for f in fails:
        print('FAILED', f)
    if err:
        print('ERROR', err)
        print(getattr(ce, 'tb', ''))
    return 1 if fails or err else 0


def parse(s):
    s = str(s)
    if s in ('True', 'False'):
        return s == 'True'
    try:
        return Fraction(s)
    except ValueError:
        return s


if __name__ == '__main__':
    sys.exit(main())
