"""writes MANIFEST.json: one check per property module in props/, the rest under not_applicable"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {}
TECH = ('symbolic execution of the real Python source (regenerated from /repo each run) with every branch and every '
        'obligation decided by Z3 over all inputs within the bounds; counterexamples replayed on the imported package')


def main():
    props = [json.loads(l) for l in open(os.path.join(ROOT, 'properties.jsonl'))]
    checks, na = [], []
    for p in props:
        i = p['id']
        f = os.path.join(ROOT, 'props', i + '.py')
        if not os.path.exists(f):
            na.append(dict(property=i, reason=NA.get(i, 'no check built yet')))
            continue
        ns = {}
        for line in open(f):
            if line.startswith(('BOUNDS', 'OUTSIDE')):
                exec(line, ns)
        checks.append(dict(property=i, quick_cmd='bash run.sh %s --tier quick' % i,
                           thorough_cmd='bash run.sh %s --tier thorough' % i,
                           technique=TECH, level='model_checking',
                           level_note='bounded: %s. Outside: %s. Exact real arithmetic stands for binary64; library calls '
                                      'follow the contracts encoded in symq/.' % (ns.get('BOUNDS', ''), ns.get('OUTSIDE', ''))))
    m = json.load(open(os.path.join(ROOT, 'MANIFEST.json')))
    m['checks'], m['not_applicable'] = checks, na
    json.dump(m, open(os.path.join(ROOT, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks', len(na), 'not applicable')


main()
