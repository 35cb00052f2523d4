#!/usr/bin/env python3
"""Plants small changes one at a time in a copy of /repo and reports which of them no check notices.

    python3 tools/mutate.py --out FILE [--files SUBSTR] [--sample N] [--seed N] [--lanes N] [--jobs N]

Not a check: a way to look for holes in the checks. Every surviving change is read by hand afterwards.
"""
import argparse
import ast
import concurrent.futures
import json
import os
import random
import re
import shutil
import subprocess
import tempfile
import warnings

warnings.simplefilter("ignore")
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
COMPARE = {ast.Lt: ['<='], ast.LtE: ['<'], ast.Gt: ['>='], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='],
           ast.Is: ['is not'], ast.IsNot: ['is']}
BINARY = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.FloorDiv: '/'}
NAMES = {'min': 'max', 'max': 'min', 'argmin': 'argmax', 'argmax': 'argmin', 'mean': 'sum', 'zeros': 'ones',
         'ones': 'zeros', 'floor': 'ceil', 'hstack': 'vstack', 'cumsum': 'asarray', 'abs': 'asarray',
         'unique': 'asarray', 'sort': 'asarray', 'argsort': 'argmin', 'mean_': 'sum'}
SWAP = [('train', 'test'), ('low', 'high'), ('left', 'right'), ('pos', 'neg')]


def mutants(path):
    source = open(path).read()
    lines = source.split('\n')
    tree = ast.parse(source)
    starts = [0]
    for line in source.encode().split(b'\n'):
        starts.append(starts[-1] + len(line) + 1)
    raw = source.encode()

    def span(node):
        return (starts[node.lineno - 1] + node.col_offset, starts[node.end_lineno - 1] + node.end_col_offset)

    def text(node):
        a, b = span(node)
        return raw[a:b].decode()

    out = []

    def put(node, new, what):
        a, b = span(node)
        line = lines[node.lineno - 1]
        if 'print(' in line or 'verbose' in line:
            return
        if raw[a:b].decode() == new:
            return
        changed = (raw[:a] + new.encode() + raw[b:]).decode()
        try:
            ast.parse(changed)
        except SyntaxError:
            return
        out.append((node.lineno, what, changed, line.strip()))

    skip = set()
    for node in ast.walk(tree):
        if isinstance(node, (ast.FunctionDef,)) and node.name in ('__str__', '__repr__'):
            skip.update(id(n) for n in ast.walk(node))
        if isinstance(node, ast.Call) and getattr(node.func, 'id', '') == 'print':
            skip.update(id(n) for n in ast.walk(node))
        if isinstance(node, ast.Raise):
            skip.update(id(n) for n in ast.walk(node))
        if isinstance(node, ast.arguments):
            skip.update(id(n) for n in ast.walk(node))
    for node in ast.walk(tree):
        if id(node) in skip:
            continue
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            for op in COMPARE.get(type(node.ops[0]), []):
                put(node, '%s %s %s' % (text(node.left), op, text(node.comparators[0])), 'compare')
        elif isinstance(node, ast.BinOp) and type(node.op) in BINARY:
            put(node, '(%s) %s (%s)' % (text(node.left), BINARY[type(node.op)], text(node.right)), 'binary')
            if isinstance(node.op, (ast.Add, ast.Sub)):
                put(node, text(node.left), 'drop-right')
        elif isinstance(node, ast.BoolOp):
            other = ' or ' if isinstance(node.op, ast.And) else ' and '
            put(node, other.join('(%s)' % text(v) for v in node.values), 'bool')
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.USub, ast.Not)):
            put(node, text(node.operand), 'unary')
        elif isinstance(node, ast.Constant) and type(node.value) in (int, float):
            v = node.value
            put(node, repr(v + 1), 'constant')
            if v == 1:
                put(node, '0', 'constant')
        elif isinstance(node, ast.Constant) and type(node.value) is bool:
            put(node, repr(not node.value), 'constant')
        elif isinstance(node, ast.Attribute) and node.attr in NAMES:
            put(node, text(node.value) + '.' + NAMES[node.attr], 'name')
        elif isinstance(node, ast.If):
            put(node.test, 'True', 'if-true')
            put(node.test, 'False', 'if-false')
        elif isinstance(node, (ast.Assign, ast.AugAssign)) and isinstance(
                node.targets[0] if isinstance(node, ast.Assign) else node.target, (ast.Attribute, ast.Subscript)):
            if not text(node).startswith('self.') or isinstance(node, ast.AugAssign) or True:
                put(node, 'pass', 'delete')
        elif isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
            put(node, 'pass', 'delete')
        elif isinstance(node, ast.Call) and node.keywords:
            for k in node.keywords:
                if k.arg and k.arg != 'verbose':
                    a, b = span(node)
                    piece = raw[a:b].decode()
                    kw = '%s=%s' % (k.arg, text(k.value))
                    new = re.sub(r',\s*' + re.escape(kw) + r'(?=\s*[,)])', '', piece, count=1)
                    put(node, new, 'keyword ' + k.arg)
        if isinstance(node, (ast.Name, ast.Attribute)):
            ident = node.id if isinstance(node, ast.Name) else node.attr
            for x, y in SWAP:
                for p, q in ((x, y), (y, x)):
                    if p in ident.split('_'):
                        new = '_'.join(q if w == p else w for w in ident.split('_'))
                        if re.search(r'\b%s\b' % new, source):
                            put(node, (text(node.value) + '.' if isinstance(node, ast.Attribute) else '') + new, 'swap')
    seen, kept = set(), []
    for m in sorted(out, key=lambda m: m[:2]):
        if m[2] not in seen:
            seen.add(m[2])
            kept.append(m)
    return kept


def relevant():
    table = {}
    for line in open(os.path.join(HERE, 'properties.jsonl')):
        d = json.loads(line)
        for f in set(re.findall(r'quantificationlib/[\w/]+\.py', json.dumps(d))):
            table.setdefault(f, []).append(d['id'])
    return table


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('--out', required=True)
    ap.add_argument('--files', default='')
    ap.add_argument('--sample', type=int, default=0)
    ap.add_argument('--seed', type=int, default=1)
    ap.add_argument('--lanes', type=int, default=2)
    ap.add_argument('--jobs', type=int, default=4)
    ap.add_argument('--list', action='store_true')
    args = ap.parse_args()
    table = relevant()
    todo = []
    for f in sorted(table):
        if any(s in f for s in args.files.split(',')):
            todo += [(f,) + m for m in mutants(os.path.join(REPO, f))]
    random.Random(args.seed).shuffle(todo)
    if args.sample:
        todo = todo[:args.sample]
    if args.list:
        print(len(todo))
        return
    base = tempfile.mkdtemp(prefix='mutate.', dir='/tmp')
    lanes = []
    for i in range(args.lanes):
        lane = os.path.join(base, 'lane%d' % i)
        shutil.copytree(REPO, lane, symlinks=True)
        lanes.append(lane)
    out = open(args.out, 'a')

    def one(m):
        f, line, what, changed, old = m
        lane = lanes.pop()
        try:
            target = os.path.join(lane, f)
            original = open(os.path.join(REPO, f)).read()
            open(target, 'w').write(changed)
            env = dict(os.environ, QL_REPO=lane)
            verdict = 'SURVIVED'
            new = changed.split('\n')[line - 1].strip()
            for prop in table[f]:
                try:
                    r = subprocess.run(['bash', os.path.join(HERE, 'run.sh'), prop, '--no-evidence', '-j',
                                        str(args.jobs)], env=env, capture_output=True, text=True, timeout=600)
                except subprocess.TimeoutExpired:
                    verdict = 'TIMEOUT ' + prop
                    continue
                if r.returncode == 1 and 'VIOLATION property=' + prop in r.stdout:
                    verdict = 'caught ' + prop
                    break
                if r.returncode not in (0, 1):
                    verdict = 'rc=%d %s' % (r.returncode, prop)
            if not verdict.startswith('caught'):
                r = subprocess.run(['timeout', '120', '/opt/venv/bin/python', '-W', 'ignore', '-m', 'pytest', '-q',
                                    '-x', '-p', 'no:cacheprovider'], cwd=lane, capture_output=True, text=True,
                                   env=dict(env, PYTHONPATH=lane))
                verdict += ' tests=%s' % ('pass' if r.returncode == 0 else 'FAIL%d' % r.returncode)
            open(target, 'w').write(original)
            out.write('%s:%d [%s] %s\n    - %s\n    + %s\n' % (f, line, what, verdict, old, new))
            out.flush()
        finally:
            lanes.append(lane)

    with concurrent.futures.ThreadPoolExecutor(args.lanes) as pool:
        for fut in [pool.submit(one, m) for m in todo]:
            fut.result()
    shutil.rmtree(base)


main()
