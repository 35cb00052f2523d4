#!/usr/bin/env python3
"""Writes a copy of /repo whose sources are rewritten without changing what they do.

    python3 tools/refactor.py DIR VARIANT...      (variants: flip, invert, temp, rename, helper, while, index, numpy, noop)

Not a check: `QL_REPO=DIR bash run.sh P06` must stay quiet on the copy.
"""
import ast
import glob
import os
import shutil
import sys
import warnings

warnings.simplefilter('ignore')
REPO = '/repo'
FLIP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}


def expr(s):
    return ast.parse(s, mode='eval').body


class Flip(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in FLIP:
            return ast.Compare(left=n.comparators[0], ops=[FLIP[type(n.ops[0])]()], comparators=[n.left])
        return n


class Invert(ast.NodeTransformer):
    def visit_If(self, n):
        self.generic_visit(n)
        if n.orelse:
            return ast.If(test=ast.UnaryOp(op=ast.Not(), operand=n.test), body=n.orelse, orelse=n.body)
        return n


class Temp(ast.NodeTransformer):
    def visit_Return(self, n):
        if n.value is None:
            return n
        return [ast.Assign(targets=[ast.Name('result_', ast.Store())], value=n.value, lineno=0),
                ast.Return(value=ast.Name('result_', ast.Load()))]

    def visit_Assign(self, n):
        # an attribute or element is computed first
        if len(n.targets) == 1 and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
            return [ast.Assign(targets=[ast.Name('value_', ast.Store())], value=n.value, lineno=0),
                    ast.Assign(targets=n.targets, value=ast.Name('value_', ast.Load()), lineno=0)]
        return n

    def visit_ClassDef(self, n):
        n.body = [self.visit(b) if isinstance(b, ast.FunctionDef) else b for b in n.body]
        return n

    def visit_Module(self, n):
        n.body = [self.visit(b) if isinstance(b, (ast.FunctionDef, ast.ClassDef)) else b for b in n.body]
        return n


class Rename(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        inner = [x for x in ast.walk(n) if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.Global, ast.Nonlocal)) and x is not n]
        if inner:
            return n
        args = {a.arg for a in n.args.args + n.args.kwonlyargs} | {a.arg for a in (n.args.vararg, n.args.kwarg) if a}
        local = {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} - args
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and x.id in local:
                x.id = 'new_' + x.id
        return n


class Helper(ast.NodeTransformer):
    """module level functions and methods call a helper with their body"""
    def visit_Module(self, n):
        out = []
        for b in n.body:
            if isinstance(b, ast.FunctionDef) and not b.decorator_list:
                out += self.split(b, None)
            elif isinstance(b, ast.ClassDef):
                body = []
                for c in b.body:
                    if isinstance(c, ast.FunctionDef) and not c.decorator_list and not c.name.startswith('__') and c.args.args and c.args.args[0].arg == 'self':
                        body += self.split(c, 'self')
                    else:
                        body.append(c)
                b.body = body
                out.append(b)
            else:
                out.append(b)
        n.body = out
        return n

    def split(self, f, me):
        import copy
        if f.args.vararg or f.args.kwarg or f.args.kwonlyargs:
            return [f]
        g = copy.deepcopy(f)
        g.name = '_do_' + f.name
        doc = f.body[:1] if isinstance(f.body[0], ast.Expr) and isinstance(f.body[0].value, ast.Constant) else []
        # super() and the name of the class work the same in a method of the same class; its class name keeps it apart
        g.args.defaults = []
        names = [a.arg for a in f.args.args]
        if me:
            g.name = '_do_%s_%d' % (f.name, f.lineno)
            call = '%s.%s(%s)' % (me, g.name, ', '.join(names[1:]))
        else:
            call = '%s(%s)' % (g.name, ', '.join(names))
        f.body = doc + [ast.Return(value=expr(call))]
        return [g, f]


class While(ast.NodeTransformer):
    def visit_For(self, n):
        self.generic_visit(n)
        c = n.iter
        if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == 'range' and len(c.args) in (1, 2) and not n.orelse and isinstance(n.target, ast.Name)):
            return n
        if any(isinstance(x, (ast.Continue, ast.Break)) for x in ast.walk(n)):
            return n
        i = n.target.id
        a, b = (ast.Constant(0), c.args[0]) if len(c.args) == 1 else c.args
        stop = 'stop_%s_%d' % (i, n.lineno)
        return [ast.Assign(targets=[ast.Name(i, ast.Store())], value=a, lineno=0),
                ast.Assign(targets=[ast.Name(stop, ast.Store())], value=b, lineno=0),
                ast.While(test=expr('%s < %s' % (i, stop)), body=n.body + [ast.parse('%s = %s + 1' % (i, i)).body[0]], orelse=[])]


class Index(ast.NodeTransformer):
    def visit_For(self, n):
        self.generic_visit(n)
        c = n.iter
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == 'enumerate' and len(c.args) == 1 and isinstance(n.target, ast.Tuple) and isinstance(n.target.elts[0], ast.Name):
            i, x = n.target.elts
            name = 'items_%d' % n.lineno
            return [ast.Assign(targets=[ast.Name(name, ast.Store())], value=c.args[0], lineno=0),
                    ast.For(target=i, iter=expr('range(len(%s))' % name), body=[ast.Assign(targets=[x], value=expr('%s[%s]' % (name, i.id)), lineno=0)] + n.body, orelse=n.orelse, lineno=0)]
        return n

    def visit_AugAssign(self, n):
        if isinstance(n.target, ast.Subscript):
            import copy
            load = copy.deepcopy(n.target)
            load.ctx = ast.Load()
            return ast.Assign(targets=[n.target], value=ast.BinOp(left=load, op=n.op, right=n.value), lineno=0)
        return n


class Numpy(ast.NodeTransformer):
    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if not (isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == 'np'):
            return n
        a, k = [ast.unparse(x) for x in n.args], {x.arg: ast.unparse(x.value) for x in n.keywords}
        try:
            if f.attr == 'mean' and len(a) == 1 and set(k) <= {'axis'}:
                if 'axis' in k:
                    return expr('(np.sum(%s, axis=%s) / np.shape(%s)[%s])' % (a[0], k['axis'], a[0], k['axis']))
                return expr('(np.sum(%s) / np.size(%s))' % (a[0], a[0]))
            if f.attr == 'clip' and len(a) == 3:
                return expr('np.minimum(np.maximum(%s, %s), %s)' % tuple(a))
            if f.attr == 'abs':
                return expr('np.absolute(%s)' % a[0])
            if f.attr == 'zeros' and len(a) == 1 and not k:
                return expr('np.full(%s, 0.0)' % a[0])
            if f.attr == 'ones' and len(a) == 1 and not k:
                return expr('(np.zeros(%s) + 1)' % a[0])
            if f.attr == 'argsort' and len(a) == 1 and not k:
                return expr('np.asarray(%s).argsort()' % a[0])
            if f.attr in ('max', 'min') and len(a) == 1 and not k:
                return expr('np.asarray(%s).%s()' % (a[0], f.attr))
            if f.attr == 'square' and len(a) == 1:
                return expr('((%s) ** 2)' % a[0])
            if f.attr == 'append' and len(a) == 2 and not k:
                return expr('np.concatenate((np.ravel(%s), np.ravel(%s)))' % tuple(a))
            if f.attr == 'transpose' and len(a) == 1 and not k:
                return expr('np.asarray(%s).T' % a[0])
            if f.attr == 'equal' and len(a) == 2:
                return expr('(%s == %s)' % tuple(a))
            if f.attr == 'vstack' and len(a) == 1:
                return expr('np.concatenate([np.atleast_2d(v_) for v_ in %s], axis=0)' % a[0])
        except SyntaxError:
            return n
        return n


class Noop(ast.NodeTransformer):
    def visit_FunctionDef(self, n):
        self.generic_visit(n)
        doc = 1 if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else 0
        n.body.insert(doc, ast.parse('unused_ = None').body[0])
        return n


KINDS = dict(flip=Flip, invert=Invert, temp=Temp, rename=Rename, helper=Helper, index=Index, numpy=Numpy, noop=Noop)
KINDS['while'] = While


def main():
    where, kinds = sys.argv[1], sys.argv[2:]
    if os.path.exists(where):
        sys.exit('exists: ' + where)
    shutil.copytree(REPO, where, symlinks=True, ignore=shutil.ignore_patterns('.git'))
    for f in glob.glob(os.path.join(where, 'quantificationlib', '**', '*.py'), recursive=True):
        tree = ast.parse(open(f).read())
        for k in kinds:
            tree = ast.fix_missing_locations(KINDS[k]().visit(tree))
            tree = ast.parse(ast.unparse(tree))
        open(f, 'w').write(ast.unparse(tree) + '\n')


main()
