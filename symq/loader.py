"""Loads the quantificationlib sources from /repo's working tree and executes them in the symbolic world."""
import ast
import builtins
import contextlib
import importlib
import os
import sys
import types
import warnings

from . import stubs

REPO = os.environ.get('QL_REPO', '/repo')
PKG = 'quantificationlib'
_CODE = {}
REACHED = set()


def trace_reached():
    """record which functions of the library are executed (evidence)"""
    mon = sys.monitoring
    try:
        mon.use_tool_id(mon.COVERAGE_ID, 'symq')
    except ValueError:
        return

    def start(code, off):
        if code.co_filename.startswith(REPO):
            REACHED.add((os.path.relpath(code.co_filename, REPO), code.co_qualname))
        return mon.DISABLE
    mon.register_callback(mon.COVERAGE_ID, mon.events.PY_START, start)
    mon.set_events(mon.COVERAGE_ID, mon.events.PY_START)


class World:
    """Freshly compiled copies of the package's modules, bound to the facades."""

    def __init__(self):
        self.modules = {}
        self._builtins = stubs.make_builtins(self._import)

    def path_of(self, name):
        p = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(p):
            return os.path.join(p, '__init__.py'), True
        return p + '.py', False

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        path, ispkg = self.path_of(name)
        if not os.path.exists(path):
            raise ModuleNotFoundError("No module named %r" % name, name=name)
        m = types.ModuleType(name)
        m.__file__ = path
        if ispkg:
            m.__path__ = [os.path.dirname(path)]
            m.__package__ = name
        else:
            m.__package__ = name.rpartition('.')[0]
        m.__dict__['__builtins__'] = self._builtins
        self.modules[name] = m
        code = _CODE.get(path)
        if code is None:
            with open(path) as f:
                src = f.read()
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                code = _CODE[path] = compile(src, path, 'exec', dont_inherit=True)
        try:
            exec(code, m.__dict__)
        except BaseException:
            del self.modules[name]
            raise
        parent, _, leaf = name.rpartition('.')
        if parent:
            setattr(self.load(parent), leaf, m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = globals.get('__package__') or globals['__name__'].rpartition('.')[0]
            for _ in range(level - 1):
                base = base.rpartition('.')[0]
            name = base + ('.' + name if name else '')
        top = name.split('.')[0]
        if top == PKG:
            m = self.load(name)
            if not fromlist:
                return self.load(top)
            for n in fromlist:
                if not hasattr(m, n) and hasattr(m, '__path__'):
                    try:
                        self.load(name + '.' + n)
                    except ModuleNotFoundError:
                        pass
            return m
        sp = stubs.special(name) or (stubs.special(top) if not fromlist else None)
        if sp is not None and stubs.special(name) is not None:
            return sp
        if top == 'numpy':
            if not fromlist:
                return stubs.special('numpy')
            if name == 'numpy.linalg':
                return stubs.special('numpy').linalg
            if name == 'numpy.random':
                return stubs.special('numpy').random
        if top in stubs.OVERLAYS:
            importlib.import_module(name)
            if not fromlist:
                return stubs.overlay(top)
            if name in stubs.OVERLAYS:
                return stubs.overlay(name)
            if name.startswith('sklearn.') or name.startswith('scipy.'):
                return stubs.Overlay(name, {})
        return builtins.__import__(name, globals, locals, fromlist, level)


def functions_in(path):
    try:
        t = ast.parse(open(path).read())
    except SyntaxError:
        return []
    out = []

    def rec(node, pre):
        for n in node.body:
            if isinstance(n, (ast.FunctionDef,)):
                out.append((pre + n.name, n.lineno, n.end_lineno))
            elif isinstance(n, ast.ClassDef):
                rec(n, pre + n.name + '.')
    rec(t, '')
    return out


def import_real(name):
    """the real package, imported from the working tree"""
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    return importlib.import_module(PKG + ('.' + name if name else ''))


@contextlib.contextmanager
def fresh_real():
    """the real package imported anew, for the time of the block"""
    import_real('')
    mine = [n for n in sys.modules if n == PKG or n.startswith(PKG + '.')]
    old = {n: sys.modules.pop(n) for n in mine}
    try:
        yield
    finally:
        for n in [n for n in sys.modules if n == PKG or n.startswith(PKG + '.')]:
            del sys.modules[n]
        sys.modules.update(old)
