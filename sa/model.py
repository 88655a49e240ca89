"""Source model: every module of the package as parsed from /repo's working tree."""
import ast
import os
import sys
import warnings

REPO = os.environ.get('SA_REPO', '/repo')
PKG = 'rsbeams'


class AnalysisBroken(Exception):
    """an anchor the rule needs is gone: the check cannot give an answer"""


class Module:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.rel = os.path.relpath(path, REPO)
        self.ispkg = os.path.basename(path) == '__init__.py'


class Project:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.modules = {}
        self.errors = []
        root = os.path.join(self.repo, PKG)
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ('__pycache__', 'tests', 'package_data'))
            for f in sorted(fs):
                if f.endswith('.py'):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, self.repo)
                    name = rel[:-3].replace(os.sep, '.')
                    if name.endswith('.__init__'):
                        name = name[:-9]
                    with open(p, encoding='utf-8') as h:
                        src = h.read()
                    with warnings.catch_warnings():
                        warnings.simplefilter('ignore')
                        try:
                            tree = ast.parse(src, p)
                        except SyntaxError as e:
                            raise AnalysisBroken('cannot parse %s: %s' % (rel, e))
                    self.modules[name] = Module(name, p, tree, src)
        if not self.modules:
            raise AnalysisBroken('no modules found under %s' % root)

    def mod(self, name):
        m = self.modules.get(name)
        if m is None:
            raise AnalysisBroken('module %s not found' % name)
        return m

    def find(self, modname, qual):
        """AST node of a top-level function/class or Class.method"""
        m = self.mod(modname)
        body = m.tree.body
        node = None
        for part in qual.split('.'):
            node = None
            for n in _flat(body):
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == part:
                    node = n
            if node is None:
                raise AnalysisBroken('%s.%s not found' % (modname, qual))
            body = node.body
        return node


def _flat(body):
    for n in body:
        yield n
        if isinstance(n, (ast.If, ast.Try, ast.With)):
            for f in ('body', 'orelse', 'finalbody'):
                yield from _flat(getattr(n, f, []))


def functions(tree):
    """(qualname, node, class node or None) for every def in a module, nested included"""
    def go(body, pre, cls):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                q = pre + n.name
                yield q, n, cls
                yield from go(n.body, q + '.', None)
            elif isinstance(n, ast.ClassDef):
                yield from go(n.body, pre + n.name + '.', n)
            else:
                for f in ('body', 'orelse', 'finalbody', 'handlers'):
                    sub = getattr(n, f, None)
                    if isinstance(sub, list):
                        for s in sub:
                            if isinstance(s, ast.ExceptHandler):
                                yield from go(s.body, pre, cls)
                        yield from go([s for s in sub if not isinstance(s, ast.ExceptHandler)], pre, cls)
    yield from go(tree.body, '', None)


def walk_scope(node):
    """walk a function/class/module body without entering nested function or class bodies"""
    todo = list(ast.iter_child_nodes(node)) if not isinstance(node, list) else list(node)
    while todo:
        n = todo.pop(0)
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        todo[0:0] = list(ast.iter_child_nodes(n))
