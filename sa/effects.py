"""Effects of every function on the data it is given and on state that outlives the call.

A flow-sensitive, interprocedural alias analysis over the syntax trees: every expression is
mapped to the roots whose storage it may share (parameters, default values, class attributes,
module variables, fields of self); stores, in-place operators, mutating methods and `out=`
arguments are recorded against these roots.  Nothing is executed.
"""
import ast
from collections import namedtuple
from .model import functions, walk_scope

V = namedtuple('V', 'own elem')
E0 = frozenset()
FRESH = V(E0, E0)
# a root: (kind, name, depth, sure)   kind: param, default, classattr, global, field, capture
MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'update', 'setdefault', 'popitem', 'add', 'discard',
            'fill', 'put', 'itemset', 'partition', 'appendleft', 'popleft', 'extendleft', '__setitem__', '__delitem__', 'setfield', 'byteswap',
            'difference_update', 'intersection_update', 'symmetric_difference_update', 'rotate', 'pksetdefault', 'pkupdate', 'move_to_end'}
VIEWS = {'reshape', 'ravel', 'transpose', 'squeeze', 'view', 'swapaxes', 'diagonal'}
INNER = {'values', 'items', 'keys', 'get', 'pop', 'setdefault', 'popitem', '__getitem__', 'pkunchecked_nested_get'}
COPIES = {'copy', 'deepcopy', 'flatten', 'tolist', 'astype', '__copy__', 'compressed'}
NP_ALIAS = {'asarray', 'asanyarray', 'ascontiguousarray', 'asfortranarray', 'atleast_1d', 'atleast_2d', 'reshape', 'ravel', 'squeeze', 'transpose',
            'broadcast_to', 'swapaxes', 'moveaxis', 'expand_dims', 'flip', 'fliplr', 'flipud', 'rot90', 'real', 'imag', 'diagonal', 'split', 'array_split',
            'require', 'frombuffer', 'asmatrix'}
NP_OF_ARRAY = {'average', 'mean', 'std', 'var', 'sum', 'dot', 'sort', 'argsort', 'argmax', 'argmin', 'cumsum', 'histogram', 'diff', 'interp', 'searchsorted', 'max', 'min',
               'concatenate', 'fft', 'shape', 'size', 'linalg', 'cov', 'median', 'ptp'}
NP_MUT = {'copyto', 'put', 'place', 'putmask', 'fill_diagonal', 'put_along_axis'}
CONTAINERS = {'list', 'dict', 'set', 'tuple', 'sorted', 'reversed', 'OrderedDict', 'frozenset', 'iter', 'filter', 'PKDict', 'deque'}
MUTABLE_CALLS = {'list', 'dict', 'set', 'OrderedDict', 'defaultdict', 'zeros', 'ones', 'empty', 'array', 'PKDict', 'deque', 'full', 'Counter', 'bytearray'}
ARRAYISH = {'shape', 'size', 'T', 'ndim', 'dtype', 'flat', 'mean', 'sum', 'dot', 'transpose', 'reshape', 'append', 'extend', 'items', 'keys', 'values'}


def join(*vs):
    return V(frozenset().union(*[v.own for v in vs]), frozenset().union(*[v.elem for v in vs])) if vs else FRESH


def inner(v, sure=True):
    """what is stored inside v"""
    return V(frozenset((k, n, 1, s and sure) for k, n, d, s in v.own) | v.elem, frozenset((k, n, 1, s and sure) for k, n, d, s in v.own | v.elem))


def unsure(v):
    return V(frozenset((k, n, d, False) for k, n, d, s in v.own), frozenset((k, n, d, False) for k, n, d, s in v.elem))


def mutable_literal(n):
    if isinstance(n, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(n, ast.Call):
        f = n.func
        nm = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else ''
        return nm in MUTABLE_CALLS
    return False


def role(n):
    """getter, setter, deleter of a property, or method"""
    for d in n.decorator_list:
        if isinstance(d, ast.Name) and d.id in ('property', 'cached_property') or isinstance(d, ast.Attribute) and d.attr in ('cached_property', 'getter'):
            return 'getter'
        if isinstance(d, ast.Attribute) and d.attr in ('setter', 'deleter'):
            return d.attr
    return 'method'


class ClassInfo:
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.methods, self.setters, self.others = {}, {}, {}
        self.properties = set()
        self.attrs = {}
        self.assigned = set()       # attributes assigned through self, anywhere
        self.init_assigned = set()
        for n in node.body:
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                k = role(n)
                (self.setters if k == 'setter' else self.others if k == 'deleter' else self.methods)[n.name] = n
                if k == 'getter':
                    self.properties.add(n.name)
            elif isinstance(n, (ast.Assign, ast.AnnAssign)):
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    if isinstance(t, ast.Name) and n.value is not None:
                        self.attrs[t.id] = n.value
        for m in [*self.methods.values(), *self.setters.values()]:
            for x in ast.walk(m):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id == 'self':
                    self.assigned.add(x.attr)
                    if m.name in ('__init__', '__new__', '__setstate__'):
                        self.init_assigned.add(x.attr)


class Summary:
    def __init__(self):
        self.mut = {}           # root -> (loc, how): what a call changes
        self.ret = FRESH
        self.stored = {}        # (attr, root) -> loc
        self.unsure = {}
        self.rebind = {}        # attribute of self given a new value -> (loc, how)

    def key(self):
        return (frozenset(self.mut), self.ret, frozenset(self.stored), frozenset(self.unsure), frozenset(self.rebind))


class Effects:
    def __init__(self, project):
        self.p = project
        self.classes = {}           # name -> [ClassInfo]
        self.funcs = {}             # (mod, qual) -> (node, ClassInfo or None)
        self.globals = {}           # mod -> {name: node}
        self.imports = {}           # mod -> {alias: dotted}
        self.bynode = {}
        self.summaries = {}
        self.events = []
        for mn, m in project.modules.items():
            self.imports[mn] = imports(m)
            self.globals[mn] = {}
            for n in walk_scope(m.tree):
                if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
                    for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                        if isinstance(t, ast.Name):
                            self.globals[mn][t.id] = n.value
            cinfo = {}
            for n in ast.walk(m.tree):
                if isinstance(n, ast.ClassDef):
                    cinfo[n] = ClassInfo(mn, n)
                    self.classes.setdefault(n.name, []).append(cinfo[n])
            for q, n, cls in functions(m.tree):
                if role(n) in ('setter', 'deleter'):
                    q += '.' + role(n)
                self.funcs[mn, q] = (n, cinfo.get(cls))
                self.bynode[n] = (mn, q)
        # attributes that are views of the array of their object, wherever they are defined
        views, other = set(), set()
        for cs in self.classes.values():
            for c in cs:
                for p in c.properties:
                    r = [x.value for x in ast.walk(c.methods[p]) if isinstance(x, ast.Return)]
                    ok = r and all(isinstance(x, ast.Subscript) and any(isinstance(y, ast.Slice) for y in (x.slice.elts if isinstance(x.slice, ast.Tuple) else [])) for x in r)
                    (views if ok else other).add(p)
                other |= c.assigned | set(c.attrs)
        self.viewattrs = views - other
        for _ in range(6):
            before = {k: s.key() for k, s in self.summaries.items()}
            for (mn, q), (n, ci) in self.funcs.items():
                f = Fn(self, mn, q, n, ci)
                self.summaries[mn, q] = f.run()
            if before == {k: s.key() for k, s in self.summaries.items()}:
                break

    def bases(self, ci):
        out = [ci]
        for b in ci.node.bases:
            nm = b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else None
            for c in self.classes.get(nm, []):
                if c is not ci:
                    out += self.bases(c)
        return out

    def method(self, ci, name):
        for c in self.bases(ci):
            if name in c.methods:
                return c.methods[name]
        return None

    def resolve(self, mod, dotted):
        """package function or class a dotted name of a module denotes"""
        if dotted is None:
            return None
        if (mod, dotted) in self.funcs:
            return self.funcs[mod, dotted]
        for c in self.classes.get(dotted, []):
            if c.mod == mod:
                return c
        head, _, rest = dotted.partition('.')
        full = self.imports[mod].get(head)
        if full is None:
            return None
        full = full + ('.' + rest if rest else '')
        m, _, nm = full.rpartition('.')
        if m in self.p.modules:
            if (m, nm) in self.funcs:
                return self.funcs[m, nm]
            for c in self.classes.get(nm, []):
                if c.mod == m:
                    return c
        return None


def imports(m):
    out = {}
    for n in ast.walk(m.tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                out[a.asname or a.name.split('.')[0]] = a.name if a.asname else a.name.split('.')[0]
        elif isinstance(n, ast.ImportFrom):
            base = n.module or ''
            if n.level:
                pk = m.name.split('.')
                pk = pk[:len(pk) - n.level + (1 if m.ispkg else 0)]
                base = '.'.join(pk + ([n.module] if n.module else []))
            for a in n.names:
                out[a.asname or a.name] = (base + '.' if base else '') + a.name
    return out


def dotted(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        b = dotted(n.value)
        return None if b is None else b + '.' + n.attr
    return None


class Fn:
    """one function: environment of local names -> V"""

    def __init__(self, e, mod, qual, node, ci):
        self.e, self.mod, self.qual, self.node, self.ci = e, mod, qual, node, ci
        self.s = Summary()
        a = node.args
        ps = a.posonlyargs + a.args
        self.env = {}
        self.params = [x.arg for x in ps]
        self.self_ = None
        static = any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in node.decorator_list)
        if ci is not None and ps and not static:
            self.self_ = ps[0].arg
        dd = dict(zip([x.arg for x in ps][len(ps) - len(a.defaults):], a.defaults))
        dd.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for x in ps + a.kwonlyargs:
            r = {('param', x.arg, 0, True)} if x.arg != self.self_ else set()
            if x.arg in dd and mutable_literal(dd[x.arg]):
                r.add(('default', x.arg, 0, True))
            self.env[x.arg] = V(frozenset(r), E0)
        for x, k in ((a.vararg, 'v'), (a.kwarg, 'k')):
            if x is not None:
                # a new tuple / dict per call: only what is inside is the caller's
                self.env[x.arg] = V(E0, frozenset({('param', x.arg, 1, True)}))
        self.locals = set(self.env)
        self.globals_ = set()
        for n in walk_scope(node):
            if isinstance(n, ast.Global):
                self.globals_ |= set(n.names)
        for n in walk_scope(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in self.globals_:
                self.locals.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                self.locals.add(n.name)
        self.fancy = set()          # names that hold masks or index lists
        self.array = set()          # names used as arrays or containers
        self.numeric = set()        # names known to hold arrays of numbers
        for n in ast.walk(node):
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name):
                self.array.add(n.value.id)
            elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.attr in ARRAYISH:
                self.array.add(n.value.id)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'len' and n.args and isinstance(n.args[0], ast.Name):
                self.array.add(n.args[0].id)
            elif isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.iter, ast.Name):
                self.array.add(n.iter.id)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and \
                    (e.imports[mod].get(n.func.value.id) or '').split('.')[0] == 'numpy' and n.func.attr in NP_OF_ARRAY and n.args and isinstance(n.args[0], ast.Name):
                self.numeric.add(n.args[0].id)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name) and self.view(n.value):
                        self.numeric.add(t.id)
                    elif isinstance(t, (ast.Tuple, ast.List)) and isinstance(n.value, (ast.Tuple, ast.List)) and len(t.elts) == len(n.value.elts):
                        for a_, b_ in zip(t.elts, n.value.elts):
                            if isinstance(a_, ast.Name) and self.view(b_):
                                self.numeric.add(a_.id)

    def view(self, n):
        """an expression whose value is a view of an array"""
        if isinstance(n, ast.Subscript):
            return isinstance(n.slice, ast.Tuple) and any(isinstance(x, ast.Slice) for x in n.slice.elts)
        if isinstance(n, ast.Attribute):
            return n.attr in self.e.viewattrs or n.attr == 'T'
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name):
            return n.func.attr in NP_ALIAS and (self.e.imports[self.mod].get(n.func.value.id) or '').split('.')[0] == 'numpy'
        return False

    def run(self):
        self.block(self.node.body, self.env)
        return self.s

    # ------------------------------------------------------------ recording
    def mutate(self, v, node, how, sure=True):
        for k, n, d, s in v.own:
            (self.s.mut if s and sure else self.s.unsure).setdefault((k, n), (node.lineno, how, self.mod, self.qual))

    def setter(self, attr):
        if self.ci is not None:
            for c in self.e.bases(self.ci):
                if attr in c.setters:
                    return c.setters[attr]
                if attr in c.methods:
                    return None
        return None

    def rebound(self, attr, node):
        m = self.setter(attr)
        s = self.e.summaries.get(self.e.bynode.get(m)) if m is not None else None
        if s is not None:
            for a in s.rebind:
                self.s.rebind.setdefault(a, (node.lineno, 'assignment of %s' % attr, self.mod, self.qual))
            return
        self.s.rebind.setdefault(attr, (node.lineno, 'assignment', self.mod, self.qual))

    def store(self, attr, v, node):
        for r in v.own:
            if r[2] == 0:
                self.s.stored.setdefault((attr, r[:2]), (node.lineno, self.mod, self.qual))

    # ------------------------------------------------------------ statements
    def block(self, body, env):
        """environment afterwards, None when the end is not reached"""
        for st in body:
            env = self.stmt(st, env)
            if env is None:
                return None
        return env

    def merge(self, *es):
        es = [e for e in es if e is not None]
        if not es:
            return None
        out = dict(es[0])
        for e in es[1:]:
            for k in set(out) | set(e):
                if k in out and k in e:
                    out[k] = join(out[k], e[k])
                else:
                    out[k] = out.get(k) or e.get(k)
        return out

    def stmt(self, st, env):
        t = type(st)
        if t is ast.Assign:
            v = self.ev(st.value, env)
            env = dict(env)
            for x in st.targets:
                self.bind(x, v, env, st.value)
            return env
        if t is ast.AnnAssign:
            if st.value is not None:
                v = self.ev(st.value, env)
                env = dict(env)
                self.bind(st.target, v, env, st.value)
            return env
        if t is ast.AugAssign:
            v = self.ev(st.value, env)
            x = st.target
            if isinstance(x, ast.Name):
                old = self.load(x.id, env)
                text = isinstance(st.value, (ast.JoinedStr,)) or isinstance(st.value, ast.Constant) and isinstance(st.value.value, (str, bytes))
                if old.own and not text:
                    if x.id in self.globals_:
                        self.s.mut.setdefault(('global', (self.mod, x.id)), (st.lineno, 'assignment', self.mod, self.qual))
                    deep = all(d for _, _, d, _ in old.own)
                    self.mutate(old, st, 'in-place operator', x.id in self.numeric or x.id in self.array and not deep)
                elif x.id in self.globals_:
                    self.s.mut.setdefault(('global', (self.mod, x.id)), (st.lineno, 'assignment', self.mod, self.qual))
            elif isinstance(x, ast.Subscript):
                self.ev(x.slice, env)
                self.mutate(self.ev(x.value, env), st, 'in-place operator on an element')
            elif isinstance(x, ast.Attribute):
                o = self.ev(x, env)
                self.mutate(o, st, 'in-place operator', False)
                if isinstance(x.value, ast.Name) and x.value.id == self.self_:
                    self.rebound(x.attr, st)
                elif isinstance(x.value, ast.Name) and x.value.id in env or not isinstance(x.value, ast.Name):
                    self.mutate(self.ev(x.value, env), st, 'attribute assignment')
            return env
        if t is ast.Expr:
            self.ev(st.value, env)
            return env
        if t is ast.Return:
            if st.value is not None:
                self.s.ret = join(self.s.ret, self.ev(st.value, env))
            return None
        if t is ast.Raise:
            for x in (st.exc, st.cause):
                if x is not None:
                    self.ev(x, env)
            return None
        if t is ast.If:
            self.ev(st.test, env)
            return self.merge(self.block(st.body, dict(env)), self.block(st.orelse, dict(env)))
        if t in (ast.For, ast.AsyncFor):
            v = self.ev(st.iter, env)
            e = dict(env)
            for _ in range(2):
                self.target(st.target, st.iter, v, e)
                b = self.block(st.body, dict(e))
                e = self.merge(e, b, env)
            o = self.block(st.orelse, dict(e)) if st.orelse else e
            return self.merge(e, o)
        if t is ast.While:
            e = dict(env)
            for _ in range(2):
                self.ev(st.test, e)
                b = self.block(st.body, dict(e))
                e = self.merge(e, b)
            return self.block(st.orelse, e) if st.orelse else e
        if t in (ast.With, ast.AsyncWith):
            env = dict(env)
            for i in st.items:
                v = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, v, env, i.context_expr)
            return self.block(st.body, env)
        if t.__name__ in ('Try', 'TryStar'):
            b = self.block(st.body, dict(env))
            # a handler may start after any statement of the body
            start = self.merge(env, self.partial(st.body, dict(env)))
            hs = []
            for h in st.handlers:
                hs.append(self.block(h.body, dict(start)))
            if b is not None and st.orelse:
                b = self.block(st.orelse, b)
            r = self.merge(b, *hs)
            if st.finalbody:
                f = self.block(st.finalbody, dict(r) if r is not None else dict(start))
                r = f if r is not None else None
            return r
        if t is ast.Delete:
            for x in st.targets:
                if isinstance(x, ast.Subscript):
                    self.mutate(self.ev(x.value, env), st, 'del')
            return env
        if t in (ast.FunctionDef, ast.AsyncFunctionDef):
            return self.nested(st, env)
        if t in (ast.Break, ast.Continue):
            return env      # joined with the state after the loop
        if t is ast.Assert:
            self.ev(st.test, env)
            return env
        if t.__name__ == 'Match':
            self.ev(st.subject, env)
            return self.merge(env, *[self.block(c.body, dict(env)) for c in st.cases])
        return env

    def partial(self, body, env):
        out = dict(env)
        for st in body:
            e = self.stmt(st, dict(env))
            if e is None:
                break
            env = e
            out = self.merge(out, env)
        return out

    def nested(self, st, env):
        # captured storage: the body is analysed with what the names hold here
        sub = Fn(self.e, self.mod, self.qual + '.' + st.name, st, None)
        base = {k: v for k, v in env.items() if k not in sub.locals}
        e = dict(base)
        e.update(sub.env)
        pars = set(sub.params)
        # keep parameters of the nested function apart from those of this one
        for p in sub.env:
            e[p] = V(frozenset(('inner', n, d, s) for k, n, d, s in sub.env[p].own), E0)
        sub.locals |= set(base)
        sub.block(st.body, e)
        for k, x in sub.s.mut.items():
            if k[0] != 'inner':
                self.s.mut.setdefault(k, x)
        for k, x in sub.s.unsure.items():
            if k[0] != 'inner':
                self.s.unsure.setdefault(k, x)
        env = dict(env)
        env[st.name] = FRESH
        return env

    def target(self, t, it, v, env):
        """loop variable"""
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id in ('enumerate', 'zip') and isinstance(t, (ast.Tuple, ast.List)):
            args = it.args
            parts = [inner(self.ev(a, env)) for a in args]
            if it.func.id == 'enumerate':
                parts = [FRESH] + parts[:1]
            if len(parts) == len(t.elts):
                for x, p in zip(t.elts, parts):
                    self.bind(x, p, env, None)
                return
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == 'items' and isinstance(t, (ast.Tuple, ast.List)) and len(t.elts) == 2:
            self.bind(t.elts[0], FRESH, env, None)
            self.bind(t.elts[1], inner(self.ev(it.func.value, env)), env, None)
            return
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'range':
            self.bind(t, FRESH, env, None)
            return
        self.bind(t, inner(v), env, None)

    def bind(self, x, v, env, src):
        if isinstance(x, ast.Name):
            if x.id in self.globals_:
                self.s.mut.setdefault(('global', (self.mod, x.id)), (x.lineno, 'assignment', self.mod, self.qual))
                return
            env[x.id] = v
            if isinstance(src, (ast.Compare, ast.List, ast.ListComp)) or isinstance(src, ast.BinOp) and isinstance(src.op, (ast.BitAnd, ast.BitOr)) or \
                    isinstance(src, ast.UnaryOp) and isinstance(src.op, ast.Invert) or isinstance(src, ast.Call) and isinstance(src.func, ast.Attribute) and \
                    src.func.attr in ('where', 'argsort', 'nonzero', 'flatnonzero', 'arange', 'permutation', 'choice', 'isin', 'isfinite', 'array'):
                self.fancy.add(x.id)
        elif isinstance(x, (ast.Tuple, ast.List)):
            srcs = src.elts if isinstance(src, (ast.Tuple, ast.List)) and len(src.elts) == len(x.elts) and not any(isinstance(q, ast.Starred) for q in src.elts) else None
            for i, q in enumerate(x.elts):
                if isinstance(q, ast.Starred):
                    self.bind(q.value, V(E0, inner(v).own), env, None)
                elif srcs is not None:
                    self.bind(q, self.ev(srcs[i], env), env, srcs[i])
                else:
                    self.bind(q, inner(v), env, None)
        elif isinstance(x, ast.Subscript):
            self.ev(x.slice, env)
            o = self.ev(x.value, env)
            self.mutate(o, x, 'item assignment')
            # what is put into a local container is reachable through it
            if isinstance(x.value, ast.Name) and x.value.id in env:
                env[x.value.id] = V(o.own, o.elem | v.own)
        elif isinstance(x, ast.Attribute):
            if isinstance(x.value, ast.Name) and x.value.id == self.self_:
                m = self.setter(x.attr)
                if m is not None:
                    self.apply(m, x, [None], [v], {}, env, True, skip=1)
                    return
                self.store(x.attr, v, x)
                self.rebound(x.attr, x)
                env['self.' + x.attr] = v
            elif not isinstance(x.value, ast.Name):
                self.mutate(self.ev(x.value, env), x, 'attribute assignment')
            elif x.value.id in env:
                self.mutate(env[x.value.id], x, 'attribute assignment')
            else:
                cl = self.e.resolve(self.mod, dotted(x.value))
                if isinstance(cl, ClassInfo) or x.value.id == 'cls':
                    self.s.mut.setdefault(('classattr', (x.value.id, x.attr)), (x.lineno, 'assignment', self.mod, self.qual))
                elif self.e.imports[self.mod].get(x.value.id) in self.e.p.modules and x.value.id not in self.locals:
                    self.s.mut.setdefault(('global', (self.e.imports[self.mod][x.value.id], x.attr)), (x.lineno, 'assignment', self.mod, self.qual))
        elif isinstance(x, ast.Starred):
            self.bind(x.value, v, env, None)

    # ------------------------------------------------------------ expressions
    def load(self, name, env):
        if name in env:
            return env[name]
        if name in self.locals:
            return FRESH
        g = self.e.globals[self.mod].get(name)
        if g is not None:
            return V(frozenset({('global', (self.mod, name), 0, True)}), E0) if mutable_literal(g) or name in self.globals_ else FRESH
        full = self.e.imports[self.mod].get(name)
        if full:
            m, _, nm = full.rpartition('.')
            g = self.e.globals.get(m, {}).get(nm)
            if g is not None and mutable_literal(g):
                return V(frozenset({('global', (m, nm), 0, True)}), E0)
        return FRESH

    def evs(self, ns, env):
        return [self.ev(n, env) for n in ns]

    def ev(self, n, env):
        t = type(n)
        if t is ast.Name:
            return self.load(n.id, env)
        if t is ast.Constant or n is None:
            return FRESH
        if t is ast.Attribute:
            if isinstance(n.value, ast.Name):
                if n.value.id == self.self_ and self.self_ is not None:
                    if self.ci is not None:
                        for c in self.e.bases(self.ci):
                            if n.attr in c.properties:
                                return self.apply(c.methods[n.attr], n, [], [], {}, env, True, skip=1)
                            if n.attr in c.attrs:
                                break
                    return self.field(n.attr, env)
                ci = self.e.resolve(self.mod, n.value.id)
                if isinstance(ci, ClassInfo) and n.value.id not in env:
                    return self.classattr(ci, n.attr)
                m = self.e.imports[self.mod].get(n.value.id)
                if m in self.e.p.modules and n.value.id not in env:
                    g = self.e.globals[m].get(n.attr)
                    return V(frozenset({('global', (m, n.attr), 0, True)}), E0) if g is not None and mutable_literal(g) else FRESH
            if n.attr == '__class__' or n.attr in ('shape', 'size', 'ndim', 'dtype', '__name__'):
                self.ev(n.value, env)
                return FRESH
            v = self.ev(n.value, env)
            if n.attr in ('T', 'real', 'imag', 'flat'):
                return v
            # an attribute of an object passed in is state of that object
            return V(frozenset((k, nm, 1, s) for k, nm, d, s in v.own), E0)
        if t is ast.Subscript:
            v = self.ev(n.value, env)
            self.ev(n.slice, env)
            if self.is_fancy(n.slice, env):
                return V(E0, inner(v).own)
            if isinstance(n.slice, ast.Slice) and not (isinstance(n.value, ast.Name) and self.arrayish(n.value.id)):
                # a copy of a list, a view of an array
                return V(frozenset((k, nm, 1, False) for k, nm, d, s in v.own), inner(v).own)
            return inner(v)
        if t is ast.Call:
            return self.call(n, env)
        if t in (ast.List, ast.Tuple, ast.Set):
            vs = [inner(self.ev(x.value, env)) if isinstance(x, ast.Starred) else self.ev(x, env) for x in n.elts]
            return V(E0, frozenset().union(*[v.own | v.elem for v in vs]))
        if t is ast.Dict:
            self.evs([k for k in n.keys if k is not None], env)
            vs = [self.ev(v, env) if k is not None else inner(self.ev(v, env)) for k, v in zip(n.keys, n.values)]
            return V(E0, frozenset().union(*[v.own | v.elem for v in vs]))
        if t is ast.IfExp:
            self.ev(n.test, env)
            return join(self.ev(n.body, env), self.ev(n.orelse, env))
        if t is ast.BoolOp:
            return join(*self.evs(n.values, env))
        if t is ast.NamedExpr:
            v = self.ev(n.value, env)
            self.bind(n.target, v, env, n.value)
            return v
        if t in (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp):
            e = dict(env)
            for g in n.generators:
                self.target(g.target, g.iter, self.ev(g.iter, e), e)
                self.evs(g.ifs, e)
            if t is ast.DictComp:
                self.ev(n.key, e)
                v = self.ev(n.value, e)
            else:
                v = self.ev(n.elt, e)
            return V(E0, v.own | v.elem)
        if t is ast.Lambda:
            e = dict(env)
            for a in n.args.posonlyargs + n.args.args + n.args.kwonlyargs:
                e[a.arg] = FRESH
            self.ev(n.body, e)
            return FRESH
        if t in (ast.Yield, ast.Await, ast.YieldFrom):
            if n.value is not None:
                v = self.ev(n.value, env)
                self.s.ret = join(self.s.ret, V(E0, v.own | v.elem))
            return FRESH
        if t is ast.BinOp and isinstance(n.op, ast.Add):
            a, b = self.ev(n.left, env), self.ev(n.right, env)
            return V(E0, a.elem | b.elem)
        for x in ast.iter_child_nodes(n):
            if isinstance(x, ast.expr):
                self.ev(x, env)
        return FRESH

    def arrayish(self, name):
        return False

    def is_fancy(self, k, env):
        if isinstance(k, ast.Tuple):
            return any(self.is_fancy(x, env) for x in k.elts)
        if isinstance(k, (ast.Compare, ast.List, ast.ListComp)):
            return True
        if isinstance(k, ast.UnaryOp) and isinstance(k.op, ast.Invert):
            return True
        if isinstance(k, ast.BinOp) and isinstance(k.op, (ast.BitAnd, ast.BitOr)):
            return True
        if isinstance(k, ast.Call):
            f = k.func
            return isinstance(f, ast.Attribute) and f.attr in ('where', 'argsort', 'nonzero', 'flatnonzero', 'arange')
        return isinstance(k, ast.Name) and k.id in self.fancy

    def field(self, attr, env):
        k = 'self.' + attr
        if k in env:
            return env[k]
        r = {('field', attr, 0, True)}
        if self.ci is not None:
            for c in self.e.bases(self.ci):
                if attr in c.attrs and mutable_literal(c.attrs[attr]):
                    if not any(attr in b.assigned for b in self.e.bases(self.ci)):
                        r.add(('classattr', (c.name, attr), 0, True))
                    elif not any(attr in b.init_assigned for b in self.e.bases(self.ci)):
                        r.add(('classattr', (c.name, attr), 0, False))
                    break
        return V(frozenset(r), E0)

    def classattr(self, ci, attr):
        for c in self.e.bases(ci):
            if attr in c.attrs and mutable_literal(c.attrs[attr]):
                return V(frozenset({('classattr', (c.name, attr), 0, True)}), E0)
        return FRESH

    def call(self, n, env):
        f = n.func
        args = [(x.value if isinstance(x, ast.Starred) else x) for x in n.args]
        vs = self.evs(args, env)
        kws = {k.arg: self.ev(k.value, env) for k in n.keywords}
        if 'out' in kws:
            self.mutate(kws['out'], n, 'out=')
            for k in n.keywords:
                if k.arg == 'out' and isinstance(k.value, ast.Tuple):
                    for x in k.value.elts:
                        self.mutate(self.ev(x, env), n, 'out=')
        name = dotted(f)
        last = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
        star = any(isinstance(x, ast.Starred) for x in n.args)
        # ---- package code
        target, recv = None, None
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == self.self_ and self.self_ is not None and self.ci is not None:
            m = self.e.method(self.ci, f.attr)
            if m is not None:
                target, recv = m, 'self'
        elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super' and self.ci is not None:
            for c in self.e.bases(self.ci)[1:]:
                if f.attr in c.methods:
                    target, recv = c.methods[f.attr], 'self'
                    break
        elif name is not None and name.split('.')[0] not in env:
            r = self.e.resolve(self.mod, name)
            if isinstance(r, ClassInfo):
                m = self.e.method(r, '__init__')
                if m is not None:
                    self.apply(m, n, args, vs, kws, env, False, skip=1)
                return V(E0, frozenset().union(*[v.own for v in vs], *[v.own for v in kws.values()]) if False else E0)
            if r is not None:
                target, recv = r[0], None
        if target is None and isinstance(f, ast.Attribute) and f.attr not in MUTATORS | VIEWS | INNER | COPIES and recv is None and not (name and name.split('.')[0] in self.e.imports[self.mod] and name.split('.')[0] not in env):
            cands = [c.methods[f.attr] for cs in self.e.classes.values() for c in cs if f.attr in c.methods]
            if len(cands) == 1 and not star:
                o = self.ev(f.value, env)
                cs = self.e.summaries.get(self.e.bynode.get(cands[0]))
                if cs is not None and cs.rebind or cs is not None and any(r[0] == 'field' for r in cs.mut):
                    # a method that changes its object, called on something that is not new here
                    self.mutate(o, n, 'call of %s' % self.e.bynode[cands[0]][1], '_' in f.attr.strip('_'))
                self.apply(cands[0], n, args, vs, kws, env, False, skip=1, fields=False)
                return unsure(inner(self.ev(f.value, env)))
        if target is not None and not star:
            deco = [dotted(d) for d in target.decorator_list]
            skip = 1 if recv == 'self' and 'staticmethod' not in deco else 0
            return self.apply(target, n, args, vs, kws, env, recv == 'self', skip)
        # ---- library code
        if isinstance(f, ast.Attribute):
            full = (self.e.imports[self.mod].get(name.split('.')[0]) or '') if name and name.split('.')[0] not in env else ''
            if full.split('.')[0] in ('numpy', 'scipy', 'copy', 'random'):
                if last in NP_MUT and vs:
                    self.mutate(vs[0], n, last)
                if last == 'shuffle' and vs:
                    self.mutate(vs[0], n, last)
                if last == 'at' and vs:
                    self.mutate(vs[0], n, 'ufunc.at')
                if last in NP_ALIAS:
                    return vs[0] if vs else FRESH
                if last == 'array' and vs and any(k.arg == 'copy' and isinstance(k.value, ast.Constant) and not k.value.value for k in n.keywords):
                    return vs[0]
                if last == 'nan_to_num' and any(k.arg == 'copy' and isinstance(k.value, ast.Constant) and not k.value.value for k in n.keywords) and vs:
                    self.mutate(vs[0], n, last)
                    return vs[0]
                if last == 'copy' and full.split('.')[0] == 'copy' and vs:
                    return V(E0, inner(vs[0]).own)
                return FRESH
            if not full:
                o = self.ev(f.value, env)
                # dict.__setitem__(x, ...) and the like
                if isinstance(f.value, ast.Name) and f.value.id in ('dict', 'list', 'set') and vs:
                    o, rest = vs[0], vs[1:]
                else:
                    rest = vs
                if last in MUTATORS:
                    if not (last == 'sort' and False):
                        self.mutate(o, n, '.%s()' % last, True)
                    if isinstance(f.value, ast.Name) and f.value.id in env and last in ('append', 'add', 'insert', 'extend', 'update', 'setdefault', 'appendleft'):
                        got = frozenset().union(*[(v.elem | inner(v).own) if last in ('extend', 'update') else v.own | v.elem for v in rest]) if rest else E0
                        env[f.value.id] = V(env[f.value.id].own, env[f.value.id].elem | got)
                if last in VIEWS:
                    return o
                if last == 'astype':
                    return FRESH
                if last in INNER:
                    return join(inner(o), *[v for v in vs[1:]]) if last in ('get', 'pop', 'setdefault') else V(E0, inner(o).own)
                if last == 'copy':
                    return V(E0, inner(o).own)
            return FRESH
        if isinstance(f, ast.Name):
            if f.id in CONTAINERS and f.id not in env:
                return V(E0, frozenset().union(*[inner(v).own for v in vs]) if vs else E0)
            if f.id in ('enumerate', 'zip', 'map') and f.id not in env:
                return V(E0, frozenset().union(*[inner(v).own for v in vs]) if vs else E0)
            if f.id in ('next', 'max', 'min') and vs:
                return inner(vs[0])
            if f.id == 'getattr' and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == self.self_:
                return FRESH
            if f.id == 'setattr' and len(n.args) == 3 and isinstance(n.args[0], ast.Name) and n.args[0].id == self.self_:
                self.store('*', vs[2], n)
                if isinstance(n.args[1], ast.Constant):
                    self.rebound(n.args[1].value, n)
            elif f.id == 'setattr' and len(n.args) == 3:
                self.mutate(vs[0], n, 'setattr')
        else:
            self.ev(f, env)
        return FRESH

    def apply(self, target, n, args, vs, kws, env, onself, skip=0, fields=True):
        """effects of a call of package code on the storage of this function"""
        key = self.e.bynode.get(target)
        s = self.e.summaries.get(key)
        if s is None:
            return FRESH
        a = target.args
        names = [x.arg for x in a.posonlyargs + a.args][skip:]
        bound = dict(zip(names, vs))
        extra = vs[len(names):]
        if a.vararg is not None and extra:
            bound[a.vararg.arg] = V(E0, frozenset().union(*[v.own | v.elem for v in extra]))
        for k, v in kws.items():
            if k is not None:
                bound[k] = v if k in names or any(k == x.arg for x in a.kwonlyargs) else v
        def roots(r, d):
            if r[0] == 'param':
                v = bound.get(r[1])
                if v is None:
                    return FRESH
                return v if d == 0 else inner(v)
            if r[0] == 'field':
                return self.field(r[1], env) if onself else FRESH
            if r[0] == 'default':
                return FRESH
            return V(frozenset({r + (d, True)}), E0)
        for table, sure in ((s.mut, True), (s.unsure, False)):
            for r, loc in table.items():
                if r[0] in ('global', 'classattr', 'default', 'inner'):
                    continue        # reported where it happens
                v = roots(r, 0)
                for k, nm, d, ss in v.own | (v.elem if r[0] == 'param' and a.vararg is not None and r[1] == a.vararg.arg else E0):
                    (self.s.mut if sure and ss else self.s.unsure).setdefault((k, nm), (n.lineno, 'call of %s' % key[1], self.mod, self.qual))
        if onself:
            for attr in s.rebind:
                self.s.rebind.setdefault(attr, (n.lineno, 'call of %s' % key[1], self.mod, self.qual))
        if fields and onself:
            for (attr, r), loc in s.stored.items():
                v = roots(r, 0)
                if attr in ('*',):
                    continue
                env['self.' + attr] = join(env.get('self.' + attr, FRESH), v)
        own, elem = set(), set()
        for k, nm, d, ss in s.ret.own:
            v = roots((k, nm), d)
            own |= v.own if ss else unsure(v).own
            elem |= v.elem
        for k, nm, d, ss in s.ret.elem:
            v = roots((k, nm), d)
            elem |= v.own | v.elem
        return V(frozenset(own), frozenset(elem))
