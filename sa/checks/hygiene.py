"""rules over the whole package: resources, side effects, shared state, unresolved names, data run as code"""
import ast
import json
import os
import string
import symtable
import warnings
import builtins
from ..check import project, HERE
from ..effects import Effects, imports, dotted, role
from ..model import functions, walk_scope, AnalysisBroken

_eff = None


def effects():
    global _eff
    if _eff is None:
        _eff = Effects(project())
    return _eff


def api():
    with open(os.path.join(HERE, 'sa', 'api.json')) as h:
        return json.load(h)


def short(m):
    return m.split('.')[-1]


def where(m, line):
    mod = project().modules.get(m)
    return '%s:%d' % (mod.rel if mod is not None else m, line)


# ------------------------------------------------------------------ H02
def arguments(c):
    e, a = effects(), api()
    n = 0
    for key, f in sorted(a['functions'].items()):
        m, q = key.split(':')
        s = e.summaries.get((m, q))
        if s is None:
            continue
        n += 1
        c.analysed.add(key)
        node, ci = e.funcs[m, q]
        now = [x.arg for x in node.args.posonlyargs + node.args.args + node.args.kwonlyargs]
        name = '%s.%s' % (short(m), q)
        allowed = set(f['mutates'])
        # a parameter that has another name now is the one in its place
        for old, new in zip(f['params'], now):
            if old in allowed and old not in now:
                allowed.add(new)
        pars = [x for x in now if x != 'self'] + [x.arg for x in (node.args.vararg, node.args.kwarg) if x is not None]
        for x in pars:
            r = ('param', x)
            con = '%s argument %s' % (name, x)
            if x in allowed:
                continue
            if r in s.mut:
                l = s.mut[r]
                c.violated('arguments are left as they are', con, '%s changes what it was given as %s (%s)' % (q, x, l[1]), where(l[2], l[0]))
            elif r in s.unsure:
                l = s.unsure[r]
                c.undecided('arguments are left as they are', con, '%s at %s' % (l[1], where(l[2], l[0])))
            else:
                c.holds('arguments are left as they are', con)
        if f['class'] is None or f['changes'] or q.split('.')[-1] == '__init__':
            continue
        attrs = set(a['classes'].get(f['class'], ()))
        base = ci
        if ci is not None:
            for b in e.bases(ci):
                attrs |= set(a['classes'].get(b.mod + ':' + b.name, ()))
        bad = {r[1]: x for r, x in s.mut.items() if r[0] == 'field' and r[1] in attrs}
        bad.update({k: x for k, x in s.rebind.items() if k in attrs})
        if bad:
            for k, x in sorted(bad.items()):
                c.violated('reporting leaves the object as it is', '%s attribute %s' % (name, k), '%s changes %s of its object (%s)' % (q, k, x[1]), where(x[2], x[0]))
        elif any(r[0] == 'field' and r[1] in attrs for r in s.unsure):
            r, x = next((r, x) for r, x in s.unsure.items() if r[0] == 'field' and r[1] in attrs)
            c.undecided('reporting leaves the object as it is', name, '%s: %s at %s' % (r[1], x[1], where(x[2], x[0])))
        else:
            c.holds('reporting leaves the object as it is', name)
    if n < len(a['functions']) // 2:
        raise AnalysisBroken('only %d of %d public functions found' % (n, len(a['functions'])))


# ------------------------------------------------------------------ H03
PROCESS = {'numpy.seterr', 'numpy.set_printoptions', 'os.chdir', 'os.putenv', 'os.umask', 'locale.setlocale', 'warnings.filterwarnings', 'warnings.simplefilter',
           'sys.setrecursionlimit', 'numpy.random.seed', 'random.seed', 'matplotlib.rc', 'matplotlib.use', 'matplotlib.pyplot.rc', 'matplotlib.style.use',
           'matplotlib.pyplot.style.use', 'socket.setdefaulttimeout', 'decimal.setcontext', 'numpy.seterrcall', 'os.environ.update', 'os.environ.setdefault',
           'os.environ.pop', 'matplotlib.rcParams.update', 'matplotlib.pyplot.rcParams.update', 'multiprocessing.set_start_method', 'signal.signal', 'sys.path.append', 'sys.path.insert'}
PROCESS_ITEMS = {'os.environ', 'matplotlib.rcParams', 'matplotlib.pyplot.rcParams'}
CACHES = {'functools.lru_cache', 'functools.cache', 'functools.cached_property', 'lru_cache', 'cache', 'cached_property'}


def full(e, m, name):
    if name is None:
        return None
    h, _, r = name.partition('.')
    f = e.imports[m].get(h)
    return name if f is None else f + ('.' + r if r else '')


def shared(c):
    e, a = effects(), api()
    p = project()
    for (m, q), s in sorted(e.summaries.items()):
        node, ci = e.funcs[m, q]
        name = '%s.%s' % (short(m), q)
        c.analysed.add(m + ':' + q)
        # default values
        for kind, rule, text in (('default', 'default values are never changed', 'the default of %s is shared by all calls'),
                                 ('classattr', 'data on the class is never changed', '%s belongs to the class and is shared by all its objects'),
                                 ('global', 'module variables are never changed', '%s is shared by all callers')):
            rs = {r[1]: x for r, x in s.mut.items() if r[0] == kind}
            us = {r[1]: x for r, x in s.unsure.items() if r[0] == kind and r[1] not in rs}
            for k, x in sorted(rs.items(), key=str):
                k_ = k if isinstance(k, str) else '.'.join(map(str, k))
                c.violated(rule, '%s %s' % (name, k_), (text % k_) + ', %s changes it (%s)' % (q, x[1]), where(x[2], x[0]))
            ref = a['functions'].get(m + ':' + q, {}).get('unsure', ())
            us = {k: x for k, x in us.items() if '%s %s' % (kind, k) not in ref}
            if us and not rs:
                k, x = next(iter(us.items()))
                c.undecided(rule, '%s %s' % (name, k), '%s at %s' % (x[1], where(x[2], x[0])))
            elif not rs:
                c.holds(rule, name)
        # a default / class / module container handed on to an object that changes it
        stored = {(attr, r): l for (attr, r), l in s.stored.items() if r[0] in ('default', 'classattr', 'global')}
        changed = set()
        if ci is not None:
            for (m2, q2), s2 in e.summaries.items():
                c2 = e.funcs[m2, q2][1]
                if c2 is not None and (c2 in e.bases(ci) or ci in e.bases(c2)):
                    changed |= {r[1] for r in s2.mut if r[0] == 'field'}
        hit = False
        for (attr, r), l in sorted(stored.items(), key=str):
            k_ = r[1] if isinstance(r[1], str) else '.'.join(map(str, r[1]))
            if attr in changed:
                hit = True
                c.violated('objects do not share containers', '%s %s' % (name, attr), '%s (%s) becomes the attribute %s, which methods change: all objects share it' % (k_, r[0], attr), where(l[1], l[0]))
        if stored and not hit:
            c.holds('objects do not share containers', name)
        # memory of earlier results
        for d in node.decorator_list:
            dn = dotted(d.func if isinstance(d, ast.Call) else d)
            if full(e, m, dn) in CACHES:
                cached(c, e, m, q, node, ci, name)
    # state of the process
    for mn, mod in sorted(p.modules.items()):
        for q, node, cls in functions(mod.tree):
            name = '%s.%s' % (short(mn), q)
            bad = False
            for x in walk_scope(node):
                if isinstance(x, ast.Call):
                    f = full(e, mn, dotted(x.func))
                    if f in PROCESS:
                        v = process(e, mn, q, node, x, f)
                        if v is not True:
                            bad = True
                            c.ob('the state of the process is left alone', '%s %s' % (name, f), v, '%s changes the state of the whole process' % f, where(mn, x.lineno))
                elif isinstance(x, (ast.Assign, ast.AugAssign, ast.Delete)):
                    for t in (x.targets if not isinstance(x, ast.AugAssign) else [x.target]):
                        b = t.value if isinstance(t, ast.Subscript) else None
                        if b is not None and full(e, mn, dotted(b)) in PROCESS_ITEMS:
                            bad = True
                            c.violated('the state of the process is left alone', '%s %s' % (name, dotted(b)), '%s changes %s' % (q, dotted(b)), where(mn, x.lineno))
            if not bad:
                c.holds('the state of the process is left alone', name)
    c.floor('default values are never changed', 150)


def process(e, m, q, node, x, f):
    if f in ('random.seed', 'numpy.random.seed'):
        return seeded(e, m, q, node, x)
    if f in ('matplotlib.use',):
        return False
    # restored in a finally clause
    for t in ast.walk(node):
        if isinstance(t, ast.Try) and any(isinstance(y, ast.Call) and full(e, m, dotted(y.func)) == f for b in t.finalbody for y in ast.walk(b)):
            return None
        if isinstance(t, ast.With) and any(isinstance(y, ast.Call) and 'catch_warnings' in (dotted(y.func) or '') for i in t.items for y in ast.walk(i.context_expr)):
            return True
    return False


def seeded(e, m, q, node, x):
    """seeding with a seed the caller asked for, and only then"""
    last = q.split('.')[-1]
    private = last.startswith('_') and last != '__init__'
    args = list(x.args) + [k.value for k in x.keywords]
    if not args:
        return True if private else False
    if isinstance(args[0], ast.Constant):
        return False
    a = node.args
    params = {p.arg for p in a.posonlyargs + a.args + a.kwonlyargs}
    none = {p.arg for p, d in list(zip((a.posonlyargs + a.args)[::-1], a.defaults[::-1])) + list(zip(a.kwonlyargs, a.kw_defaults)) if isinstance(d, ast.Constant) and d.value is None}
    seen, todo = set(), [args[0]]
    drawn = False
    while todo:
        y = todo.pop()
        for z in ast.walk(y):
            nm = z.id if isinstance(z, ast.Name) else z.attr if isinstance(z, ast.Attribute) else None
            if isinstance(z, ast.Call) and ('random' in (full(e, m, dotted(z.func)) or '')):
                drawn = True
            if nm is None or nm in seen:
                continue
            seen.add(nm)
            for w in ast.walk(node):
                if isinstance(w, ast.Assign) and any(isinstance(t, (ast.Name, ast.Attribute)) and (t.id if isinstance(t, ast.Name) else t.attr) == nm for t in w.targets):
                    todo.append(w.value)
    named = {n for n in seen if 'seed' in n.lower()}
    if not named and not drawn:
        return None if private or 'seed' in last.lower() or not seen & params else False
    if named & none and isinstance(args[0], ast.Name) and args[0].id in none and not private:
        tested = any(isinstance(w, (ast.If, ast.IfExp, ast.BoolOp, ast.Compare)) and any(isinstance(z, ast.Name) and z.id == args[0].id for z in ast.walk(w)) for w in ast.walk(node))
        stored = any(isinstance(w, ast.Assign) and any(isinstance(t, ast.Name) and t.id == args[0].id for t in w.targets) for w in ast.walk(node))
        if not tested and not stored:
            return False
    return True


def cached(c, e, m, q, node, ci, name):
    rule = 'results are not remembered across changes'
    if ci is None:
        reads = [x for x in ast.walk(node) if isinstance(x, ast.Call) and (dotted(x.func) or '').split('.')[-1] in ('open', 'readSDDS', 'File', 'loadtxt', 'genfromtxt', 'load')]
        if reads:
            c.violated(rule, name, 'what was read from a file is returned again after the file changed', where(m, node.lineno))
        else:
            c.undecided(rule, name, 'remembers results')
        return
    # attributes of the object the result depends on
    me = node.args.args[0].arg if node.args.args else 'self'
    used = {x.attr for x in ast.walk(node) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == me}
    seen = set()
    while used - seen:
        u = (used - seen).pop()
        seen.add(u)
        for b in e.bases(ci):
            if u in b.methods:
                used |= {x.attr for x in ast.walk(b.methods[u]) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == 'self'}
    variable = set()
    for (m2, q2), s2 in e.summaries.items():
        c2 = e.funcs[m2, q2][1]
        if c2 is not None and (c2 in e.bases(ci) or ci in e.bases(c2)) and not q2.endswith('__init__'):
            variable |= {r[1] for r in s2.mut if r[0] == 'field'} | set(s2.rebind)
    public = {u for u in used if not u.startswith('_') and not any(u in b.methods for b in e.bases(ci))}
    hit = used & (variable | public)
    if hit:
        c.violated(rule, name, 'the result depends on %s, which can change after it was computed first' % ', '.join(sorted(hit)), where(m, node.lineno))
    else:
        c.holds(rule, name)


# ------------------------------------------------------------------ H01
SAFE = {'len', 'range', 'isinstance', 'print', 'str', 'int', 'float', 'list', 'dict', 'tuple', 'set', 'repr', 'id', 'type', 'bool', 'min', 'max', 'enumerate', 'zip'}
CLOSE = {'close', 'terminate', '__exit__', 'shutdown'}


def acquires(e, m, x):
    """a call that opens something which has to be closed"""
    if not isinstance(x, ast.Call):
        return None
    d = dotted(x.func)
    f = full(e, m, d) or ''
    if d == 'open' or f in ('io.open', 'codecs.open', 'gzip.open', 'bz2.open', 'h5py.File', 'os.fdopen', 'tempfile.NamedTemporaryFile', 'tempfile.TemporaryFile', 'zipfile.ZipFile',
                            'tarfile.open', 'subprocess.Popen', 'netCDF4.Dataset'):
        return 'file'
    if f in ('multiprocessing.Pool', 'multiprocessing.pool.Pool', 'multiprocessing.pool.ThreadPool', 'concurrent.futures.ProcessPoolExecutor',
             'concurrent.futures.ThreadPoolExecutor', 'multiprocessing.dummy.Pool') or f.split('.')[-1] in ('Pool', 'ThreadPool', 'ProcessPool') or f.endswith('.ProcessPoolExecutor') or f.endswith('.ThreadPoolExecutor'):
        return 'worker pool'
    if isinstance(x.func, ast.Attribute) and x.func.attr in ('open', 'Pool') and f.split('.')[0] not in ('os', 'webbrowser'):
        return 'file' if x.func.attr == 'open' else 'worker pool'
    return None


class Held:
    """exits of a block on which a resource held by one of the names is still open"""

    def __init__(self, names, closers=()):
        self.names = set(names)
        self.why = None
        self.escaped = None
        self.closers = set(closers)

    def is_it(self, n):
        return dotted(n) in self.names if isinstance(n, (ast.Name, ast.Attribute)) else False

    def mentions(self, n):
        return any(self.is_it(x) for x in ast.walk(n) if isinstance(x, (ast.Name, ast.Attribute)))

    def fallible(self, n):
        for x in walk_scope(n) if not isinstance(n, ast.Call) else ast.walk(n):
            if isinstance(x, ast.Call):
                if isinstance(x.func, ast.Name) and x.func.id in SAFE:
                    continue
                if isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.value.id in ('np', 'numpy') and x.func.attr in (
                        'arange', 'linspace', 'zeros', 'ones', 'empty', 'array', 'asarray'):
                    continue
                if isinstance(x.func, ast.Attribute) and (x.func.attr in CLOSE and self.is_it(x.func.value) or x.func.attr in ('append', 'items', 'keys', 'values', 'format')):
                    continue
                return x
            if isinstance(x, ast.Raise):
                return x
        return None

    def closes(self, st):
        if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call):
            f = st.value.func
            if isinstance(f, ast.Attribute) and f.attr in CLOSE and self.is_it(f.value):
                return True
            d = dotted(f) or ''
            if d.split('.')[-1] in self.closers and (not st.value.args or any(self.is_it(a) for a in st.value.args)):
                return True
        return False

    def block(self, body, held):
        """set of (kind, held) with kind fall, return, raise, loop"""
        out = set()
        cur = {held}
        for st in body:
            nxt = set()
            for h in cur:
                for k, h2 in self.stmt(st, h):
                    if k == 'fall':
                        nxt.add(h2)
                    else:
                        out.add((k, h2))
            cur = nxt
            if not cur:
                break
        return out | {('fall', h) for h in cur}

    def stmt(self, st, h):
        if not h:
            # nothing to lose any more; where control goes does not matter beyond that
            return {('return', False)} if isinstance(st, ast.Return) else {('raise', False)} if isinstance(st, ast.Raise) else {('fall', False)}
        if self.closes(st):
            return {('fall', False)}
        if isinstance(st, ast.With):
            if any(self.mentions(i.context_expr) for i in st.items):
                r = self.block(st.body, False)
                return {(k, False) for k, _ in r} | {('fall', False)}
            out = set()
            if any(self.fallible(i.context_expr) for i in st.items):
                out.add(('raise', True))
                self.note(st)
            return out | self.block(st.body, True)
        if isinstance(st, ast.If):
            out = set()
            if self.fallible(st.test):
                out.add(('raise', True))
                self.note(st)
            if self.mentions(st.test) and any(self.closes(x) for b in (st.body, st.orelse) for x in b):
                # `if f is not None: f.close()` decides on the resource itself
                return out | {('fall', False)}
            return out | self.block(st.body, True) | self.block(st.orelse, True)
        if isinstance(st, (ast.For, ast.While)):
            out = {('fall', True)}
            if isinstance(st, ast.For) and self.fallible(st.iter) or isinstance(st, ast.For) and self.mentions(st.iter):
                out.add(('raise', True))
                self.note(st)
            for k, hh in self.block(st.body, True):
                out.add(('fall', hh) if k in ('fall', 'loop') else (k, hh))
            return out | self.block(st.orelse, True)
        if isinstance(st, ast.Try):
            body = self.block(st.body, True)
            why = self.why
            out = set()
            for k, hh in body:
                if k == 'raise':
                    if not st.handlers:
                        out.add((k, hh))
                    for hd in st.handlers:
                        out |= self.block(hd.body, hh)
                    names = {dotted(hd.type) for hd in st.handlers if hd.type is not None and not isinstance(hd.type, ast.Tuple)}
                    if st.handlers and not (any(hd.type is None for hd in st.handlers) or names & {'Exception', 'BaseException'}):
                        out.add((k, hh))
                elif k == 'fall' and st.orelse:
                    out |= self.block(st.orelse, hh)
                else:
                    out.add((k, hh))
            if st.finalbody:
                fin = set()
                for k, hh in out:
                    for k2, h2 in self.block(st.finalbody, hh):
                        fin.add((k, h2) if k2 == 'fall' else (k2, h2))
                out = fin
            return out
        if isinstance(st, ast.Return):
            if st.value is not None and self.is_it(st.value):
                self.escaped = 'returned'
                return {('return', False)}
            if st.value is not None and self.fallible(st.value):
                self.note(st)
                return {('return', True), ('raise', True)}
            return {('return', True)}
        if isinstance(st, ast.Raise):
            self.note(st)
            return {('raise', True)}
        if isinstance(st, (ast.Break, ast.Continue)):
            return {('loop', True)}
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            if any(self.is_it(x) for x in ast.walk(st) if isinstance(x, (ast.Name, ast.Attribute))):
                self.escaped = 'used by the inner function %s' % st.name
            return {('fall', True)}
        out = set()
        if isinstance(st, ast.Assign):
            if self.is_it(st.value):
                for t in st.targets:
                    d = dotted(t)
                    if d is None:
                        self.escaped = 'stored in %s' % ast.unparse(t)
                    else:
                        self.names.add(d)
                return {('fall', True)}
            for t in st.targets:
                if self.is_it(t):
                    self.names.discard(dotted(t))
                    if not self.names:
                        self.why = self.why or (st.lineno, 'the name is given another value')
                        return {('lost', True)}
        for x in ast.walk(st):
            if isinstance(x, ast.Call):
                fn = dotted(x.func) or ''
                if any(self.is_it(a) for a in [*x.args, *[k.value for k in x.keywords]]) and fn.split('.')[-1] in ('enter_context', 'closing', 'callback', 'push', 'append', 'register', 'finalize'):
                    self.escaped = 'handed to %s' % fn
                    return {('fall', False)}
                if any(isinstance(a, ast.Attribute) and a.attr in CLOSE and self.is_it(a.value) for a in x.args):
                    self.escaped = 'closed by %s' % fn
                    return {('fall', False)}
            elif isinstance(x, (ast.Yield, ast.YieldFrom)) and x.value is not None and self.is_it(x.value):
                self.escaped = 'yielded'
        if self.fallible(st):
            out.add(('raise', True))
            self.note(st)
        return out | {('fall', True)}

    def note(self, st):
        if self.why is None:
            self.why = (st.lineno, 'an exception here')


def parents(tree):
    return {ch: n for n in ast.walk(tree) for ch in ast.iter_child_nodes(n)}


def resources(c):
    e = effects()
    n = 0
    for mn, mod in sorted(project().modules.items()):
        par = parents(mod.tree)
        # functions that return what they open: their callers own it
        wraps = {}
        for q, node, cls in functions(mod.tree):
            for r in walk_scope(node):
                if isinstance(r, ast.Return) and r.value is not None and acquires(e, mn, r.value):
                    wraps[q.split('.')[-1]] = acquires(e, mn, r.value)
        closers = {q.split('.')[-1] for q, node, cls in functions(mod.tree)
                   if any(isinstance(x, ast.Attribute) and x.attr in CLOSE for x in ast.walk(node)) and not any(acquires(e, mn, x) for x in ast.walk(node)) and q.split('.')[-1] != '__init__'}
        for x in ast.walk(mod.tree):
            kind = acquires(e, mn, x)
            if kind is None and isinstance(x, ast.Call) and (dotted(x.func) or '').split('.')[-1] in wraps and not isinstance(par.get(x), ast.Return):
                kind = wraps[(dotted(x.func) or '').split('.')[-1]]
            if kind is None:
                continue
            n += 1
            # enclosing function
            f = x
            while f in par and not isinstance(f, (ast.FunctionDef, ast.Lambda)):
                f = par[f]
            fname = '%s.%s' % (short(mn), next((q for q, node, cls in functions(mod.tree) if node is f), '<module>'))
            c.analysed.add(mn + ':' + fname)
            con = '%s opened by %s' % (kind, fname)
            site(c, e, mn, x, kind, con, par, f, closers)
    if n == 0:
        raise AnalysisBroken('no file or pool is opened anywhere')
    c.extra['acquire_sites'] = n


def site(c, e, mn, x, kind, con, par, f, closers):
    rule = 'opened files and pools are closed on every path'
    loc = where(mn, x.lineno)
    p = par.get(x)
    if isinstance(p, ast.withitem):
        return c.holds(rule, con, 'with statement', loc)
    if isinstance(p, ast.Call) and x in p.args:
        d = (dotted(p.func) or '').split('.')[-1]
        if d in ('enter_context', 'closing'):
            return c.holds(rule, con, d, loc)
        if d in ('finalize',):
            return c.undecided(rule, con, 'closed by %s' % d, loc)
    if isinstance(p, ast.Return):
        return c.holds(rule, con, 'returned to the caller, which owns it', loc)
    if isinstance(p, ast.IfExp) or isinstance(p, (ast.Tuple, ast.List, ast.BoolOp, ast.NamedExpr)):
        return c.undecided(rule, con, 'not followed: part of a larger expression', loc)
    if not isinstance(p, ast.Assign) or len(p.targets) != 1 or dotted(p.targets[0]) is None:
        return c.violated(rule, con, 'nothing can close what `%s` opens' % ast.unparse(x), loc)
    name = dotted(p.targets[0])
    h = Held({name}, closers)
    # continue after the assignment, outwards through the enclosing blocks
    st = p
    out = {('fall', True)}
    res = set()
    while True:
        up = par.get(st)
        if up is None:
            break
        for field in ('body', 'orelse', 'finalbody', 'handlers'):
            b = getattr(up, field, None)
            if isinstance(b, list) and st in b:
                break
        else:
            b, field = None, None
        if b is not None and isinstance(st, ast.stmt):
            rest = b[b.index(st) + 1:]
            new = set()
            for k, hh in out:
                if k == 'fall':
                    new |= h.block(rest, hh)
                else:
                    new.add((k, hh))
            out = new
        if isinstance(up, (ast.FunctionDef, ast.Lambda, ast.Module)):
            break
        if isinstance(up, ast.Try) and field == 'body':
            fake = set()
            for k, hh in out:
                if k == 'raise' and up.handlers:
                    for hd in up.handlers:
                        fake |= h.block(hd.body, hh)
                    names = {dotted(hd.type) for hd in up.handlers if hd.type is not None and not isinstance(hd.type, ast.Tuple)}
                    if not (any(hd.type is None for hd in up.handlers) or names & {'Exception', 'BaseException'}):
                        fake.add((k, hh))
                elif k == 'fall' and up.orelse:
                    fake |= h.block(up.orelse, hh)
                else:
                    fake.add((k, hh))
            out = fake
        if isinstance(up, ast.Try) and field in ('body', 'orelse', 'handlers') and up.finalbody:
            fin = set()
            for k, hh in out:
                for k2, h2 in h.block(up.finalbody, hh):
                    fin.add((k, h2) if k2 == 'fall' else (k2, h2))
            out = fin
        if isinstance(up, ast.ExceptHandler):
            st = up
            continue
        if isinstance(up, (ast.For, ast.While)):
            out = {('fall' if k == 'loop' else k, hh) for k, hh in out}
        st = up
    if isinstance(p.targets[0], ast.Attribute):
        # owned by the object: open is fine when the constructor succeeds, provided something can close it
        leak = [k for k, hh in out if hh and k in ('raise', 'lost')]
        own = True
    else:
        leak = [k for k, hh in out if hh]
        own = any(isinstance(n_, ast.Attribute) for n_ in ()) or any('.' in n_ for n_ in h.names)
        if own:
            leak = [k for k in leak if k in ('raise', 'lost')]
    if not leak:
        return c.holds(rule, con, h.escaped or 'closed on every path', loc)
    if h.escaped:
        return c.undecided(rule, con, h.escaped, loc)
    w = h.why
    return c.violated(rule, con, '%s is still open when the function ends by %s%s' % (name, ', '.join(sorted(set(leak))).replace('fall', 'its end'), ' (%s, line %d)' % (w[1], w[0]) if w and 'raise' in leak else ''), loc)


# ------------------------------------------------------------------ H05
SINKS = {'eval': 0, 'exec': 0, 'compile': 0, '__import__': 0, 'pickle.load': 0, 'pickle.loads': 0, 'os.system': 0, 'os.popen': 0, 'importlib.import_module': 0,
         'subprocess.call': 0, 'subprocess.run': 0, 'subprocess.Popen': 0, 'subprocess.check_output': 0, 'subprocess.check_call': 0, 'subprocess.getoutput': 0,
         'yaml.unsafe_load': 0, 'yaml.full_load': 0, 'marshal.loads': 0, 'marshal.load': 0, 'shelve.open': 0, 'dill.load': 0, 'joblib.load': 0, 'pandas.read_pickle': 0,
         'sympy.sympify': 0, 'sympy.parsing.sympy_parser.parse_expr': 0, 'sympy.parse_expr': 0, 'numexpr.evaluate': 0, 'runpy.run_path': 0, 'pandas.eval': 0}


def code(c):
    e = effects()
    for mn, mod in sorted(project().modules.items()):
        own = {n.name for n in ast.walk(mod.tree) if isinstance(n, (ast.FunctionDef, ast.ClassDef))}
        for q, node, cls in [*functions(mod.tree), ('<module>', mod.tree, None)]:
            name = '%s.%s' % (short(mn), q)
            bad = False
            for x in walk_scope(node):
                if not isinstance(x, ast.Call):
                    continue
                d = dotted(x.func)
                f = full(e, mn, d)
                k = {a.arg: a.value for a in x.keywords}
                what = None
                if f in SINKS and not (d in own) and not (x.args and isinstance(x.args[0], ast.Constant)):
                    what = f
                elif f in ('numpy.load',) and not false(k.get('allow_pickle')) and 'allow_pickle' in k:
                    what = 'numpy.load(allow_pickle)'
                elif f in ('yaml.load', 'yaml.load_all') and not ('Loader' in k or len(x.args) > 1) and (e.imports[mn].get('yaml') == 'yaml'):
                    what = 'yaml.load'
                elif f in ('yaml.load', 'yaml.load_all') and any(w in ast.unparse(k.get('Loader') or (x.args + [ast.Constant('')] * 2)[1]) for w in ('Unsafe', 'FullLoader', 'yaml.Loader')):
                    what = 'yaml.load'
                elif f is not None and f.endswith('.YAML') and isinstance(k.get('typ'), ast.Constant) and k['typ'].value == 'unsafe':
                    what = 'YAML(typ="unsafe")'
                elif isinstance(x.func, ast.Attribute) and x.func.attr == 'run' and 'shell' in k:
                    what = 'shell'
                if what:
                    bad = True
                    c.violated('data is never run as code', '%s %s' % (name, what), '%s is given data: `%s`' % (what, ast.unparse(x)[:120]), where(mn, x.lineno))
            if not bad:
                c.holds('data is never run as code', name)
    c.floor('data is never run as code', 150)


def false(n):
    return isinstance(n, ast.Constant) and not n.value


# ------------------------------------------------------------------ H04
IMPLICIT = {'__file__', '__name__', '__doc__', '__package__', '__spec__', '__loader__', '__path__', '__builtins__', '__class__', '__module__', '__qualname__', '__annotations__', '__dict__'}
OBJECT = set(dir(object)) | {'__dict__', '__module__', '__name__', '__qualname__', '__slots__', '__annotations__', '__weakref__'}
KNOWN_BASES = {'dict': dict, 'list': list, 'set': set, 'tuple': tuple, 'str': str, 'int': int, 'float': float, 'object': object, 'Exception': Exception, 'ValueError': ValueError,
               'TypeError': TypeError, 'RuntimeError': RuntimeError, 'KeyError': KeyError, 'LookupError': LookupError, 'collections.OrderedDict': __import__('collections').OrderedDict,
               'collections.UserDict': __import__('collections').UserDict, 'collections.defaultdict': __import__('collections').defaultdict, 'abc.ABC': object,
               'collections.abc.MutableMapping': __import__('collections').abc.MutableMapping, 'OrderedDict': __import__('collections').OrderedDict}


def names(c):
    e = effects()
    p = project()
    rule = 'every name exists'
    for mn, mod in sorted(p.modules.items()):
        star = any(isinstance(x, ast.ImportFrom) and any(a.name == '*' for a in x.names) for x in ast.walk(mod.tree))
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            top = symtable.symtable(mod.src, mod.path, 'exec')
        defined = set()
        for s in top.get_symbols():
            if s.is_assigned() or s.is_imported() or s.is_namespace():
                defined.add(s.get_name())

        def sub(t, q):
            for s in t.get_symbols():
                if s.is_declared_global() and s.is_assigned():
                    defined.add(s.get_name())
            for ch in t.get_children():
                sub(ch, q + '.' + ch.get_name())

        def look(t, q):
            bad = []
            for s in t.get_symbols():
                nm = s.get_name()
                if s.is_referenced() and s.is_global() and nm not in defined and not hasattr(builtins, nm) and nm not in IMPLICIT:
                    bad.append(nm)
                elif t.get_type() == 'module' and s.is_referenced() and nm not in defined and not hasattr(builtins, nm) and nm not in IMPLICIT:
                    bad.append(nm)
            name = '%s%s' % (short(mn), q)
            if star and bad:
                c.undecided(rule, name, 'a star import may define %s' % ', '.join(bad))
            elif bad:
                for b in bad:
                    if guarded(mod.tree, b):
                        c.undecided(rule, name, 'NameError is handled')
                    else:
                        l = next((x.lineno for x in ast.walk(mod.tree) if isinstance(x, ast.Name) and x.id == b and isinstance(x.ctx, ast.Load)), 1)
                        c.violated(rule, '%s %s' % (name, b), 'the name %s is not defined' % b, where(mn, l))
            else:
                c.holds(rule, name)
            if t.get_type() == 'function':
                c.analysed.add(mn + ':' + q[1:])
            for ch in t.get_children():
                look(ch, q + '.' + ch.get_name())
        sub(top, '')
        look(top, '')
        # imports of package modules
        for x in ast.walk(mod.tree):
            if isinstance(x, ast.ImportFrom):
                base = x.module or ''
                if x.level:
                    pk = mn.split('.')
                    pk = pk[:len(pk) - x.level + (1 if mod.ispkg else 0)]
                    base = '.'.join(pk + ([x.module] if x.module else []))
                if base.split('.')[0] != 'rsbeams':
                    continue
                if base not in p.modules:
                    c.violated('every import exists', '%s from %s' % (short(mn), base), 'there is no module %s' % base, where(mn, x.lineno))
                    continue
                for a in x.names:
                    if a.name == '*' or base + '.' + a.name in p.modules or a.name in toplevel(p, base):
                        c.holds('every import exists', '%s from %s import %s' % (short(mn), base, a.name))
                    else:
                        c.violated('every import exists', '%s from %s import %s' % (short(mn), base, a.name), '%s has no %s' % (base, a.name), where(mn, x.lineno))
            elif isinstance(x, ast.Import):
                for a in x.names:
                    if a.name.split('.')[0] == 'rsbeams':
                        c.ob('every import exists', '%s import %s' % (short(mn), a.name), a.name in p.modules, 'there is no module %s' % a.name, where(mn, x.lineno))
    for (mn, q), (node, ci) in sorted(e.funcs.items(), key=lambda k: k[0]):
        members(c, e, mn, q, node, ci)
    c.floor(rule, 200)


def guarded(tree, nm):
    for t in ast.walk(tree):
        if isinstance(t, ast.Try) and any(h.type is None or 'NameError' in ast.unparse(h.type) or dotted(h.type) == 'Exception' for h in t.handlers):
            if any(isinstance(x, ast.Name) and x.id == nm for b in t.body for x in ast.walk(b)):
                return True
    return False


def toplevel(p, m):
    out = set(IMPLICIT)
    t = p.modules[m].tree
    for n in walk_scope(t):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            out.add(n.name)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        elif isinstance(n, ast.Import):
            out |= {a.asname or a.name.split('.')[0] for a in n.names}
        elif isinstance(n, ast.ImportFrom):
            out |= {a.asname or a.name for a in n.names}
    return out


def attributes(e, ci):
    """everything an object of the class can have, None when that is not known from the source"""
    out = set(OBJECT)
    for c in e.bases(ci):
        for b in c.node.bases:
            d = dotted(b)
            f = full(e, c.mod, d)
            if isinstance(b, ast.Call) or d is None:
                return None
            if any(True for x in e.classes.get(d.split('.')[-1], ())):
                continue
            k = KNOWN_BASES.get(f) or KNOWN_BASES.get(d)
            if k is None:
                return None
            out |= set(dir(k))
        if c.node.keywords:
            return None
        out |= set(c.methods) | set(c.setters) | set(c.attrs) | c.assigned | c.properties
        if '__getattr__' in c.methods or '__getattribute__' in c.methods or c.node.decorator_list:
            return None
        for n in c.node.body:
            # names bound in the class body by other statements
            for x in walk_scope(n) if not isinstance(n, (ast.FunctionDef, ast.ClassDef)) else ():
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    out.add(x.id)
            if isinstance(n, ast.ClassDef):
                out.add(n.name)
            if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                out.add(n.target.id)
        for x in ast.walk(c.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('setattr', 'vars') or isinstance(x, ast.Attribute) and x.attr == '__dict__':
                return None
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                out.add(x.attr)
    # attributes subclasses provide (abstract classes)
    for cs in e.classes.values():
        for c in cs:
            if c is not ci and ci in e.bases(c):
                out |= set(c.methods) | set(c.attrs) | c.assigned | c.properties
    return out


_attrs = {}


def cached_attributes(e, ci):
    if ci not in _attrs:
        _attrs[ci] = attributes(e, ci)
    return _attrs[ci]


def members(c, e, mn, q, node, ci):
    name = '%s.%s' % (short(mn), q)
    # ---- attributes of self and of objects made here
    me = None
    ps = node.args.posonlyargs + node.args.args
    decos = {dotted(d) for d in node.decorator_list}
    if ci is not None and ps and 'staticmethod' not in decos and 'classmethod' not in decos:
        me = ps[0].arg
    local = {}
    stores = {}
    for x in walk_scope(node):
        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
            stores[x.id] = stores.get(x.id, 0) + 1
    for x in walk_scope(node):
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and isinstance(x.value, ast.Call) and stores.get(x.targets[0].id) == 1:
            r = e.resolve(mn, dotted(x.value.func)) if (dotted(x.value.func) or '').split('.')[0] not in stores else None
            if r is not None and not isinstance(r, tuple):
                local[x.targets[0].id] = r
    bad = False
    for x in ast.walk(node):
        if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and isinstance(x.ctx, ast.Load):
            k = ci if x.value.id == me and me is not None else local.get(x.value.id)
            if k is not None:
                at = cached_attributes(e, k)
                if at is not None and x.attr not in at:
                    # stored on the object from outside, or handled
                    if stored_somewhere(e, x.attr) or handled(node, x):
                        c.undecided('every attribute exists', '%s .%s' % (name, x.attr), 'set from outside the class or handled')
                    else:
                        bad = True
                        c.violated('every attribute exists', '%s .%s' % (name, x.attr), '%s has no attribute %s' % (k.name, x.attr), where(mn, x.lineno))
            else:
                m = e.imports[mn].get(x.value.id)
                if m in e.p.modules and x.value.id not in stores and x.value.id not in [a.arg for a in ps]:
                    if x.attr not in toplevel(e.p, m) and m + '.' + x.attr not in e.p.modules:
                        bad = True
                        c.violated('every attribute exists', '%s %s.%s' % (name, x.value.id, x.attr), 'module %s has no %s' % (m, x.attr), where(mn, x.lineno))
    if not bad:
        c.holds('every attribute exists', name)
    # ---- calls
    bad = False
    for x in ast.walk(node):
        if not isinstance(x, ast.Call):
            continue
        t, skip, what = None, 0, None
        f = x.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and (f.value.id == me and me is not None or f.value.id in local):
            k = ci if f.value.id == me else local[f.value.id]
            t = e.method(k, f.attr)
            if t is not None and role(t) != 'method':
                t = None
            # a subclass may have a method of another form
            if f.value.id == me and sum(f.attr in c2.methods for cs in e.classes.values() for c2 in cs if ci in e.bases(c2) or c2 in e.bases(ci)) > 1:
                t = None
            if t is not None and any(f.attr in b.assigned for b in e.bases(k)):
                t = None
            skip = 0 if t is not None and any(dotted(d) == 'staticmethod' for d in t.decorator_list) else 1
        elif isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and dotted(f.value.func) == 'super' and ci is not None:
            t = next((b.methods[f.attr] for b in e.bases(ci)[1:] if f.attr in b.methods), None)
            skip = 1
        else:
            d = dotted(f)
            if d is None or d.split('.')[0] in stores or d.split('.')[0] in [a.arg for a in ps]:
                continue
            r = e.resolve(mn, d)
            if isinstance(r, tuple):
                t = r[0]
                if r[1] is not None:
                    t = None
            elif r is not None:
                if '__new__' in r.methods or r.node.decorator_list or cached_attributes(e, r) is None and e.method(r, '__init__') is None:
                    continue
                t, skip = e.method(r, '__init__'), 1
                if t is None:
                    if (x.args or x.keywords) and cached_attributes(e, r) is not None and not any(dotted(b) in KNOWN_BASES and dotted(b) != 'object' or dotted(b) not in KNOWN_BASES and not e.classes.get((dotted(b) or '').split('.')[-1]) for c2 in e.bases(r) for b in c2.node.bases):
                        bad = True
                        c.violated('every call fits the function called', '%s %s' % (name, d), '%s takes no arguments' % d, where(mn, x.lineno))
                    continue
        if t is None or any(dotted(d) not in ('staticmethod', 'classmethod', 'abstractmethod', 'abc.abstractmethod') for d in t.decorator_list):
            continue
        if any(dotted(d) == 'classmethod' for d in t.decorator_list):
            skip = 1
        why = misfit(x, t, skip)
        if why:
            bad = True
            c.violated('every call fits the function called', '%s %s' % (name, t.name), '%s(): %s' % (t.name, why), where(mn, x.lineno))
    if not bad:
        c.holds('every call fits the function called', name)
    # ---- formats
    bad = False
    for x in ast.walk(node):
        why = None
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'format' and isinstance(x.func.value, ast.Constant) and isinstance(x.func.value.value, str):
            why = fmt(x)
        elif isinstance(x, ast.BinOp) and isinstance(x.op, ast.Mod) and isinstance(x.left, ast.Constant) and isinstance(x.left.value, str) and isinstance(x.right, ast.Tuple):
            why = percent(x)
        if why:
            bad = True
            c.violated('every format fits its values', '%s line format' % name, why, where(mn, x.lineno))
    if not bad:
        c.holds('every format fits its values', name)


def stored_somewhere(e, attr):
    for m in e.p.modules.values():
        for x in ast.walk(m.tree):
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and x.attr == attr and not (isinstance(x.value, ast.Name) and x.value.id == 'self'):
                return True
    return False


def handled(node, x):
    for t in ast.walk(node):
        if isinstance(t, ast.Try) and t.handlers and any(h.type is None or any(w in ast.unparse(h.type) for w in ('AttributeError', 'Exception')) for h in t.handlers) and any(y is x for b in t.body for y in ast.walk(b)):
            return True
        if isinstance(t, ast.Call) and dotted(t.func) == 'hasattr' and len(t.args) == 2 and isinstance(t.args[1], ast.Constant) and t.args[1].value == x.attr:
            return True
    return False


def misfit(call, t, skip):
    if any(isinstance(a, ast.Starred) for a in call.args) or any(k.arg is None for k in call.keywords):
        return None
    a = t.args
    pos = [x.arg for x in a.posonlyargs + a.args][skip:]
    only = {x.arg for x in a.posonlyargs}
    nd = len(a.defaults)
    required = pos[:len(pos) - nd] if nd <= len(pos) else []
    if len(call.args) > len(pos) and a.vararg is None:
        return '%d positional arguments for %d parameters' % (len(call.args), len(pos))
    given = set(pos[:len(call.args)])
    kwonly = {x.arg for x in a.kwonlyargs}
    for k in call.keywords:
        if k.arg in given:
            return '%s is given twice' % k.arg
        if k.arg not in pos and k.arg not in kwonly and a.kwarg is None or k.arg in only:
            return 'there is no parameter %s' % k.arg
        given.add(k.arg)
    miss = [x for x in required if x not in given] + [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None and x.arg not in given]
    return 'the parameter %s is missing' % ', '.join(miss) if miss else None


def fmt(x):
    if any(isinstance(a, ast.Starred) for a in x.args) or any(k.arg is None for k in x.keywords):
        return None
    try:
        fs = []
        for _, f, spec, _ in string.Formatter().parse(x.func.value.value):
            if f is not None:
                fs.append(f)
                fs += [g for _, g, _, _ in string.Formatter().parse(spec or '') if g is not None]
    except ValueError as err:
        return 'format %r: %s' % (x.func.value.value[:60], err)
    auto = 0
    kw = {k.arg for k in x.keywords}
    for f in fs:
        h = f.replace('[', '.').split('.')[0]
        if h == '':
            auto += 1
        elif h.isdigit():
            if int(h) >= len(x.args):
                return 'the format has no value for {%s}' % h
        elif h not in kw:
            return 'the format has no value for {%s}' % h
    if auto > len(x.args):
        return 'the format has %d places and %d values' % (auto, len(x.args))
    return None


def percent(x):
    import re
    if any(isinstance(a, ast.Starred) for a in x.right.elts):
        return None
    s = x.left.value.replace('%%', '')
    if re.search(r'%\(|\*', s):
        return None
    n = len(re.findall(r'%[-+ #0]*\d*(?:\.\d+)?[hlL]?[a-zA-Z]', s))
    if n != s.count('%'):
        return None
    return None if n == len(x.right.elts) else 'the format has %d places and %d values' % (n, len(x.right.elts))
