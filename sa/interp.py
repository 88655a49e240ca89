"""Value-numbering dataflow over gated joins.

A forward analysis over the statement structure of the source.  At every join the
two incoming states are merged with a gate (an `Ite` over the branch condition);
loops whose trip count is not a constant are summarised by one generic iteration
over a havocked state; callees are analysed in the context of the call.  No path is
enumerated and no path condition is solved; the code under analysis is never run.
"""
import ast
import builtins
import functools
from fractions import Fraction

from .val import *
from . import val as V
from .model import AnalysisBroken, PKG
from . import identity
from .identity import isvec as identity_isvec

UNROLL = 130


class FnInfo:
    def __init__(self, node, module, name, defaults, kwdefaults):
        self.node, self.module, self.name = node, module, name
        self.defaults, self.kwdefaults = defaults, kwdefaults
        self.locals = None
        self.isgen = False


class ClsInfo:
    def __init__(self, name, module, bases, ns, node):
        self.name, self.module, self.bases, self.ns, self.node = name, module, bases, ns, node


class Cell:
    __slots__ = ('kind', 'f', 'x', 'y')

    def __init__(self, kind, f, x=None, y=None):
        # frame: f=vars, x=parent id, y=(module, localset)
        # obj:   f=fields, x=ClassV
        # list:  f={'c': Seq value}, x=isarray
        # dict:  f={keyleaf: value}, x=tuple(order), y=tuple(symbolic stores)
        # arr:   f={}, x=base value, y=tuple of (key, value)
        self.kind, self.f, self.x, self.y = kind, f, x, y

    def __repr__(self):
        return 'Cell(%s,%s,%s,%s)' % (self.kind, self.f, self.x, self.y)


class State:
    __slots__ = ('heap', 'pc', 'events', 'pending')

    def __init__(self):
        self.heap = {}
        self.pc = TRUE
        self.events = ()
        self.pending = []

    def fork(self):
        s = State()
        s.heap = dict(self.heap)
        s.pc = self.pc
        s.events = self.events
        return s

    def become(self, o):
        self.heap, self.pc, self.events = o.heap, o.pc, o.events


class Out:
    __slots__ = ('normal', 'rets', 'brks', 'conts', 'raises')

    def __init__(self, normal=None):
        self.normal = normal
        self.rets, self.brks, self.conts, self.raises = [], [], [], []

    def absorb(self, o):
        self.rets += o.rets
        self.brks += o.brks
        self.conts += o.conts
        self.raises += o.raises


ARRAY_ATTRS = set('''T all any argmax argmin argpartition argsort astype base byteswap choose clip compress conj conjugate copy ctypes cumprod cumsum data
diagonal dot dtype dump dumps fill flags flat flatten getfield imag item itemset itemsize max mean min nbytes ndim newbyteorder nonzero partition prod ptp put
ravel real repeat reshape resize round searchsorted setfield setflags shape size sort squeeze std strides sum swapaxes take tobytes tofile tolist tostring
trace transpose var view'''.split())


def fixed(k):
    """a dictionary key that equals no other key of this kind: constants, symbols of an algebra system, classes"""
    return isinstance(k, (Const, ClassV)) or isinstance(k, Sym) and 'symbol' in k.attrs


class Budget(Exception):
    pass


class Runaway(Budget):
    """a loop over known values that does not come to an end"""


class Ev:
    """effect event; `inner` for summarised loops"""
    __slots__ = ('kind', 'name', 'args', 'kw', 'loc', 'cond', 'inner')

    def __init__(self, kind, name, args=(), kw=None, loc=None, cond=TRUE, inner=None):
        self.kind, self.name, self.args, self.kw, self.loc = kind, name, tuple(args), kw or {}, loc
        self.cond, self.inner = cond, inner

    def guarded(self, c):
        return Ev(self.kind, self.name, self.args, self.kw, self.loc, band(c, self.cond), self.inner)

    def __repr__(self):
        return 'Ev(%s %s %s %s)' % (self.kind, self.name, self.args, self.loc)


BUILTIN_EXC = {n for n in dir(builtins) if isinstance(getattr(builtins, n), type)
               and issubclass(getattr(builtins, n), BaseException)}


def exc_subclass(a, b):
    if a in BUILTIN_EXC and b in BUILTIN_EXC:
        return issubclass(getattr(builtins, a), getattr(builtins, b))
    return a == b


CLASSES = {'list', 'tuple', 'dict', 'set', 'str', 'int', 'float', 'bool', 'bytes', 'complex', 'numpy.ndarray', 'type'}


class Interp:
    loopbase = 0

    def __init__(self, project, maxsteps=400000):
        self.p = project
        self.fns = []
        self.fnkey = {}
        self.classes = []
        self.nid = 0
        self.loopn = Interp.loopbase
        Interp.loopbase += 1000000
        self.defer = None
        self.vecs = set()
        self.modframes = {}
        self.base = State()
        self.steps = 0
        self.nsum, self.maxsum = 0, 1 << 40
        self.maxsteps = maxsteps
        self.depth = 0
        self.trydepth = 0
        self.cur = []            # stack of (module, function)
        self.notes = set()       # reasons of imprecision
        self.visited = set()     # functions analysed
        self.models = {}
        self.views = {}
        self.loopinfo = {}
        self.streams, self.stream = {}, None
        self.maybenone = set()
        self.active = []
        self.curloop = []
        self.events_on = True
        self.dry = 0
        from . import pymodels
        pymodels.install(self)

    # ------------------------------------------------------------ utilities
    def new(self, st, cell):
        self.nid += 1
        st.heap[self.nid] = cell
        return ref(self.nid)

    def newlist(self, st, items, isarr=False):
        return self.new(st, Cell('list', {'c': seq([('i', v) for v in items])}, isarr))

    def newdict(self, st, pairs):
        f, order = {}, []
        for k, v in pairs:
            if k not in f:
                order.append(k)
            f[k] = v
        return self.new(st, Cell('dict', f, tuple(order), ()))

    def viewed(self, row, arr, k):
        """the row was handed out by the array, hence shares its memory"""
        w = self.views.setdefault(row, [])
        if (arr, k) not in w:
            w.append((arr, k))

    def owner(self, row, st):
        """the array and the row number behind a row handed out earlier; False when it may be one of several"""
        w = [q for q in self.views.get(row, ()) if q[0].id in st.heap] if isinstance(row, Leaf) else []
        return None if not w else w[0] if len(w) == 1 else False

    def newarr(self, st, base):
        return self.new(st, Cell('arr', {}, base, ()))

    def top(self, why):
        self.notes.add(why)
        return top(why)

    def loc(self, node):
        m, f = self.cur[-1] if self.cur else ('?', '?')
        return (m, f, getattr(node, 'lineno', 0))

    def event(self, st, kind, name, args=(), kw=None, node=None):
        st.events = st.events + (Ev(kind, name, args, kw, self.loc(node)),)

    def fn(self, f):
        return self.fns[f.fn]

    # ------------------------------------------------------------ modules
    def module(self, name, st=None):
        """frame id of an analysed module (its top level is analysed once, in the base state)"""
        if name in self.modframes:
            return self.modframes[name]
        m = self.p.mod(name)
        base = self.base
        self.nid += 1
        fid = self.nid
        self.modframes[name] = fid
        base.heap[fid] = Cell('frame', {'__name__': const(name), '__file__': sym('__file__', 'str', 'notnone')},
                              None, (name, None))
        self.cur.append((name, '<module>'))
        self.depth += 1
        td, self.trydepth = self.trydepth, 0
        try:
            s = base.fork()
            out = self.block(m.tree.body, s, fid)
            if out.normal is not None:
                base.become(out.normal)
                base.events = ()
                base.pc = TRUE
            else:
                self.notes.add('module %s always raises' % name)
                self.modraise = name
        finally:
            self.cur.pop()
            self.depth -= 1
            self.trydepth = td
        return fid

    def fresh(self, *mods):
        for m in mods:
            self.module(m)
        return self.base.fork()

    def glob(self, st, modname, name):
        fid = self.module(modname)
        if fid not in st.heap:
            for k, c in self.base.heap.items():
                st.heap.setdefault(k, c)
        c = st.heap[fid]
        v = c.f.get(name)
        if v is None:
            raise AnalysisBroken('%s.%s not found' % (modname, name))
        return v

    # ------------------------------------------------------------ merging
    def merge(self, sts):
        sts = [s for s in sts if s is not None and s.pc is not FALSE]
        if not sts:
            return None
        r = sts[0]
        for s in sts[1:]:
            r = self.merge2(r, s)
        return r

    def merge2(self, a, b):
        care = bor(a.pc, b.pc)
        d = restrict(a.pc, care)
        if d is BOT:
            d = TRUE
        if not isinstance(d, Ite):
            # not separated by conditions we track (e.g. loop exits): opaque join
            d = atom('join', self._uid())
        o = State()
        o.pc = care
        o.pending = a.pending + b.pending
        for k, ca in a.heap.items():
            cb = b.heap.get(k)
            if cb is None or cb is ca:
                o.heap[k] = ca
            else:
                o.heap[k] = self.mergecell(d, ca, cb)
        for k, cb in b.heap.items():
            if k not in a.heap:
                o.heap[k] = cb
        # events
        i = 0
        ea, eb = a.events, b.events
        if ea is eb:
            o.events = ea
        else:
            while i < len(ea) and i < len(eb) and ea[i] is eb[i]:
                i += 1
            nd = bnot(d)
            o.events = ea[:i] + tuple(e.guarded(d) for e in ea[i:]) + tuple(e.guarded(nd) for e in eb[i:])
        return o

    _u = 0

    def _uid(self):
        Interp._u += 1
        return Interp._u

    def mergecell(self, d, a, b):
        if a.kind != b.kind:
            return a
        miss = UNBOUND if a.kind == 'frame' else MISSING
        if a.kind == 'arr':
            if a.x is b.x:
                # common prefix of stores, then guarded stores
                i = 0
                while i < len(a.y) and i < len(b.y) and a.y[i] == b.y[i]:
                    i += 1
                sa, sb = a.y[i:], b.y[i:]
                keys = []
                for k, _ in sa + sb:
                    if k not in keys:
                        keys.append(k)
                okeys = [k for k, _ in sa]
                if len(set(okeys)) == len(okeys) and len({k for k, _ in sb}) == len(sb):
                    da, db = dict(sa), dict(sb)
                    pre = Cell('arr', {}, a.x, a.y[:i])
                    ys = list(a.y[:i])
                    for k in keys:
                        va = da.get(k)
                        vb = db.get(k)
                        if va is None:
                            va = self.arr_read_cell(pre, k)
                        if vb is None:
                            vb = self.arr_read_cell(pre, k)
                        ys.append((k, ite(d, va, vb)))
                    return Cell('arr', a.f if a.f == b.f else {}, a.x, tuple(ys))
            return Cell('arr', a.f if a.f == b.f else {}, self.top('merged array contents'), ())
        f = {}
        for k in a.f:
            va = a.f[k]
            vb = b.f.get(k, miss)
            f[k] = va if va is vb else ite(d, va, vb)
        for k in b.f:
            if k not in a.f:
                f[k] = ite(d, miss, b.f[k])
        x = a.x
        y = a.y
        if a.kind == 'dict':
            x = a.x + tuple(k for k in b.x if k not in a.f)
            if a.y != b.y:
                y = a.y + tuple(s for s in b.y if s not in a.y)
        return Cell(a.kind, f, x, y)

    # ------------------------------------------------------------ statements
    def block(self, stmts, st, fr):
        out = Out()
        for s in stmts:
            if st is None:
                break
            self.steps += 1
            if self.steps > self.maxsteps:
                raise Budget()
            o = self.stmt(s, st, fr)
            out.absorb(o)
            st = o.normal
        out.normal = st
        return out

    def flush(self, st, out):
        if st.pending:
            for s, e in st.pending:
                if s.pc is not FALSE:
                    out.raises.append((s, e))
            st.pending = []

    def stmt(self, n, st, fr):
        m = getattr(self, 's_' + type(n).__name__, None)
        if m is None:
            self.notes.add('statement %s' % type(n).__name__)
            return Out(st)
        o = m(n, st, fr)
        if o is None:
            o = Out(st)
        if o.normal is not None:
            self.flush(o.normal, o)
            if o.normal.pc is FALSE:
                o.normal = None
        return o

    def s_Expr(self, n, st, fr):
        self.ev(n.value, st, fr)

    def s_Pass(self, n, st, fr):
        pass

    s_Global = s_Nonlocal = s_Pass

    def s_Assign(self, n, st, fr):
        v = self.ev(n.value, st, fr)
        for t in n.targets:
            self.assign(t, v, st, fr)

    def s_AnnAssign(self, n, st, fr):
        if n.value is not None:
            self.assign(n.target, self.ev(n.value, st, fr), st, fr)

    def s_AugAssign(self, n, st, fr):
        t = n.target
        if isinstance(t, ast.Name):
            old = self.ev(t, st, fr)
            v = self.ev(n.value, st, fr)
            if isinstance(old, Ref) and st.heap[old.id].kind in ('list', 'arr'):
                self.inplace(st, old, n.op, v, n)
                return
            new = self.binop(n.op, old, v, st, n)
            w = self.owner(old, st)
            if w:
                # a row handed out by an array is a view of it
                self.setitem(w[0], w[1], new, st, n)
                new = self.getitem(w[0], w[1], st, n)
                if isinstance(new, Leaf) and not isinstance(new, Const):
                    self.viewed(new, *w)
            elif w is False:
                for q in self.views[old]:
                    if q[0].id in st.heap:
                        st.heap[q[0].id] = Cell('arr', {}, self.top('a row of one of several arrays is changed'), ())
            self.setvar(st, fr, t.id, new)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st, fr)
            old = self.getattr_(o, t.attr, st, n)
            v = self.ev(n.value, st, fr)
            if isinstance(old, Ref) and st.heap[old.id].kind in ('list', 'arr'):
                self.inplace(st, old, n.op, v, n)
                return
            self.setattr_(o, t.attr, self.binop(n.op, old, v, st, n), st, n)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st, fr)
            k = self.ev(t.slice, st, fr)
            old = self.getitem(o, k, st, n)
            v = self.ev(n.value, st, fr)
            if isinstance(old, Ref) and st.heap[old.id].kind in ('list', 'arr'):
                self.inplace(st, old, n.op, v, n)
                return
            self.setitem(o, k, self.binop(n.op, old, v, st, n), st, n)

    def inplace(self, st, r, op, v, n):
        c = st.heap[r.id]
        if c.kind == 'list' and not c.x:
            if isinstance(op, ast.Add):
                self.models['list.extend'](self, st, r, [v], {}, n)
                return
            if isinstance(op, ast.Mult):
                v2 = self.binop(op, r, v, st, n)
                if isinstance(v2, Ref):
                    st.heap[r.id] = st.heap[v2.id]
                return
        v2 = self.binop(op, r, v, st, n)
        if isinstance(v2, Ref) and v2.id in st.heap:
            st.heap[r.id] = st.heap[v2.id]
        else:
            st.heap[r.id] = Cell('arr', {}, v2, ())

    def s_Return(self, n, st, fr):
        v = self.ev(n.value, st, fr) if n.value is not None else NONE
        o = Out()
        self.flush(st, o)
        o.rets.append((st, v))
        return o

    def s_Break(self, n, st, fr):
        o = Out()
        o.brks.append(st)
        return o

    def s_Continue(self, n, st, fr):
        o = Out()
        o.conts.append(st)
        return o

    def s_Raise(self, n, st, fr):
        o = Out()
        e = self.ev(n.exc, st, fr) if n.exc is not None else app('reraise')
        self.flush(st, o)
        if n.exc is None:
            cur = st.heap[fr].f.get('$exc')
            if cur is not None and not isinstance(cur, Ite):
                e = cur
        if isinstance(e, Ite):
            for c, l in cases(e):
                s2 = st.fork()
                s2.pc = band(st.pc, c)
                o.raises.append((s2, l))
        else:
            o.raises.append((st, e))
        return o

    def s_Assert(self, n, st, fr):
        c = truth(self.truthval(self.ev(n.test, st, fr), st))
        o = Out()
        self.flush(st, o)
        bad = band(st.pc, bnot(c))
        if bad is not FALSE:
            s2 = st.fork()
            s2.pc = bad
            o.raises.append((s2, app('exc', ext('AssertionError'))))
        st.pc = band(st.pc, c)
        o.normal = st if st.pc is not FALSE else None
        return o

    def s_If(self, n, st, fr):
        o = Out()
        c = truth(self.truthval(self.ev(n.test, st, fr), st))
        self.flush(st, o)
        if st.pc is FALSE:
            return o
        a, b = band(st.pc, c), band(st.pc, bnot(c))
        ra = rb = None
        if a is not FALSE:
            s1 = st.fork() if b is not FALSE else st
            s1.pc = a
            x = self.block(n.body, s1, fr)
            o.absorb(x)
            ra = x.normal
        if b is not FALSE:
            if a is not FALSE:
                s2 = st
            else:
                s2 = st
            s2.pc = b
            x = self.block(n.orelse, s2, fr)
            o.absorb(x)
            rb = x.normal
        if (ra is None) != (rb is None):
            # only one branch goes on: what was decided by the test is decided from here on
            self.settle(ra or rb, c if rb is None else bnot(c))
        o.normal = self.merge([ra, rb])
        return o

    def settle(self, st, c):
        if not isinstance(c, Ite):
            return
        at = c.idx
        for k, cell in list(st.heap.items()):
            if cell.kind not in ('frame', 'obj'):
                continue
            ff = None
            for f, v in cell.f.items():
                if isinstance(v, Ite) and v.idx >= at and v is not c and v is not bnot(c):
                    w = restrict(v, c)
                    if w is not v and not isinstance(w, Ite):
                        ff = ff or dict(cell.f)
                        ff[f] = w
            if ff:
                st.heap[k] = Cell(cell.kind, ff, cell.x, cell.y)

    def s_Delete(self, n, st, fr):
        for t in n.targets:
            if isinstance(t, ast.Name):
                self.setvar(st, fr, t.id, UNBOUND)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, st, fr)
                k = self.ev(t.slice, st, fr)
                self.delitem(o, k, st, n)

    def s_Import(self, n, st, fr):
        for a in n.names:
            if a.asname:
                self.setvar(st, fr, a.asname, self.imp(a.name, st))
            else:
                root = a.name.split('.')[0]
                if root == PKG and '.' in a.name:
                    self.imp(a.name, st)
                self.setvar(st, fr, root, self.imp(root, st))

    def imp(self, name, st):
        if name == PKG or name.startswith(PKG + '.'):
            if name in self.p.modules:
                if name != PKG:
                    self.loadmod(name, st)
                return modv(name)
        return ext(canon(name))

    def loadmod(self, name, st):
        fid = self.module(name)
        if fid not in st.heap:
            for k, c in self.base.heap.items():
                if k not in st.heap:
                    st.heap[k] = c
        return fid

    def s_ImportFrom(self, n, st, fr):
        mod = n.module or ''
        if n.level:
            cur = self.cur[-1][0]
            parts = cur.split('.')
            if not self.p.mod(cur).ispkg:
                parts = parts[:-1]
            parts = parts[:len(parts) - (n.level - 1)]
            mod = '.'.join(parts + ([mod] if mod else []))
        for a in n.names:
            nm = a.asname or a.name
            if a.name == '*':
                if mod in self.p.modules:
                    fid = self.loadmod(mod, st)
                    for k, v in list(st.heap[fid].f.items()):
                        if not k.startswith('_'):
                            self.setvar(st, fr, k, v)
                else:
                    self.notes.add('star import of %s' % mod)
                continue
            if mod == PKG or mod.startswith(PKG + '.'):
                sub = mod + '.' + a.name
                if sub in self.p.modules:
                    self.loadmod(sub, st)
                    v = modv(sub)
                elif mod in self.p.modules:
                    fid = self.loadmod(mod, st)
                    v = st.heap[fid].f.get(a.name)
                    if v is None:
                        v = self.top('name %s not in %s' % (a.name, mod))
                else:
                    v = self.top('module %s' % mod)
            else:
                v = self.extattr(canon(mod), a.name)
            self.setvar(st, fr, nm, v)

    def s_FunctionDef(self, n, st, fr):
        f = self.mkfunc(n, st, fr)
        for d in reversed(n.decorator_list):
            dv = self.ev(d, st, fr)
            f = self.decorate(dv, f, st, n)
        self.setvar(st, fr, n.name, f)

    s_AsyncFunctionDef = s_FunctionDef

    def mkfunc(self, n, st, fr, lam=False):
        defaults = tuple(self.ev(d, st, fr) for d in n.args.defaults)
        kwd = tuple((a.arg, self.ev(d, st, fr)) for a, d in zip(n.args.kwonlyargs, n.args.kw_defaults) if d is not None)
        env = fr
        # functions see through class scopes
        c = st.heap[env]
        defcls = None
        if c.y and c.y[0] == '$class':
            defcls = c.f.get('$ci')
            env = c.x
        k = (id(n), defaults, kwd)
        i = self.fnkey.get(k)
        if i is None:
            i = len(self.fns)
            name = '<lambda>' if lam else n.name
            q = [x[1] for x in self.cur if x[0] == self.cur[-1][0]][-1] if self.cur else ''
            if defcls is not None:
                q = self.classes[defcls.ci].name
            full = name if q in ('<module>', '') else q + '.' + name
            fi = FnInfo(n, self.cur[-1][0], full, defaults, kwd)
            self.fns.append(fi)
            self.fnkey[k] = i
            fi.locals, fi.isgen = scope_of(n)
        return func(i, env, None, defcls)

    def decorate(self, d, f, st, n):
        if isinstance(d, Ext):
            if d.name == 'property':
                return propv(f, NONE)
            if d.name in ('staticmethod', 'classmethod'):
                return wrap(d.name, f)
            if d.name.split('.')[-1] in ('wraps', 'njit', 'jit', 'lru_cache', 'abstractmethod'):
                return f
        if isinstance(d, BoundM) and isinstance(d.recv, PropV):
            if d.name == 'setter':
                return propv(d.recv.fget, f)
            if d.name == 'getter':
                return propv(f, d.recv.fset)
            return d.recv
        if isinstance(d, Func):
            return self.call(d, [f], {}, st, n)
        self.notes.add('decorator')
        return self.top('decorated function')

    def s_ClassDef(self, n, st, fr):
        bases = tuple(self.ev(b, st, fr) for b in n.bases)
        self.nid += 1
        ns = self.nid
        ci = len(self.classes)
        self.classes.append(ClsInfo(n.name, self.cur[-1][0], bases, ns, n))
        cv = classv(ci)
        st.heap[ns] = Cell('frame', {'$ci': cv, '__name__': const(n.name)}, fr, ('$class', None))
        out = self.block(n.body, st, ns)
        if out.normal is not None and out.normal is not st:
            st.become(out.normal)
        v = cv
        for d in reversed(n.decorator_list):
            self.notes.add('class decorator')
        self.setvar(st, fr, n.name, v)

    def s_With(self, n, st, fr):
        vals = []
        for it in n.items:
            v = self.ev(it.context_expr, st, fr)
            self.event(st, 'enter', 'with', [v], {}, n)
            w = self.special(v, '__enter__', [], st, n)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v if w is None else w, st, fr)
            vals.append(v)
        o = Out()
        self.flush(st, o)
        x = self.block(n.body, st, fr)
        o.absorb(x)
        for s in [x.normal] + [r[0] for r in x.rets] + x.brks + x.conts + [r[0] for r in x.raises]:
            if s is not None:
                for v in reversed(vals):
                    self.event(s, 'exit', 'with', [v], {}, n)
                    self.special(v, '__exit__', [NONE, NONE, NONE], s, n)
        o.normal = x.normal
        return o

    def special(self, v, name, args, st, n):
        """a special method of an object of an analysed class; None when it has none"""
        if isinstance(v, Ref):
            c = st.heap.get(v.id)
            if c is not None and c.kind == 'obj' and '$opaque' not in c.f:
                m = self.lookup(c.x, name, st)
                if isinstance(m, Func):
                    return self.call(self.bind(m, v, c.x), list(args), {}, st, n)
        return None

    def s_Try(self, n, st, fr):
        o = Out()
        self.trydepth += 1 if n.handlers else 0
        x = self.block(n.body, st, fr)
        self.trydepth -= 1 if n.handlers else 0
        norm = x.normal
        res = Out()
        if norm is not None and n.orelse:
            y = self.block(n.orelse, norm, fr)
            res.absorb(y)
            norm = y.normal
        res.rets += x.rets
        res.brks += x.brks
        res.conts += x.conts
        # group raises by handler
        groups = {}
        for s, e in x.raises:
            hit = None
            for i, h in enumerate(n.handlers):
                r = self.matches(h, e, s, fr)
                if r:
                    hit = i
                    break
            if hit is None:
                res.raises.append((s, e))
            else:
                groups.setdefault(hit, []).append((s, e))
        norms = [norm]
        for i in sorted(groups):
            h = n.handlers[i]
            ss = groups[i]
            s = self.merge([q for q, _ in ss])
            if s is None:
                continue
            e = ss[0][1] if len(ss) == 1 else (ss[0][1] if all(q is ss[0][1] for _, q in ss) else app('exc', ext('?')))
            s.heap[fr] = self.withvar(s.heap[fr], '$exc', e)
            if h.name:
                self.setvar(s, fr, h.name, e)
            y = self.block(h.body, s, fr)
            res.absorb(y)
            norms.append(y.normal)
        res.normal = self.merge(norms)
        if n.finalbody:
            fin = Out()

            def runf(s):
                z = self.block(n.finalbody, s, fr)
                fin.absorb(z)
                return z.normal
            res.normal = runf(res.normal) if res.normal is not None else None
            res.rets = [(q, v) for q, v in ((runf(s), v) for s, v in res.rets) if q is not None]
            res.brks = [q for q in map(runf, res.brks) if q is not None]
            res.conts = [q for q in map(runf, res.conts) if q is not None]
            res.raises = [(q, v) for q, v in ((runf(s), v) for s, v in res.raises) if q is not None]
            res.absorb(fin)
        return res

    s_TryStar = s_Try

    def withvar(self, c, name, v):
        f = dict(c.f)
        f[name] = v
        return Cell(c.kind, f, c.x, c.y)

    def excname(self, e, st=None):
        if isinstance(e, App) and e.op == 'exc':
            return e.args[0].name
        if isinstance(e, Ext):
            return e.name
        if isinstance(e, Ref) and st is not None:
            c = st.heap.get(e.id)
            if c is not None and c.kind == 'obj':
                return self.classes[c.x.ci].name
        if isinstance(e, ClassV):
            return self.classes[e.ci].name
        return '?'

    def matches(self, h, e, st, fr):
        if h.type is None:
            return True
        t = self.ev(h.type, st.fork(), fr)
        ts = t.items if isinstance(t, Tup) else [t]
        en = self.excname(e, st)
        for x in ts:
            xn = x.name if isinstance(x, Ext) else (self.classes[x.ci].name if isinstance(x, ClassV) else '?')
            if xn in ('Exception', 'BaseException') or en == '?' or xn == '?':
                return True
            if en.startswith('?'):
                names = en[1:].split('|')
                if xn in names or any(exc_subclass(q, xn) for q in names):
                    return True
                continue
            if exc_subclass(en, xn):
                return True
            if isinstance(e, Ref):
                for b in self.mro(st.heap[e.id].x):
                    if isinstance(b, Ext) and exc_subclass(b.name, xn):
                        return True
                    if isinstance(b, ClassV) and self.classes[b.ci].name == xn:
                        return True
        return False

    def mayraise(self, st, names, *key):
        """an operation whose success we cannot decide, inside a try"""
        if self.trydepth <= 0 or st.pc is FALSE:
            return
        c = atom('exc', names, *key)
        if self.defer is not None:
            self.defer.append((c, app('exc', ext('?' + names))))
            return
        s = st.fork()
        s.pc = band(st.pc, c)
        if s.pc is FALSE:
            return
        st.pending.append((s, app('exc', ext('?' + names))))
        st.pc = band(st.pc, bnot(c))

    def raise_(self, st, cond, name, *args):
        """definite exception under cond"""
        if self.defer is not None:
            self.defer.append((cond, app('exc', ext(name), *args)))
            return
        c = band(st.pc, cond)
        if c is FALSE:
            return
        s = st.fork()
        s.pc = c
        st.pending.append((s, app('exc', ext(name), *args)))
        st.pc = band(st.pc, bnot(cond))

    def apr(self, f, st, *vs):
        """V.ap for leaf functions that can raise: an exception of one case kills only that case"""
        if not any(isinstance(v, Ite) for v in vs):
            if any(v is BOT for v in vs):
                return BOT
            return f(*vs)
        notes = {}
        outer = self.defer

        def one(*ls):
            self.defer = []
            try:
                v = f(*ls)
                d = self.defer
            finally:
                self.defer = outer
            if not d:
                return v
            m = app('$raised', len(notes))
            notes[m] = (v, d)
            return m
        r = ap(one, *vs)
        if notes:
            for c, l in cases(r):
                if l in notes:
                    for cond, e in notes[l][1]:
                        cc = band(c, cond)
                        if outer is not None:
                            outer.append((cc, e))
                            continue
                        pc = band(st.pc, cc)
                        if pc is FALSE:
                            continue
                        s = st.fork()
                        s.pc = pc
                        st.pending.append((s, e))
                        st.pc = band(st.pc, bnot(cc))
            r = ap(lambda l: notes[l][0] if l in notes else l, r)
        return r

    # ------------------------------------------------------------ loops
    def s_For(self, n, st, fr):
        it = self.ev(n.iter, st, fr)
        o = Out()
        self.flush(st, o)
        if st.pc is FALSE:
            return o
        cs = cases(it)
        if len(cs) == 1:
            o.normal = self.forleaf(n, cs[0][1], st, fr, o)
            return o
        outs = []
        for c, l in cs:
            pc = band(st.pc, c)
            if pc is FALSE:
                continue
            s = st.fork()
            s.pc = pc
            outs.append(self.forleaf(n, l, s, fr, o))
        o.normal = self.merge(outs)
        return o

    s_AsyncFor = s_For

    def forleaf(self, n, it, st, fr, o):
        cell = self.cellof(it, st)
        if cell is not None and cell.kind == 'list' and isinstance(cell.f['c'], Ite) and all(isinstance(l, Seq) for _, l in cases(cell.f['c'])):
            # lists of different shape are gone through one at a time
            outs = []
            for c, l in cases(cell.f['c']):
                pc = band(st.pc, c)
                if pc is FALSE:
                    continue
                s = st.fork()
                s.pc = pc
                s.heap[it.id] = Cell('list', {'c': l}, cell.x)
                outs.append(self.forleaf(n, it, s, fr, o))
            return self.merge(outs)
        if cell is not None and cell.kind == 'iter':
            return self.foriter(n, it, st, fr, o)
        segs = self.iterate(it, st, n)
        return self.forsegs(n, segs, st, fr, o)

    def foriter(self, n, it, st, fr, o):
        """a loop over an iterator takes what is left of it, one value at a time"""
        brks, done, todo = [], [], [st]
        for _ in range(UNROLL):
            nxt = []
            for cur in todo:
                for c, l in cases(cur.heap[it.id].f['c']):
                    pc = band(cur.pc, c)
                    if pc is FALSE:
                        continue
                    s = cur.fork()
                    s.pc = pc
                    if not isinstance(l, Seq) or not l.segs:
                        done.append(s)
                        continue
                    s.heap[it.id] = Cell('iter', {'c': seq(l.segs[1:])})
                    self.assign(n.target, l.segs[0][1], s, fr)
                    x = self.block(n.body, s, fr)
                    o.rets += x.rets
                    o.raises += x.raises
                    brks += x.brks
                    nxt.append(self.merge([x.normal] + x.conts))
            todo = [s for s in nxt if s is not None]
            if not todo:
                break
        cur = self.merge(done)
        if cur is not None and n.orelse:
            x = self.block(n.orelse, cur, fr)
            o.absorb(x)
            cur = x.normal
        return self.merge([cur] + brks)

    def forsegs(self, n, segs, st, fr, o):
        """segs: list of ('i', value) or ('gen', element value, domain leaf)"""
        brks = []
        cur = st
        for sg in segs:
            if cur is None:
                break
            if sg[0] == 'i':
                self.assign(n.target, sg[1], cur, fr)
                x = self.block(n.body, cur, fr)
                o.rets += x.rets
                o.raises += x.raises
                brks += x.brks
                cur = self.merge([x.normal] + x.conts)
            else:
                elem, dom = sg[1], sg[2]
                if dom in self.active:
                    elem, dom = self.nest(elem, dom)

                def body(s, elem=elem):
                    self.assign(n.target, elem, s, fr)
                    return self.block(n.body, s, fr)
                self.steps += 1
                self.active.append(sg[2])
                try:
                    cur, b2 = self.summarise(cur, fr, body, o, dom, n, None)
                finally:
                    self.active.pop()
                if isinstance(dom, App) and dom.op == 'stream':
                    cur = None
                brks += b2
        if cur is not None and n.orelse:
            x = self.block(n.orelse, cur, fr)
            o.absorb(x)
            cur = x.normal
        return self.merge([cur] + brks)

    def nest(self, elem, dom):
        """nested loops over one domain have different loop variables"""
        nd = app('nested', dom, self.active.count(dom))
        return subst(elem, {q: loopvar(nd) for q in leaves_of(elem, lambda x: isinstance(x, App) and x.op in ('loopvar', 'index'))}), nd

    def s_While(self, n, st, fr):
        o = Out()
        literal = isinstance(n.test, ast.Constant)
        snap = (st.fork(), len(o.rets))
        brks = []
        cur = st
        count = 0
        lim = 40 if literal else UNROLL
        exits = []
        unk = False
        while cur is not None:
            t = self.ev(n.test, cur, fr)
            self.flush(cur, o)
            c = truth(self.truthval(t, cur))
            c = restrict(c, cur.pc)
            if c is FALSE:
                exits.append(cur)
                cur = None
                break
            if c is not TRUE or count >= lim:
                unk = True
                break
            count += 1
            x = self.block(n.body, cur, fr)
            o.rets += x.rets
            o.raises += x.raises
            brks += x.brks
            cur = self.merge([x.normal] + x.conts)
        if unk:
            if count >= lim or count <= 1:
                # restart from the loop entry with a summary
                o = Out()
                brks, exits = [], []
                cur = snap[0]

            def body(s):
                return self.block(n.body, s, fr)
            fk = cur.fork()
            c0 = truth(self.truthval(self.ev(n.test, fk, fr), fk))
            cur, b2 = self.summarise(cur, fr, body, o, None, n, n.test, c0)
            brks += b2
            exits.append(cur)
        ex = self.merge(exits)
        if ex is not None and n.orelse:
            x = self.block(n.orelse, ex, fr)
            o.absorb(x)
            ex = x.normal
        o.normal = self.merge([ex] + brks)
        return o

    def diff(self, a, b):
        """cells/fields of heap a changed in heap b"""
        ch = set()
        for k, cb in b.heap.items():
            ca = a.heap.get(k)
            if ca is None or ca is cb:
                continue
            if ca.kind == 'arr':
                if ca.x is not cb.x and ca.y == cb.y == ():
                    ch.add((k, '$base'))
                elif ca.x is not cb.x or ca.y != cb.y:
                    ks = self.constkeys(ca, cb)
                    if ks is None:
                        ax = self.ownaxis(ca, cb)
                        ch.add((k, None if ax is None else ('#', ax)))
                    else:
                        ch |= {(k, ('@',) + q) for q in ks}
                continue
            if ca.kind == 'list' and ca.x and cb.kind == 'arr':
                ch.add((k, '$base'))
                continue
            for f in set(ca.f) | set(cb.f):
                if ca.f.get(f) is not cb.f.get(f):
                    ch.add((k, f))
            if ca.kind == 'dict' and ca.y != cb.y:
                ch.add((k, '$sym'))
        return ch

    def ownaxis(self, ca, cb):
        """the axis along which every store of the current loop stays at the loop variable: iterations do not interfere"""
        if ca.x is not cb.x or any(q[0][:1] == ('$loop',) for q in ca.y + cb.y) or not self.curloop or self.curloop[-1] is None:
            return None
        lv = loopvar(self.curloop[-1])
        da, db = dict(ca.y), dict(cb.y)
        ks = [q for q in db if da.get(q) is not db[q] and q[:1] != ('$own',)]
        axes = {i for q in ks for i, x in enumerate(q) if x is lv}
        if len(axes) != 1 or any(sum(x is lv for x in q) != 1 for q in ks):
            return None
        return axes.pop()

    def constkeys(self, ca, cb):
        """the cells of a tracked array that differ, when all of them are at constant positions; else None"""
        if ca.x is not cb.x or any(q[0][:1] == ('$loop',) for q in ca.y + cb.y):
            return None
        da, db = dict(ca.y), dict(cb.y)
        ks = [q for q in db if da.get(q) is not db[q]]
        if any(not all(isinstance(x, Const) and isinstance(x.v, int) for x in q) for q in ks) or set(da) - set(db):
            return None
        return ks

    def summarise(self, st, fr, body, o, dom, node, test, c0=None):
        self.nsum += 1
        if self.nsum > self.maxsum:
            raise Budget('loops whose turns are not known')
        self.curloop.append(dom)
        try:
            return self.summarise_(st, fr, body, o, dom, node, test, c0)
        finally:
            self.curloop.pop()

    def summarise_(self, st, fr, body, o, dom, node, test, c0=None):
        self.loopn += 1
        lid = self.loopn
        self.loopinfo[lid] = identity.LOOPS[lid] = {'dom': dom, 'node': node, 'loc': self.loc(node)}
        changed = set()
        s0 = st
        pre_alloc = self.nid
        for rnd in range(4):
            s = self.havoc(s0, changed, lid)
            nstat = self.steps
            if test is not None:
                self.ev(test, s, fr)
                s.pending = []
            self.dry += 1
            x = body(s)
            self.dry -= 1
            after = self.merge([x.normal] + x.conts + x.brks)
            if after is None:
                break
            ch = {(k, f) for k, f in self.diff(s, after) if k in s0.heap}
            if rnd == 0:
                ch = {(k, f) for k, f in self.diff(s0, after) if k in s0.heap}
            late = False
            for k, f in ch:
                v = after.heap[k].f.get(f) if isinstance(f, str) and k in after.heap and after.heap[k].kind in ('frame', 'obj') else None
                sv = self.loopin(lid, k, f) if v is not None else None
                if v is not None and sv not in self.maybenone and any(l is NONE for _, l in cases(v)):
                    self.maybenone.add(sv)
                    late = True
            if ch <= changed and not late:
                break
            changed |= ch
        h = self.havoc(s0, changed, lid)
        hv = h.fork()
        if test is not None:
            self.loopinfo[lid]['test'] = self.ev(test, h, fr)
            for s2, e in h.pending:
                o.raises.append((s2, e))
            h.pending = []
        e0 = h.events
        x = body(h)
        post = self.merge([x.normal] + x.conts)
        # what leaves the loop in the middle of an iteration has complete iterations behind it
        whole = None
        if post is not None:
            i = self.common(e0, post.events)
            if i < len(post.events):
                whole = Ev('loop', str(lid), (), {}, None, TRUE, post.events[i:])
        full = post.fork() if post is not None else None
        for s2, v in x.rets:
            o.rets.append((self.loopevents(s2, e0, lid, whole), v))
        for s2, e in x.raises:
            o.raises.append((self.loopevents(s2, e0, lid, whole), e))
        brks = [self.loopevents(self.loopout(s0, hv, b, changed, lid, None, full), e0, lid, whole) for b in x.brks]
        literal = test is not None and isinstance(test, ast.Constant) and test.value
        if post is None:
            if literal:
                return None, brks
            r = s0.fork()
            r.pc = band(s0.pc, bnot(self.nonempty(dom, lid) if c0 is None else c0))
            return (r if r.pc is not FALSE else None), brks
        post = self.loopout(s0, hv, post, changed, lid, dom)
        post = self.loopevents(post, e0, lid, whole, True)
        if literal:
            self.endless(s0, post, fr, lid)
            return None, brks
        if c0 is None:
            c0 = self.nonempty(dom, lid)
        post.pc = s0.pc
        if c0 is TRUE:
            return post, brks
        before = s0.fork()
        before.pc = band(s0.pc, bnot(c0))
        post.pc = band(s0.pc, c0)
        for k, c in post.heap.items():
            # a repeated part of a list may be empty
            b = before.heap.get(k)
            if c.kind == 'list' and b is not None and b.kind == 'list' and b is not c and b.x == c.x:
                q0, q1 = b.f['c'], c.f['c']
                if isinstance(q0, Seq) and isinstance(q1, Seq) and q1.segs[:-1] == q0.segs and q1.segs[-1][:2] == ('rep', lid):
                    before.heap[k] = c
        r = self.merge([post, before])
        if r is not None:
            r.pc = s0.pc
        return r, brks

    def endless(self, s0, post, fr, lid):
        """a generator that never ends: the element it yields as a function of the index of the element"""
        y = post.heap[fr].f.get('$yield')
        c0, c1 = self.cellof(y, s0), self.cellof(y, post)
        if c1 is None or c1.kind != 'list':
            return
        a, b = c0.f['c'], c1.f['c']
        if not (isinstance(a, Seq) and isinstance(b, Seq) and not a.segs and len(b.segs) == 1 and b.segs[0][0] == 'rep' and len(b.segs[0][2]) == 1 and b.segs[0][2][0][0] == 'i'):
            return
        t = app('stream', self._uid())
        m = {}
        for sv, (old, new) in self.loopinfo[lid].get('state', {}).items():
            if isinstance(new, (Num, App)) and old is not None and isnumlike(old):
                d = nadd(new, sv, -1)
                if isinstance(d, Const):
                    m[sv] = nadd(old, nmul(d, app('index', t)))
        self.streams[t] = subst(b.segs[0][2][0][1], m)
        self.stream = t

    def nonempty(self, dom, lid):
        if isinstance(dom, App) and dom.op == 'stream':
            return TRUE
        if isinstance(dom, App) and dom.op == 'range' and dom.args[0] is const(0) and dom.args[2] is const(1) and isinstance(dom.args[1], App) and dom.args[1].op == 'val':
            # a count read from a file
            return bnot(V.cmp_eq(dom.args[1], const(0)))
        if isinstance(dom, App) and dom.op == 'repdom' and self.loopinfo[dom.args[0]]['dom'] is not None:
            # one element was appended in every iteration
            return self.nonempty(self.loopinfo[dom.args[0]]['dom'], dom.args[0])
        # zero iterations: the gate is kept but named after the domain
        return atom('nonempty', dom if dom is not None else lid)

    @staticmethod
    def common(a, b):
        i = 0
        while i < len(a) and i < len(b) and b[i] is a[i]:
            i += 1
        return i

    def loopevents(self, s, e0, lid, whole, end=False):
        ev = s.events
        i = self.common(e0, ev)
        if end:
            s.events = ev[:i] + ((whole,) if whole is not None else ())
        elif i < len(ev) or whole is not None:
            s.events = ev[:i] + ((whole,) if whole is not None else ()) + ((Ev('part', str(lid), (), {}, None, TRUE, ev[i:]),) if i < len(ev) else ())
        return s

    def loopin(self, lid, k, f):
        return app('loopin', lid, k, f if not isinstance(f, Leaf) else f.n)

    def havoc(self, s0, changed, lid):
        s = s0.fork()
        for k, f in changed:
            c = s.heap[k]
            if f == '$base':
                if (k, None) in changed:
                    continue
                s.heap[k] = Cell('arr', c.f, self.loopin(lid, k, '$base'), ())
            elif isinstance(f, tuple):
                if (k, None) in changed or (k, '$base') in changed:
                    continue
                if f[0] == '#':
                    s.heap[k] = Cell('arr', c.f, c.x, c.y + ((('$own', loopvar(self.curloop[-1]), f[1]), NONE),))
                    continue
                s.heap[k] = Cell('arr', c.f, c.x, tuple(q for q in c.y if q[0] != f[1:]) + ((f[1:], self.loopin(lid, k, keytext(f))),))
            elif c.kind == 'arr':
                s.heap[k] = Cell('arr', c.f, c.x, c.y + ((('$loop', lid), NONE),))
            elif c.kind == 'list' and exactarr(c):
                s.heap[k] = Cell('list', {'c': seq([('i', self.loopin(lid, k, '[%d]' % i)) for i in range(len(c.f['c'].segs))])}, c.x)
            elif c.kind == 'list':
                old = c.f['c']
                s.heap[k] = Cell('list', {'c': ap(lambda q: seq(q.segs + (('?', app('before', lid)),)) if isinstance(q, Seq) else q, old)}, c.x)
            elif c.kind == 'dict' and f == '$sym':
                s.heap[k] = Cell('dict', c.f, c.x, c.y + (('$loop', lid),))
            else:
                ff = dict(c.f)
                old = ff.get(f)
                ff[f] = self.loopin(lid, k, f)
                if old is not None and any(l is NONE for _, l in cases(old)):
                    self.maybenone.add(ff[f])
                if isinstance(old, Leaf) and (identity_isvec(old) or old in self.vecs):
                    self.vecs.add(ff[f])
                nx = c.x
                if c.kind == 'dict' and f not in c.f:
                    nx = c.x + (f,)
                s.heap[k] = Cell(c.kind, ff, nx, c.y)
        return s

    def loopout(self, s0, hv, post, changed, lid, dom, full=None):
        syms = {self.loopin(lid, k, keytext(f)) for k, f in changed}
        for k, f in changed:
            if exactarr(s0.heap[k]):
                syms |= {self.loopin(lid, k, '[%d]' % i) for i in range(len(s0.heap[k].f['c'].segs))}
        r = post
        if full is not None:
            for k, c in full.heap.items():
                if k not in r.heap:
                    r.heap[k] = c
        for k, f in changed:
            c0, ch, c1 = s0.heap[k], hv.heap[k], r.heap.get(k)
            if c1 is None:
                continue
            if f == '$base' and (k, None) not in changed:
                sv = self.loopin(lid, k, '$base')
                old = c0.x if c0.kind == 'arr' else self.snapcell(c0)
                new = c1.x if c1.kind == 'arr' else self.snapcell(c1)
                self.carry(lid, '&%d' % k, old, sv, new)
                if new is sv:
                    r.heap[k] = c0
                else:
                    r.heap[k] = Cell('arr', c1.f if c1.kind == 'arr' else {}, self.accum(old, sv, new, syms, lid, dom, r), c1.y if c1.kind == 'arr' else ())
            elif isinstance(f, tuple) and f[0] == '#' and c1.kind == 'arr':
                if (k, None) in changed or (k, '$base') in changed:
                    continue
                old = dict(c0.y)
                ys = []
                for key, v in c1.y:
                    if key[:1] == ('$own',) or key[:1] == ('$loop',):
                        continue
                    ys.append(self.generalise(key, v, dom, c1) if old.get(key) is not v else (key, v))
                ys = [q for i, q in enumerate(ys) if not any(q[0] == r2[0] for r2 in ys[i + 1:])]
                r.heap[k] = Cell('arr', c1.f, c1.x, tuple(ys))
            elif isinstance(f, tuple) and c1.kind == 'arr':
                if (k, None) in changed or (k, '$base') in changed:
                    continue
                key = f[1:]
                sv = self.loopin(lid, k, keytext(f))
                old, new = self.arr_read_cell(s0.heap[k], key), self.arr_read_cell(c1, key)
                self.carry(lid, '&%d%s' % (k, keytext(f)), old, sv, new)
                r.heap[k] = Cell('arr', c1.f, c1.x, tuple(q for q in c1.y if q[0] != key) + ((key, self.accum(old, sv, new, syms, lid, dom, r)),))
            elif exactarr(c0) and exactarr(c1) and len(c0.f['c'].segs) == len(c1.f['c'].segs):
                items = []
                for i, (q0, q1) in enumerate(zip(c0.f['c'].segs, c1.f['c'].segs)):
                    sv = self.loopin(lid, k, '[%d]' % i)
                    self.carry(lid, '&%d[%d]' % (k, i), q0[1], sv, q1[1])
                    items.append(q0 if q1[1] is sv else ('i', self.accum(q0[1], sv, q1[1], syms, lid, dom)))
                r.heap[k] = Cell('list', {'c': seq(items)}, c1.x)
            elif c1.kind == 'arr':
                ys = []
                for key, v in c1.y:
                    if key and key[0] == '$loop':
                        continue
                    ys.append((key, v))
                if dom is not None:
                    ys = [self.generalise(key, v, dom, c1) for key, v in ys]
                r.heap[k] = Cell('arr', c1.f, c1.x, tuple(ys))
            elif c1.kind == 'list':
                old, hvc, new = c0.f['c'], ch.f['c'], c1.f['c']
                cf = full.heap.get(k) if full is not None else None
                if cf is not None and cf.kind != 'list':
                    cf = None
                new = self.level(new)
                qf0 = self.level(cf.f['c']) if cf is not None else None

                def conv(q0, qh, q1, qf=None):
                    if qf is None and q1 is qh:
                        return q0
                    if isinstance(q1, Seq) and isinstance(qh, Seq) and isinstance(q0, Seq) and (qf is None or isinstance(qf, Seq)):
                        n = len(qh.segs)
                        if q1.segs[:n] == qh.segs:
                            if qf is None:
                                return seq(q0.segs + (('rep', lid, q1.segs[n:]),))
                            if isinstance(qf, Seq) and qf.segs[:n] == qh.segs:
                                return seq(q0.segs + ((('rep', lid, qf.segs[n:]),) if qf.segs[n:] else ()) + q1.segs[n:])
                    return seq((('?', self.top('list changed in loop')),))
                r.heap[k] = Cell('list', {'c': ap(conv, old, hvc, new) if cf is None else ap(conv, old, hvc, new, qf0)}, c1.x)
            elif c1.kind == 'dict' and f == '$sym':
                r.heap[k] = Cell('dict', c1.f, c1.x, tuple(q for q in c1.y if q[0] != '$loop'))
            else:
                old = c0.f.get(f)
                sv = self.loopin(lid, k, f)
                new = c1.f.get(f)
                self.carry(lid, f if isinstance(f, str) else str(f), old, sv, new)
                if new is sv:
                    v = old if old is not None else UNBOUND
                else:
                    v = self.accum(old, sv, new, syms, lid, dom, r)
                ff = dict(c1.f)
                if v is None:
                    ff.pop(f, None)
                else:
                    ff[f] = v
                r.heap[k] = Cell(c1.kind, ff, c1.x, c1.y)
        return r

    def level(self, q):
        """alternative lists of the same shape are one list of alternatives"""
        if not isinstance(q, Ite):
            return q
        cs = cases(q)
        if not all(isinstance(l, Seq) and len(l.segs) == len(cs[0][1].segs) for _, l in cs):
            return q
        out = []
        for ss in zip(*[l.segs for _, l in cs]):
            if all(x is ss[0] or x == ss[0] for x in ss):
                out.append(ss[0])
            elif all(x[0] == 'i' for x in ss):
                r = ss[-1][1]
                for (c, _), x in list(zip(cs, ss))[:-1][::-1]:
                    r = ite(c, x[1], r)
                out.append(('i', r))
            else:
                return q
        return seq(out)

    def carry(self, lid, name, old, sv, new):
        self.loopinfo[lid].setdefault('carried', {})[name] = (old, sv, new)
        self.loopinfo[lid].setdefault('state', {})[sv] = (old, new)

    def accum(self, old, sv, new, syms, lid, dom, st=None):
        """value after the loop of a variable with value `new` at the end of the generic iteration"""
        if new is None:
            return old
        def one(l):
            if isinstance(l, (Num, App)) and old is not None and not isinstance(old, Ite) and isnumlike(old):
                d = nadd(l, sv, -1)
                if not mentions(d, syms):
                    return nadd(old, app('loopsum', lid, dom if dom is not None else NONE, d))
            return l
        if old is NONE and isinstance(new, Ite) and sv in self.maybenone:
            # pieces joined one after another
            first, later = restrict(new, atom('isnone', sv)), restrict(new, bnot(atom('isnone', sv)))
            if st is not None:
                first = self.snap(first, st)
            if not mentions(first, {sv}) and isinstance(later, App) and later.op == 'call:numpy.concatenate' and len(later.args) == 1 and \
                    isinstance(later.args[0], App) and later.args[0].op in ('list', 'tuple') and later.args[0].args == (sv, first):
                return app('joined', lid, first)
        r = ap(one, new)
        if isinstance(dom, App):
            # after the loop its variables have their last values: another loop over the same domain must not capture them
            lv = {}
            for a in dom.args[:None if dom.op == 'zip' else 1] if dom.op in ('zip', 'enumerate') else [dom]:
                for op in ('loopvar', 'index'):
                    lv[app(op, a)] = app('last', op, dom, a)
            keep = leaves_of(r, lambda x: isinstance(x, App) and x.op == 'loopsum')
            if not keep:
                r = subst(r, lv)
        return r

    def generalise(self, key, v, dom, cell):
        """store at the loop variable of a range: a column-wise store, of the whole axis or of a part of it"""
        if isinstance(dom, App) and dom.op == 'range' and dom.args[2] is const(1):
            lv = loopvar(dom)
            at = [i for i, q in enumerate(key) if q is lv]
            if at:
                lo, hi = dom.args[:2]
                sh = cell.f.get('shape')
                if isinstance(sh, Tup):
                    full = all(i < len(sh.items) and hi is sh.items[i] for i in at)
                else:
                    full = not isinstance(hi, (Num, Const))
                w = FULL if lo is const(0) and full else app('loopslice', lo, hi)
                nk = tuple(w if q is lv else q for q in key)
                return normkey(nk), subst(v, {lv: FULL})
        return key, v

    def arrterm(self, c):
        b = c.x
        if isinstance(b, Const) and isinstance(c.f.get('shape'), Tup) and any(isinstance(q, App) and q.op == 'loopslice' for k, _ in c.y for q in k):
            b = app('filled', b, *c.f['shape'].items)
        return app('arr', b, *[app('store', tup(k) if k and k[0] not in ('$loop', '$own') else const('loop'), v) for k, v in c.y])

    # ------------------------------------------------------------ iteration
    def iterate(self, it, st, n):
        """segments of an iterable leaf"""
        if isinstance(it, Tup):
            return [('i', v) for v in it.items]
        if isinstance(it, Const) and isinstance(it.v, str):
            return [('i', const(ch)) for ch in it.v]
        if isinstance(it, Ref) and it.id in st.heap and st.heap[it.id].kind == 'iter':
            q = st.heap[it.id].f['c']
            return list(q.segs) if isinstance(q, Seq) else [('gen', elem(self.top('iterator')), self.top('iterator'))]
        if isinstance(it, Const) and isinstance(it.v, (tuple, frozenset)):
            return [('i', const(ch)) for ch in it.v]
        if isinstance(it, App) and it.op == 'range':
            lo, hi, stp = it.args
            if all(isinstance(x, Const) and isinstance(x.v, int) for x in it.args):
                r = range(lo.v, hi.v, stp.v)
                if len(r) <= UNROLL:
                    return [('i', const(i)) for i in r]
            return [('gen', loopvar(it), it)]
        if isinstance(it, App) and it.op == 'zip':
            parts = [self.iterate(a, st, n) for a in it.args]
            if len(it.args) > 1 and isinstance(it.args[0], Ref) and all(a is it.args[0] for a in it.args) and it.args[0].id in st.heap and st.heap[it.args[0].id].kind == 'iter':
                parts = [p[i::len(parts)] for i, p in enumerate(parts)]
            if all(all(s[0] == 'i' for s in p) for p in parts):
                return [('i', tup([s[1] for s in ss])) for ss in zip(*parts)]
            if all(len(p) == 1 and p[0][0] == 'gen' for p in parts):
                return [('gen', tup([p[0][1] for p in parts]), it)]
            return [('gen', tup([elem(a) for a in it.args]), it)]
        if isinstance(it, App) and it.op == 'enumerate':
            base = self.iterate(it.args[0], st, n)
            if all(s[0] == 'i' for s in base):
                return [('i', tup([nadd(it.args[1], const(k)), s[1]])) for k, s in enumerate(base)]
            if len(base) == 1:
                return [('gen', tup([app('index', it.args[0]), base[0][1]]), it)]
            return [('gen', tup([app('index', it.args[0]), elem(it.args[0])]), it)]
        if isinstance(it, App) and it.op == 'reversed':
            base = self.iterate(it.args[0], st, n)
            if all(s[0] == 'i' for s in base):
                return list(reversed(base))
            return [('gen', elem(it), it)]
        if isinstance(it, App) and it.op in ('dictkeys', 'dictvalues', 'dictitems'):
            c = st.heap.get(it.args[0].id)
            out = []
            maybe = False
            for k in c.x:
                v = c.f.get(k)
                if v is None or v is MISSING:
                    continue
                if isinstance(v, Ite) and any(l is MISSING for _, l in cases(v)):
                    maybe = True
                e = {'dictkeys': k, 'dictvalues': v, 'dictitems': tup([k, v])}[it.op]
                out.append(('i', e))
            if maybe:
                self.notes.add('iteration over a dict with conditionally present keys')
                return [('gen', elem(it), it)]
            for s in c.y:
                if s[0] == '$loop':
                    out.append(('gen', elem(it), it))
                else:
                    e = {'dictkeys': s[0], 'dictvalues': s[1], 'dictitems': tup([s[0], s[1]])}[it.op]
                    out.append(('gen', e, it))
            return out
        if isinstance(it, Ref):
            c = st.heap.get(it.id)
            if c is not None:
                if c.kind == 'list':
                    q = c.f['c']
                    if isinstance(q, Seq):
                        return self.segs2iter(q.segs, it)
                    return [('gen', elem(it), it)]
                if c.kind == 'arr' and isinstance(c.x, Sym) and 'six' in c.x.attrs:
                    rows = [self.arr_read_cell(c, (const(k),)) for k in range(6)]
                    for k, r in enumerate(rows):
                        if isinstance(r, Leaf) and not isinstance(r, Const):
                            self.viewed(r, it, const(k))
                    return [('i', r) for r in rows]
                if c.kind == 'dict':
                    return self.iterate(app('dictkeys', it), st, n)
                if c.kind == 'obj' and '$dict' in c.f:
                    return self.iterate(app('dictkeys', c.f['$dict']), st, n)
                if c.kind == 'obj':
                    meth = self.lookup(c.x, '__iter__', st)
                    if meth is not None:
                        v = self.call(self.bind(meth, it, c.x), [], {}, st, n)
                        if v is not it and not isinstance(v, Ite):
                            return self.iterate(v, st, n)
        if isinstance(it, App) and it.op == 'stream':
            return [('gen', self.streams[it], it)]
        if six(it):
            return [('i', self.elemread(it, (const(k),))) for k in range(6)]
        return [('gen', elem(it), it)]

    def segs2iter(self, segs, it):
        out = []
        for s in segs:
            if s[0] == 'i':
                out.append(s)
            elif s[0] == 'rep':
                inner = s[2]
                if isinstance(inner, tuple) and len(inner) == 1 and inner[0][0] == 'i':
                    out.append(('gen', inner[0][1], app('repdom', s[1])))
                else:
                    out.append(('gen', elem(it), it))
            else:
                out.append(('gen', elem(it), it))
        return out

    # ------------------------------------------------------------ variables
    def setvar(self, st, fr, name, v):
        c = st.heap[fr]
        if c.y and c.y[1] is not None and name in c.y[1].get('$global', ()):
            g = self.modframes[c.y[0]]
            st.heap[g] = self.withvar(st.heap[g], name, v)
            return
        if c.y and c.y[1] is not None and name in c.y[1].get('$nonlocal', ()):
            p = c.x
            while p is not None:
                if name in st.heap[p].f:
                    st.heap[p] = self.withvar(st.heap[p], name, v)
                    return
                p = st.heap[p].x
        st.heap[fr] = self.withvar(c, name, v)

    def getvar(self, st, fr, name, node=None):
        f = fr
        first = True
        while f is not None:
            c = st.heap[f]
            v = c.f.get(name)
            if v is not None:
                if v is UNBOUND:
                    self.raise_(st, TRUE, 'NameError', const(name))
                    return BOT
                if isinstance(v, Ite):
                    u = FALSE
                    for cc, l in cases(v):
                        if l is UNBOUND:
                            u = bor(u, cc)
                    if u is not FALSE:
                        v = ap(lambda l: BOT if l is UNBOUND else l, v)
                return v
            if first and c.y and c.y[1] is not None and name in c.y[1]['$locals']:
                self.raise_(st, TRUE, 'UnboundLocalError', const(name))
                return BOT
            first = False
            f = c.x
            while f is not None and st.heap[f].y and st.heap[f].y[0] == '$class':
                f = st.heap[f].x
        if hasattr(builtins, name):
            if name in ('True', 'False', 'None'):
                return const(getattr(builtins, name))
            return ext(name)
        if name in ('__file__', '__doc__'):
            return sym(name, 'str')
        if name.startswith('__') and name in self.models:
            return ext(name)
        self.raise_(st, TRUE, 'NameError', const(name))
        return BOT

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            self.setvar(st, fr, t.id, v)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, st, fr)
            self.setattr_(o, t.attr, v, st, t)
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, st, fr)
            k = self.ev(t.slice, st, fr)
            self.setitem(o, k, v, st, t)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            n = len(t.elts)
            if star:
                items = self.unpack_star(v, n, star[0], st)
            else:
                items = self.unpack(v, n, st)
            for e, x in zip(t.elts, items):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, st, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr)

    def unpack(self, v, n, st):
        cs = cases(v)
        if len(cs) > 1:
            parts = [self.unpack(l, n, st) for _, l in cs]
            out = []
            for i in range(n):
                r = parts[-1][i]
                for (c, _), p in list(zip(cs, parts))[:-1][::-1]:
                    r = ite(c, p[i], r)
                out.append(r)
            return out
        l = v
        if isinstance(l, Tup) and len(l.items) == n:
            return list(l.items)
        if isinstance(l, Ref):
            c = st.heap.get(l.id)
            if c is not None and c.kind == 'list' and isinstance(c.f['c'], Seq):
                sg = c.f['c'].segs
                if len(sg) == n and all(s[0] == 'i' for s in sg):
                    return [s[1] for s in sg]
        if isinstance(l, (Ref, App, Sym, Top)):
            return [self.getitem(l, const(i), st, None) for i in range(n)]
        return [app('unpack', l, i) for i in range(n)]

    def unpack_star(self, v, n, k, st):
        items = None
        if isinstance(v, Tup):
            items = list(v.items)
        elif isinstance(v, Ref):
            c = st.heap.get(v.id)
            if c is not None and c.kind == 'list' and isinstance(c.f['c'], Seq) and all(s[0] == 'i' for s in c.f['c'].segs):
                items = [s[1] for s in c.f['c'].segs]
        if items is None or len(items) < n - 1:
            return [self.top('starred unpacking') for _ in range(n)]
        m = len(items) - (n - 1)
        return items[:k] + [self.newlist(st, items[k:k + m])] + items[k + m:]

    # ------------------------------------------------------------ expressions
    def ev(self, n, st, fr):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            return self.top('expression %s' % type(n).__name__)
        return m(n, st, fr)

    def e_Constant(self, n, st, fr):
        return const(n.value) if not isinstance(n.value, (complex, type(Ellipsis))) else app('literal', repr(n.value))

    def e_Name(self, n, st, fr):
        return self.getvar(st, fr, n.id, n)

    def e_Tuple(self, n, st, fr):
        return tup(self.elts(n.elts, st, fr))

    def elts(self, es, st, fr):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, st, fr)
                sg = self.iterate(v, st, e) if not isinstance(v, Ite) else None
                if sg is not None and all(s[0] == 'i' for s in sg):
                    out += [s[1] for s in sg]
                else:
                    out.append(app('star', v))
            else:
                out.append(self.ev(e, st, fr))
        return out

    def e_List(self, n, st, fr):
        return self.newlist(st, self.elts(n.elts, st, fr))

    def e_Set(self, n, st, fr):
        return tup(self.elts(n.elts, st, fr))

    def e_Dict(self, n, st, fr):
        r = self.newdict(st, [])
        for k, v in zip(n.keys, n.values):
            if k is None:
                self.models['dict.update'](self, st, r, [self.ev(v, st, fr)], {}, n)
            else:
                kk = self.ev(k, st, fr)
                self.setitem(r, kk, self.ev(v, st, fr), st, n)
        return r

    def e_Attribute(self, n, st, fr):
        return self.getattr_(self.ev(n.value, st, fr), n.attr, st, n)

    def e_Subscript(self, n, st, fr):
        o = self.ev(n.value, st, fr)
        return self.getitem(o, self.ev(n.slice, st, fr), st, n)

    def e_Slice(self, n, st, fr):
        g = lambda x: NONE if x is None else self.ev(x, st, fr)
        return ap(slicev, g(n.lower), g(n.upper), g(n.step))

    def e_Index(self, n, st, fr):
        return self.ev(n.value, st, fr)

    def e_ExtSlice(self, n, st, fr):
        return tup([self.ev(x, st, fr) for x in n.dims])

    def e_UnaryOp(self, n, st, fr):
        v = self.ev(n.operand, st, fr)
        if isinstance(n.op, ast.Not):
            return bnot(truth(self.truthval(v, st)))
        if isinstance(n.op, ast.USub):
            return self.binop(ast.Mult(), const(-1), v, st, n) if not (isinstance(v, Const) and isinstance(v.v, (int, float))) else const(-v.v)
        if isinstance(n.op, ast.UAdd):
            return v
        return ap(lambda l: app('invert', l), v)

    def truthval(self, v, st):
        """replace container refs by their truth"""
        def one(l):
            if isinstance(l, Ref):
                c = st.heap.get(l.id)
                if c is not None:
                    if c.kind == 'list':
                        q = c.f['c']
                        return ap(lambda s: (TRUE if any(x[0] == 'i' for x in s.segs) else (FALSE if not s.segs else atom('truth', s))) if isinstance(s, Seq) else atom('truth', s), q)
                    if c.kind == 'dict':
                        if c.y:
                            return atom('truth', l)
                        r = FALSE
                        for k in c.x:
                            r = bor(r, ap(lambda z: const(z is not MISSING), c.f.get(k, MISSING)))
                        return r
                    if c.kind == 'obj':
                        if '$dict' in c.f:
                            return self.truthval(c.f['$dict'], st)
                        return TRUE
                    return atom('truth', l)
            return l
        return ap(one, v)

    def e_BoolOp(self, n, st, fr):
        r = self.ev(n.values[0], st, fr)
        for x in n.values[1:]:
            c = truth(self.truthval(r, st))
            if isinstance(n.op, ast.Or):
                c = bnot(c)
            # evaluate the right operand only where it is reached
            if restrict(c, st.pc) is FALSE or c is FALSE:
                continue
            v = self.guarded(c, lambda s: self.ev(x, s, fr), st)
            r = ite(c, v, r)
        return r

    def guarded(self, c, f, st):
        """evaluate f in the part of the state where c holds; effects are gated"""
        if c is TRUE:
            return f(st)
        s = st.fork()
        s.pc = band(st.pc, c)
        if s.pc is FALSE:
            return BOT
        before = st.heap
        v = f(s)
        pend, s.pending = s.pending, []
        st.pending += pend
        if s.heap is not before:
            o = st.fork()
            o.pc = band(st.pc, bnot(c))
            m = self.merge([s, o])
            if m is not None:
                st.become(m)
            else:
                st.pc = FALSE
        elif v is BOT or s.pc is not band(st.pc, c):
            st.pc = bor(band(st.pc, bnot(c)), s.pc)
        return v

    def e_IfExp(self, n, st, fr):
        c = truth(self.truthval(self.ev(n.test, st, fr), st))
        cr = restrict(c, st.pc)
        if cr is TRUE or c is TRUE:
            return self.ev(n.body, st, fr)
        if cr is FALSE or c is FALSE:
            return self.ev(n.orelse, st, fr)
        a = self.guarded(c, lambda s: self.ev(n.body, s, fr), st)
        b = self.guarded(bnot(c), lambda s: self.ev(n.orelse, s, fr), st)
        return ite(c, a, b)

    def e_NamedExpr(self, n, st, fr):
        v = self.ev(n.value, st, fr)
        self.assign(n.target, v, st, fr)
        return v

    def e_Starred(self, n, st, fr):
        return app('star', self.ev(n.value, st, fr))

    def e_Lambda(self, n, st, fr):
        return self.mkfunc(n, st, fr, lam=True)

    def e_Await(self, n, st, fr):
        return self.ev(n.value, st, fr)

    def e_Yield(self, n, st, fr):
        v = self.ev(n.value, st, fr) if n.value is not None else NONE
        c = st.heap[fr]
        y = c.f.get('$yield')
        if y is not None:
            self.models['list.append'](self, st, y, [v], {}, n)
        return NONE

    def e_YieldFrom(self, n, st, fr):
        v = self.ev(n.value, st, fr)
        if isinstance(v, App) and v.op == 'stream':
            self.stream = v
            st.pc = FALSE
            return NONE
        y = st.heap[fr].f.get('$yield')
        if y is not None:
            self.models['list.extend'](self, st, y, [v], {}, n)
        return NONE

    def e_JoinedStr(self, n, st, fr):
        parts = [self.ev(v, st, fr) for v in n.values]
        return ap(lambda *ps: strv(ps), *parts)

    def e_FormattedValue(self, n, st, fr):
        v = self.ev(n.value, st, fr)
        spec = self.ev(n.format_spec, st, fr) if n.format_spec is not None else const('')
        conv = n.conversion
        return ap(lambda l, s: self.fmt(l, s, conv), v, spec)

    def fmt(self, l, spec, conv=-1):
        if isinstance(spec, Const) and spec.v == '' and conv in (-1, 115):
            if isinstance(l, Const):
                return const(str(l.v)) if not isinstance(l.v, bytes) else app('fmt', l, spec)
            if isinstance(l, StrV):
                return l
            if isinstance(l, Sym) and 'str' in l.attrs:
                return l
        if isinstance(spec, Const) and isinstance(spec.v, str) and isinstance(l, Const) and type(l.v) in (int, str) and conv == -1:
            try:
                return const(spec.v % l.v if spec.v[:1] == '%' else format(l.v, spec.v))
            except (ValueError, TypeError):
                pass
        return strv([app('fmt', l, spec) if not (isinstance(spec, Const) and spec.v == '' and conv in (-1, 115)) else app('str', l)])

    def e_Compare(self, n, st, fr):
        l = self.ev(n.left, st, fr)
        r = TRUE
        for op, x in zip(n.ops, n.comparators):
            v = self.ev(x, st, fr)
            c = self.compare(op, l, v, st, n)
            r = c if r is TRUE else ite(truth(r), c, r)
            l = v
        return r

    def compare(self, op, a, b, st, n):
        def one(x, y):
            return self.cmpleaf(op, x, y, st, n)
        return self.apr(one, st, a, b)

    def cmpleaf(self, op, a, b, st, n):
        neg = False
        if isinstance(op, ast.IsNot):
            op, neg = ast.Is(), True
        elif isinstance(op, ast.NotEq):
            op, neg = ast.Eq(), True
        elif isinstance(op, ast.NotIn):
            op, neg = ast.In(), True
        r = self._cmp(op, a, b, st, n)
        return bnot(truth(r)) if neg else r

    def _cmp(self, op, a, b, st, n):
        if isinstance(op, ast.Is):
            if a is NONE or b is NONE:
                o = b if a is NONE else a
                return self.isnone(o)
            if a is b:
                return TRUE
            if isinstance(a, Const) and isinstance(b, Const):
                return const(a.v is b.v)
            if isinstance(a, Ref) and isinstance(b, Ref):
                return FALSE
            if isinstance(a, Ext) and isinstance(b, Ext) and a.name in CLASSES and b.name in CLASSES:
                return FALSE
            return atom('is', a, b)
        if isinstance(op, ast.In):
            return self.contains(b, a, st, n)
        if isinstance(op, ast.Eq):
            return self.eqleaf(a, b, st)
        if isinstance(a, Const) and isinstance(b, Const):
            try:
                f = {ast.Lt: lambda: a.v < b.v, ast.Gt: lambda: a.v > b.v, ast.LtE: lambda: a.v <= b.v,
                     ast.GtE: lambda: a.v >= b.v}[type(op)]
                return const(bool(f()))
            except TypeError:
                self.raise_(st, TRUE, 'TypeError')
                return BOT
        if isnumlike(a) and isnumlike(b) and not isinstance(a, Ref):
            if isinstance(op, ast.Lt):
                return cmp_lt(a, b)
            if isinstance(op, ast.Gt):
                return cmp_lt(b, a)
            if isinstance(op, ast.LtE):
                return bnot(cmp_lt(b, a))
            if isinstance(op, ast.GtE):
                return bnot(cmp_lt(a, b))
        if a is NONE or b is NONE:
            self.raise_(st, TRUE, 'TypeError')
            return BOT
        for x, y, up in ((a, b, (ast.Gt, ast.GtE)), (b, a, (ast.Lt, ast.LtE))):
            # infinity is above every number
            if isinstance(x, Ext) and x.name in ('numpy.inf', 'math.inf', 'numpy.Inf', 'numpy.infty') and isnumlike(y) and not isinstance(y, Ref):
                return const(isinstance(op, up))
        return atom('cmp', type(op).__name__, a, b)

    def isnone(self, o):
        if o is NONE:
            return TRUE
        if isinstance(o, Sym):
            if 'maybenone' in o.attrs:
                return atom('isnone', o)
            return FALSE
        if isinstance(o, App) and o.op in ('dictget', 'm:get', 'getattr', 'attr', 'getitem', 'elem'):
            return atom('isnone', o)
        if isinstance(o, App) and o.op.startswith('call:'):
            return atom('isnone', o)
        if isinstance(o, App) and o.op == 'loopin' and o in self.maybenone:
            return atom('isnone', o)
        if isinstance(o, (Top,)):
            return atom('isnone', o)
        return FALSE

    def eqleaf(self, a, b, st):
        if a is b:
            return TRUE
        if isinstance(a, Ext) and isinstance(b, Ext) and a.name in CLASSES and b.name in CLASSES:
            return FALSE
        if isinstance(a, Const) and isinstance(b, Const):
            return const(a.v == b.v)
        if a is NONE or b is NONE:
            return self.isnone(a if b is NONE else b)
        sa = isinstance(a, StrV) or (isinstance(a, Const) and isinstance(a.v, (str, bytes)))
        sb = isinstance(b, StrV) or (isinstance(b, Const) and isinstance(b.v, (str, bytes)))
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.items) != len(b.items):
                return FALSE
            r = TRUE
            for x, y in zip(a.items, b.items):
                r = band(r, truth(ap(lambda p, q: self.eqleaf(p, q, st), x, y)))
            return r
        if sa or sb:
            for x, y in ((a, b), (b, a)):
                if isinstance(x, Const) and x.v == '' and (isinstance(y, Sym) and 'nonempty' in y.attrs or
                                                           isinstance(y, StrV) and any(isinstance(q, Const) and q.v for q in y.parts)):
                    return FALSE
            if isinstance(a, (Ref, Tup, Num, Func, ClassV)) or isinstance(b, (Ref, Tup, Num, Func, ClassV)):
                return FALSE
            if any(isinstance(x, Sym) and 'num' in x.attrs for x in (a, b)):
                return FALSE
            if isinstance(a, Const) and isinstance(a.v, (int, float)) or isinstance(b, Const) and isinstance(b.v, (int, float)):
                return FALSE
            if a.n > b.n:
                a, b = b, a
            return atom('eqv', a, b)
        if all(isinstance(x, Sym) and 'symbol' in x.attrs for x in (a, b)):
            return FALSE
        if isnumlike(a) and isnumlike(b):
            return cmp_eq(a, b)
        if isinstance(a, (ClassV, Ext)) and isinstance(b, (ClassV, Ext)):
            return const(a is b)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, App) and x.op == 'type' and isinstance(y, Ext) and y.name in ('list', 'dict', 'tuple', 'set', 'str') and \
                    isinstance(x.args[0], (Sym, Num)) and isnumlike(x.args[0]) and (isinstance(x.args[0], Num) or 'num' in x.args[0].attrs):
                return FALSE
        if isinstance(a, Ref) and isinstance(b, Ref):
            ca, cb = st.heap.get(a.id), st.heap.get(b.id)
            if ca is not None and cb is not None and ca.kind == cb.kind == 'list':
                qa, qb = ca.f['c'], cb.f['c']
                if isinstance(qa, Seq) and isinstance(qb, Seq) and all(s[0] == 'i' for s in qa.segs + qb.segs):
                    if len(qa.segs) != len(qb.segs):
                        return FALSE
                    r = TRUE
                    for x, y in zip(qa.segs, qb.segs):
                        r = band(r, truth(ap(lambda p, q: self.eqleaf(p, q, st), x[1], y[1])))
                    return r
            if ca is not None and cb is not None:
                ka, kb = self.eqkind(ca, st), self.eqkind(cb, st)
                if 'method' in (ka, kb):
                    x, y = (a, b) if ka == 'method' else (b, a)
                    m = self.lookup((ca if ka == 'method' else cb).x, '__eq__', st)
                    return truth(self.call(self.bind(m, x, (ca if ka == 'method' else cb).x), [y], {}, st, None))
                if ka is not None and kb is not None and (ka == 'identity' or kb == 'identity'):
                    return FALSE
        if a.n > b.n:
            a, b = b, a
        return atom('eqv', a, b)

    def eqkind(self, c, st):
        """how an object is compared: by a method of the package, by identity, by value; None when unknown"""
        if c.kind in ('list', 'dict'):
            return 'value'
        if c.kind != 'obj' or '$opaque' in c.f or '$dict' in c.f:
            return None
        if isinstance(self.lookup(c.x, '__eq__', st), Func):
            return 'method'
        return None if self.hasextbase(c.x) else 'identity'

    def contains(self, c, x, st, n):
        if isinstance(c, Tup):
            r = FALSE
            for i in c.items:
                r = bor(r, truth(ap(lambda p: self.eqleaf(p, x, st), i)))
            return r
        if isinstance(c, Const) and isinstance(c.v, (str, bytes)) and isinstance(x, Const):
            try:
                return const(x.v in c.v)
            except TypeError:
                return BOT
        if isinstance(c, Ref):
            cell = st.heap.get(c.id)
            if cell is not None:
                if cell.kind == 'list':
                    def one(q):
                        r = FALSE
                        if not isinstance(q, Seq):
                            return atom('in', x, q)
                        for s in q.segs:
                            if s[0] == 'i':
                                r = bor(r, truth(ap(lambda p: self.eqleaf(p, x, st), s[1])))
                            else:
                                r = bor(r, atom('in', x, c))
                        return r
                    return ap(one, cell.f['c'])
                if cell.kind == 'dict':
                    r = FALSE
                    if x in cell.f:
                        r = ap(lambda l: const(l is not MISSING), cell.f[x])
                    if fixed(x) and not cell.y:
                        if all(fixed(k) for k in cell.f):
                            return r
                    for k in cell.f:
                        if k is not x and not (fixed(k) and fixed(x)):
                            r = bor(r, truth(self.eqleaf(k, x, st)))
                    for s in cell.y:
                        r = bor(r, atom('in', x, c))
                    return r
                if cell.kind == 'obj':
                    m = self.lookup(cell.x, '__contains__', st)
                    if m is not None and not isinstance(m, Ext):
                        return truth(self.call(self.bind(m, c, cell.x), [x], {}, st, n))
                    if '$dict' in cell.f:
                        return self.contains(cell.f['$dict'], x, st, n)
        if isinstance(c, App) and c.op == 'dictkeys':
            return self.contains(c.args[0], x, st, n)
        if isinstance(c, App) and c.op == 'dictvalues':
            cell = st.heap.get(c.args[0].id)
            if cell is not None and not cell.y:
                r = FALSE
                for k in cell.x:
                    r = bor(r, truth(ap(lambda p: FALSE if p is MISSING else self.eqleaf(p, x, st), cell.f[k])))
                return r
        if isinstance(c, App) and c.op == 'stream':
            # every element in turn, each once: asked a second time for the same element it never answers
            e = self.streams[c]
            self.event(st, 'note', 'find', [c, x], {}, n)
            if isinstance(x, App) and x.op == 'index' and subst(e, {app('index', c): x}) is x:
                return TRUE
            return atom('in', x, c)
        if isinstance(c, App) and c.op == 'range' and isinstance(x, Const) and all(isinstance(q, Const) for q in c.args):
            return const(x.v in range(*[q.v for q in c.args]))
        return atom('in', x, c)

    def e_BinOp(self, n, st, fr):
        a = self.ev(n.left, st, fr)
        b = self.ev(n.right, st, fr)
        return self.binop(n.op, a, b, st, n)

    def binop(self, op, a, b, st, n=None):
        def one(x, y):
            return self.binleaf(op, x, y, st, n)
        return self.apr(one, st, a, b)

    def cellof(self, v, st):
        return st.heap.get(v.id) if isinstance(v, Ref) else None

    def binleaf(self, op, a, b, st, n):
        ca, cb = self.cellof(a, st), self.cellof(b, st)
        if ca is not None or cb is not None:
            return self.binref(op, a, b, ca, cb, st, n)
        if isinstance(a, Tup) or isinstance(b, Tup):
            if isinstance(op, ast.Add) and isinstance(a, Tup) and isinstance(b, Tup):
                return tup(a.items + b.items)
            if isinstance(op, ast.Mult) and isinstance(a, Tup) and isinstance(b, Const) and isinstance(b.v, int):
                return tup(a.items * b.v)
            if isinstance(op, ast.Mod) and isstr(a):
                return self.percent(a, b, st)
            return app('op' + type(op).__name__, a, b)
        if isinstance(a, Const) and isinstance(b, Const):
            try:
                if isinstance(op, ast.Mult) and (isinstance(a.v, (str, bytes)) and len(a.v) * b.v > 10**5 or isinstance(b.v, (str, bytes)) and len(b.v) * a.v > 10**5):
                    raise Runaway('a text of over 100000 characters')
                v = PYOPS[type(op)](a.v, b.v)
                if isinstance(v, (str, bytes)) and len(v) > 10**5:
                    raise Runaway('a text of over 100000 characters')
                if isinstance(v, (int, float, str, bytes, bool, tuple)):
                    return const(v)
                return app('literal', repr(v))
            except ZeroDivisionError:
                self.raise_(st, TRUE, 'ZeroDivisionError')
                return BOT
            except Budget:
                raise
            except Exception:
                self.raise_(st, TRUE, 'TypeError')
                return BOT
        if isstr(a) or isstr(b):
            if isinstance(op, ast.Add):
                return strv([a, b])
            if isinstance(op, ast.Mod) and isstr(a):
                return self.percent(a, b, st)
            return app('op' + type(op).__name__, a, b)
        if a is NONE or b is NONE or a is MISSING or b is MISSING:
            self.raise_(st, TRUE, 'TypeError')
            return BOT
        if isnumlike(a) and isnumlike(b):
            return numop(op, a, b)
        return app('op' + type(op).__name__, a, b)

    def percent(self, a, b, st):
        args = list(b.items) if isinstance(b, Tup) else [b]
        if isinstance(a, Const) and isinstance(a.v, str):
            import re
            parts = re.split(r'(%[-+ #0]*[\d.*]*[sdfgeirxEGX%])', a.v)
            out = []
            i = 0
            for p in parts:
                if p.startswith('%') and len(p) > 1:
                    if p == '%%':
                        out.append(const('%'))
                        continue
                    if i >= len(args):
                        return app('percent', a, b)
                    x = args[i]
                    i += 1
                    out.append(ap(lambda l: self.fmt(l, const('')) if p == '%s' else self.fmt(l, const(p)) if isinstance(l, Const) else app('fmt', l, const(p)), x))
                else:
                    out.append(const(p))
            return ap(lambda *ps: strv(ps), *out)
        return app('percent', a, b)

    def binref(self, op, a, b, ca, cb, st, n):
        la = ca is not None and ca.kind == 'list'
        lb = cb is not None and cb.kind == 'list'
        if la and lb and not ca.x and not cb.x and isinstance(op, ast.Add):
            return self.new(st, Cell('list', {'c': ap(lambda p, q: seq(p.segs + q.segs) if isinstance(p, Seq) and isinstance(q, Seq) else p, ca.f['c'], cb.f['c'])}, False))
        if la and not ca.x and isinstance(op, ast.Mult) and isinstance(b, Const) and isinstance(b.v, int):
            return self.new(st, Cell('list', {'c': ap(lambda p: seq(p.segs * b.v) if isinstance(p, Seq) else p, ca.f['c'])}, False))
        if lb and not cb.x and isinstance(op, ast.Mult) and isinstance(a, Const) and isinstance(a.v, int):
            return self.binref(op, b, a, cb, ca, st, n)
        for c, r, o, meth in ((ca, a, b, OPM.get(type(op), (None, None))[0]), (cb, b, a, OPM.get(type(op), (None, None))[1])):
            if c is not None and c.kind == 'obj' and meth:
                f = self.lookup(c.x, meth, st)
                if f is not None and isinstance(f, Func):
                    return self.call(self.bind(f, r, c.x), [o], {}, st, n)
        if isinstance(op, ast.MatMult):
            z = self.matrixtimes(a, b, st, n)
            if z is not None:
                return z
        # elementwise on arrays
        ea, eb = self.elems(ca), self.elems(cb)
        if (ca is None or ea is not None) and (cb is None or eb is not None):
            if ea is not None and eb is not None:
                if len(ea) != len(eb):
                    return self.top('array shapes')
                items = [self.binop(op, x, y, st, n) for x, y in zip(ea, eb)]
            elif ea is not None:
                items = [self.binop(op, x, self.vecelem(b, i), st, n) for i, x in enumerate(ea)]
            else:
                items = [self.binop(op, self.vecelem(a, i), y, st, n) for i, y in enumerate(eb)]
            return self.newlist(st, items, True)
        if ca is not None and ca.kind == 'arr' and (cb is None or cb.kind == 'arr'):
            return self.arrmap2(st, op, a, b, n)
        if cb is not None and cb.kind == 'arr' and ca is None:
            return self.arrmap2(st, op, a, b, n)
        return app('op' + type(op).__name__, self.snap(a, st), self.snap(b, st))

    def matrixtimes(self, l, q, st, n):
        """the rows of a matrix known element by element times a block of rows of a phase space array"""
        rows = self.elems(self.cellof(l, st))
        rows = [self.elems(self.cellof(x, st)) for x in rows] if rows else None
        if not rows or any(not x or len(x) != len(rows[0]) for x in rows) or not isinstance(q, App) or q.op != 'elem' or not six(q.args[0]) or not isinstance(q.args[1], SliceV):
            return None
        if any(x is not FULL for x in q.args[2:]):
            return None
        s = pyslice(q.args[1])
        at = list(range(6))[s] if s is not None else []
        if len(at) != len(rows[0]):
            return None
        out = []
        for x in rows:
            t = const(0)
            for c, k in zip(x, at):
                t = self.binop(ast.Add(), t, self.binop(ast.Mult(), c, self.elemread(q.args[0], (const(k),)), st, n), st, n)
            out.append(t)
        return self.newlist(st, out, True)

    def vecelem(self, v, i):
        """element i of an operand that is broadcast against a one dimensional array of known length"""
        def isv(l):
            return identity_isvec(l) or l in self.vecs or isinstance(l, App) and l.op == 'loopin' and l.args[2] == '$base'
        if isinstance(v, Ite):
            return ap(lambda l: self.vecelem(l, i), v)
        if isv(v):
            return self.elemread(v, (const(i),))
        if isinstance(v, Num) and any(isv(a) for m, _ in v.terms for a, _e in m):
            r = const(0)
            for m, cf in v.terms:
                t = const(cf)
                for a, e in m:
                    t = nmul(t, npow(self.vecelem(a, i), e))
                r = nadd(r, t)
            return r
        return v

    def elems(self, c):
        if c is None or c.kind != 'list':
            return None
        q = c.f['c']
        if isinstance(q, Seq) and all(s[0] == 'i' for s in q.segs):
            return [s[1] for s in q.segs]
        return None

    def arrmap2(self, st, op, a, b, n):
        ca, cb = self.cellof(a, st), self.cellof(b, st)
        keys = []
        for c in (ca, cb):
            if c is not None:
                for k, _ in c.y:
                    if k not in keys:
                        keys.append(k)
        ba = ca.x if ca is not None else a
        bb = cb.x if cb is not None else b
        base = self.binop(op, ba, bb, st, n)
        ys = []
        for k in keys:
            va = self.arr_read_cell(ca, k) if ca is not None else a
            vb = self.arr_read_cell(cb, k) if cb is not None else b
            ys.append((k, self.binop(op, va, vb, st, n)))
        return self.new(st, Cell('arr', {}, base, tuple(ys)))

    def snap(self, v, st, depth=0):
        """immutable term describing the current content behind a reference"""
        def one(l):
            c = self.cellof(l, st)
            if isinstance(l, Tup):
                return app('tuple', *[self.snap(x, st, depth + 1) for x in l.items])
            if c is None or depth > 12:
                return l
            if c.kind == 'list':
                q = c.f['c']
                def f(s):
                    if not isinstance(s, Seq):
                        return app('list?', s)
                    out = []
                    for x in s.segs:
                        if x[0] == 'i':
                            out.append(self.snap(x[1], st, depth + 1))
                        elif x[0] == 'rep':
                            out.append(app('rep', x[1], *[self.snap(y[1], st, depth + 1) if y[0] == 'i' else app('seg?', str(y)) for y in x[2]]))
                        else:
                            out.append(app('seg?', x[1]))
                    return app('array' if c.x else 'list', *out)
                return ap(f, q)
            if c.kind == 'dict':
                if c.y:
                    return app('dict?', *[app('pair', k, self.snap(c.f[k], st, depth + 1)) for k in c.x if k in c.f],
                               *[app('spair', s[0] if isinstance(s[0], Leaf) else str(s[0]), self.snap(s[1], st, depth + 1) if isinstance(s[1], (Leaf, Ite)) else str(s[1])) for s in c.y])
                return app('dict', *[app('pair', k, self.snap(c.f[k], st, depth + 1)) for k in c.x if k in c.f])
            if c.kind == 'arr':
                return self.arrterm(c) if c.y else c.x
            if c.kind == 'obj' and '_term' in c.f:
                return c.f['_term']
            return l
        return ap(one, v)

    # ------------------------------------------------------------ comprehensions
    def comp(self, n, st, fr, emit):
        """run a comprehension in a child frame"""
        self.nid += 1
        cf = self.nid
        st.heap[cf] = Cell('frame', {}, fr, ('$comp', None))

        def gen(i, s):
            o = Out()
            if i == len(n.generators):
                emit(s, cf)
                o.normal = s
                self.flush(s, o)
                return o
            g = n.generators[i]
            body = [('comp', i)]
            it = self.ev(g.iter, s, cf if i else fr)
            self.flush(s, o)

            def inner(s2):
                o2 = Out()
                conts = []
                for c in g.ifs:
                    t = truth(self.truthval(self.ev(c, s2, cf), s2))
                    self.flush(s2, o2)
                    no = band(s2.pc, bnot(t))
                    if no is not FALSE:
                        s3 = s2.fork()
                        s3.pc = no
                        conts.append(s3)
                    s2.pc = band(s2.pc, t)
                    if s2.pc is FALSE:
                        s2 = None
                        break
                if s2 is not None:
                    x = gen(i + 1, s2)
                    o2.absorb(x)
                    s2 = x.normal
                o2.normal = self.merge([s2] + conts)
                return o2
            outs = []
            cs = cases(it)
            for c, l in cs:
                s1 = s if len(cs) == 1 else s.fork()
                if len(cs) > 1:
                    s1.pc = band(s.pc, c)
                    if s1.pc is FALSE:
                        continue
                cur = s1
                for sg in self.iterate(l, s1, n):
                    if cur is None:
                        break
                    if sg[0] == 'i':
                        self.assign(g.target, sg[1], cur, cf)
                        x = inner(cur)
                        o.raises += x.raises
                        cur = x.normal
                    else:
                        ele, dom = self.nest(sg[1], sg[2]) if sg[2] in self.active else (sg[1], sg[2])

                        def body(s2, ele=ele):
                            self.assign(g.target, ele, s2, cf)
                            return inner(s2)
                        self.active.append(sg[2])
                        try:
                            cur, _ = self.summarise(cur, cf, body, o, dom, n, None, TRUE)
                        finally:
                            self.active.pop()
                outs.append(cur)
            o.normal = self.merge(outs)
            return o
        x = gen(0, st)
        if x.normal is None:
            st.pc = FALSE
        elif x.normal is not st:
            p = st.pending
            st.become(x.normal)
            st.pending = p
        for s, e in x.raises:
            st.pending.append((s, e))

    def e_ListComp(self, n, st, fr):
        r = self.newlist(st, [])

        def emit(s, cf):
            v = self.ev(n.elt, s, cf)
            self.models['list.append'](self, s, r, [v], {}, n)
        self.comp(n, st, fr, emit)
        return r

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n, st, fr):
        r = self.e_ListComp(n, st, fr)
        q = st.heap[r.id].f['c']
        if isinstance(q, Seq) and all(s[0] == 'i' for s in q.segs):
            return self.mkset([s[1] for s in q.segs], st)
        return r

    def mkset(self, vs, st):
        """list of the distinct values"""
        qs = [(TRUE, ())]
        for v in vs:
            out = []
            for c, t in qs:
                dup = FALSE
                for x in t:
                    dup = bor(dup, truth(ap(lambda p, q: self.eqleaf(p, q, st), v, x)))
                for cc, tt in ((band(c, dup), t), (band(c, bnot(dup)), t + (v,))):
                    if cc is not FALSE:
                        out.append((cc, tt))
            qs = out
            if len(qs) > 32:
                return self.top('set of many unknown values')
        r = seq([('i', x) for x in qs[-1][1]])
        for c, t in qs[:-1]:
            r = ite(c, seq([('i', x) for x in t]), r)
        return self.new(st, Cell('list', {'c': r}, False))

    def e_DictComp(self, n, st, fr):
        r = self.newdict(st, [])

        def emit(s, cf):
            k = self.ev(n.key, s, cf)
            self.setitem(r, k, self.ev(n.value, s, cf), s, n)
        self.comp(n, st, fr, emit)
        return r

    # ------------------------------------------------------------ attributes
    def mro(self, cv):
        out = [cv]
        if isinstance(cv, ClassV):
            for b in self.classes[cv.ci].bases:
                for x in self.mro(b):
                    if x not in out:
                        out.append(x)
        return out

    def lookup(self, cv, name, st):
        for c in self.mro(cv):
            if isinstance(c, ClassV):
                cell = st.heap.get(self.classes[c.ci].ns) or self.base.heap.get(self.classes[c.ci].ns)
                if cell is not None and name in cell.f:
                    return cell.f[name]
            elif isinstance(c, Ext) and c.name not in ('object',):
                if c.name == 'dict' and name in DICT_METHODS:
                    return ext('dict.' + name)
        return None

    def hasextbase(self, cv):
        return any((isinstance(c, Ext) and c.name not in ('object',)) or not isinstance(c, (Ext, ClassV)) for c in self.mro(cv))

    def bind(self, f, obj, cv):
        if isinstance(f, Func):
            return func(f.fn, f.env, obj, f.defcls)
        if isinstance(f, Wrap):
            if f.how == 'staticmethod':
                return f.f
            return func(f.f.fn, f.f.env, cv, f.f.defcls) if isinstance(f.f, Func) else f.f
        if isinstance(f, Ext) and f.name.startswith('dict.'):
            return boundm(obj, f.name[5:])
        return f

    def getattr_(self, o, name, st, n):
        if isinstance(o, Ite):
            cs = cases(o)
            r = None
            vals = []
            for c, l in cs:
                vals.append((c, self.guarded(c, lambda s, l=l: self.attrleaf(l, name, s, n), st)))
            r = vals[-1][1]
            for c, v in vals[:-1][::-1]:
                r = ite(c, v, r)
            return r
        return self.attrleaf(o, name, st, n)

    def attrleaf(self, o, name, st, n):
        if o is BOT:
            return BOT
        if isinstance(o, ModV):
            sub = o.name + '.' + name
            if o.name == PKG:
                if sub in self.p.modules:
                    self.loadmod(sub, st)
                    return modv(sub)
            fid = self.loadmod(o.name, st)
            v = st.heap[fid].f.get(name)
            if v is not None:
                return v
            if sub in self.p.modules:
                self.loadmod(sub, st)
                return modv(sub)
            self.raise_(st, TRUE, 'AttributeError', const(name))
            return BOT
        if isinstance(o, Ext):
            return self.extattr(o.name, name)
        if isinstance(o, Super):
            m = self.mro(st.heap[o.obj.id].x if isinstance(o.obj, Ref) else o.obj)
            after = False
            for c in m:
                if after:
                    if isinstance(c, ClassV):
                        cell = st.heap.get(self.classes[c.ci].ns)
                        if cell is not None and name in cell.f:
                            v = cell.f[name]
                            if isinstance(v, PropV):
                                return self.call(self.bind(v.fget, o.obj, c), [], {}, st, n)
                            return self.bind(v, o.obj, c)
                    elif isinstance(c, Ext):
                        return boundm(o.obj, 'super:' + c.name + '.' + name)
                if c is classv(o.ci):
                    after = True
            if name == '__init__':
                return boundm(o.obj, 'super:object.__init__')
            return boundm(o.obj, 'super:object.' + name)
        if isinstance(o, ClassV):
            v = self.lookup(o, name, st)
            if v is not None:
                if isinstance(v, Wrap):
                    return self.bind(v, o, o)
                return v
            if name == '__name__':
                return const(self.classes[o.ci].name)
            if not self.hasextbase(o):
                if name in ('__dict__', '__doc__', '__module__', '__init__'):
                    return app('attr', o, const(name))
                self.raise_(st, TRUE, 'AttributeError', const(name))
                return BOT
            return app('attr', o, const(name))
        if isinstance(o, Ref):
            c = st.heap.get(o.id)
            if c is not None:
                if c.kind == 'obj':
                    v = self.lookup(c.x, name, st)
                    if isinstance(v, PropV):
                        if v.fget is NONE:
                            return self.top('property without getter')
                        return self.call(self.bind(v.fget, o, c.x), [], {}, st, n)
                    if name in c.f:
                        x = c.f[name]
                        miss = FALSE
                        for cc, l in cases(x):
                            if l is MISSING:
                                miss = bor(miss, cc)
                        if miss is FALSE:
                            return x
                        if v is not None:
                            d = self.bind(v, o, c.x)
                            return ap(lambda l: d if l is MISSING else l, x)
                        self.raise_(st, miss, 'AttributeError', const(name))
                        return ap(lambda l: BOT if l is MISSING else l, x)
                    if v is not None:
                        return self.bind(v, o, c.x)
                    if name == '__class__':
                        return c.x
                    if name == '__dict__':
                        return self.newdict(st, [(const(k), x) for k, x in c.f.items() if not k.startswith('$')])
                    if '$opaque' in c.f:
                        return app('attr', c.f['$opaque'], const(name))
                    ga = self.lookup(c.x, '__getattr__', st)
                    if isinstance(ga, Func):
                        return self.call(self.bind(ga, o, c.x), [const(name)], {}, st, n)
                    if self.hasextbase(c.x):
                        if '$dict' in c.f and hasattr(dict, name):
                            return boundm(o, name)
                        return boundm(o, name)
                    if isinstance(c.x, ClassV) and self.classes[c.x.ci].module.startswith('$') and not name.startswith('_'):
                        return self.top('%s of %s is not modelled' % (name, self.classes[c.x.ci].name))
                    self.raise_(st, TRUE, 'AttributeError', const(name))
                    return BOT
                if c.kind in ('list', 'dict'):
                    if name == 'shape' and c.kind == 'list':
                        e = self.elems(c)
                        if e is not None:
                            return tup([const(len(e))])
                    if name in ('size',) and c.kind == 'list' and self.elems(c) is not None:
                        return const(len(self.elems(c)))
                    if name == 'T' and c.kind == 'list':
                        return app('T', self.snap(o, st))
                    if c.kind == 'list' and not hasattr(list, name) and name not in ARRAY_ATTRS:
                        self.raise_(st, TRUE, 'AttributeError', const(name))
                        return BOT
                    return boundm(o, name)
                if c.kind == 'arr':
                    if name in ('shape', 'size', 'ndim') and isinstance(c.f.get('shape'), Tup):
                        q = c.f['shape']
                        return q if name == 'shape' else const(len(q.items)) if name == 'ndim' else functools.reduce(lambda x, y: self.binop(ast.Mult(), x, y, st, n), q.items)
                    if name in ('shape', 'size', 'dtype', 'ndim'):
                        return app('attr', self.shapebase(c.x), const(name))
                    if name == 'T':
                        return app('T', self.snap(o, st))
                    return boundm(o, name)
        if isinstance(o, PropV):
            return boundm(o, name)
        if isinstance(o, Tup) or isstr(o) or isinstance(o, Const):
            if o is NONE:
                self.raise_(st, TRUE, 'AttributeError', const(name))
                return BOT
            return boundm(o, name)
        if isinstance(o, Func):
            if name == '__name__':
                return const(self.fn(o).node.name)
            return app('attr', o, const(name))
        if isinstance(o, (Sym, App, Num, Top)):
            if isinstance(o, Sym) and 'obj' in o.attrs:
                return app('attr', o, const(name))
            if name == 'size' and isinstance(o, Sym) and 'vec' in o.attrs and 'mat' not in o.attrs:
                return app('len', o)
            if name in DATA_ATTRS:
                return app('T', o) if name == 'T' else app('attr', o, const(name))
            self.mayraise(st, 'AttributeError', o, const(name))
            return boundm(o, name)
        return boundm(o, name)

    def shapebase(self, b):
        return b

    def extattr(self, base, name):
        full = canon(base + '.' + name) if base else name
        c = EXTCONST.get(full)
        if c is not None:
            return const(c)
        return ext(full)

    def setattr_(self, o, name, v, st, n):
        for c, l in cases(o):
            if isinstance(l, Ref):
                cell = st.heap.get(l.id)
                if cell is not None and cell.kind == 'obj':
                    p = self.lookup(cell.x, name, st)
                    if isinstance(p, PropV):
                        if p.fset is NONE:
                            self.raise_(st, c, 'AttributeError', const(name))
                            continue
                        self.guarded(c, lambda s: self.call(self.bind(p.fset, l, cell.x), [v], {}, s, n), st)
                        continue
                    sa = self.lookup(cell.x, '__setattr__', st)
                    if isinstance(sa, Func):
                        self.guarded(c, lambda s: self.call(self.bind(sa, l, cell.x), [const(name), v], {}, s, n), st)
                        continue
                    f = dict(cell.f)
                    f[name] = v if c is TRUE else ite(c, v, f.get(name, MISSING))
                    st.heap[l.id] = Cell('obj', f, cell.x, cell.y)
                    continue
            if isinstance(l, ClassV):
                ns = self.classes[l.ci].ns
                cell = st.heap[ns]
                st.heap[ns] = self.withvar(cell, name, v if c is TRUE else ite(c, v, cell.f.get(name, MISSING)))
                continue
            if isinstance(l, ModV):
                fid = self.loadmod(l.name, st)
                st.heap[fid] = self.withvar(st.heap[fid], name, v)
                continue
            self.event(st, 'setattr', name, [l, v], {}, n)

    # ------------------------------------------------------------ items
    def getitem(self, o, k, st, n):
        if isinstance(o, Ite) or isinstance(k, Ite):
            memo = []
            co, ck = cases(o), cases(k)
            r = None
            vals = []
            for c1, l in co:
                for c2, kk in ck:
                    c = band(c1, c2)
                    if c is FALSE:
                        continue
                    v = self.guarded(c, lambda s: self.itemleaf(l, kk, s, n), st)
                    vals.append((c, v))
            if not vals:
                return BOT
            r = vals[-1][1]
            for c, v in vals[:-1][::-1]:
                r = ite(c, v, r)
            return r
        return self.itemleaf(o, k, st, n)

    def itemleaf(self, o, k, st, n):
        if o is BOT or k is BOT:
            return BOT
        if isinstance(k, Tup) and isinstance(o, Ref) is False and isinstance(o, (Sym, App, Num, Top)):
            return self.elemread(o, k.items)
        if isinstance(o, Const) and (o.v is None or isinstance(o.v, (int, float))):
            self.raise_(st, TRUE, 'TypeError')
            return BOT
        if isinstance(o, Tup) or (isinstance(o, Const) and isinstance(o.v, (str, bytes, tuple))):
            items = o.items if isinstance(o, Tup) else o.v
            if isinstance(k, Const) and isinstance(k.v, int):
                if -len(items) <= k.v < len(items):
                    x = items[k.v]
                    return x if isinstance(o, Tup) else const(x)
                self.raise_(st, TRUE, 'IndexError')
                return BOT
            if isinstance(k, SliceV):
                s = pyslice(k)
                if s is not None:
                    return tup(items[s]) if isinstance(o, Tup) else const(items[s])
            return app('getitem', o, k)
        if isinstance(o, Ref):
            c = st.heap.get(o.id)
            if c is None:
                return self.top('dangling')
            if c.kind == 'list':
                q = c.f['c']
                if isinstance(q, Ite) and any(leaves_of(cc, lambda x: isinstance(x, App) and x.op in ('loopvar', 'loopin')) for cc, l in cases(q)):
                    # filled by a loop that skips some iterations
                    return app('getitem', self.snap(o, st) if not isinstance(self.snap(o, st), Ite) else o, k)
                if isinstance(q, Ite):
                    vals = []
                    for cc, l in cases(q):
                        if band(st.pc, cc) is not FALSE:
                            vals.append((cc, self.guarded(cc, lambda s, l=l: self.listget(o, l, k, s, n, c.x), st)))
                    if not vals:
                        return BOT
                    r = vals[-1][1]
                    for cc, v in vals[:-1][::-1]:
                        r = ite(cc, v, r)
                    return r
                return self.listget(o, q, k, st, n, c.x)
            if c.kind == 'dict':
                return self.dictget(o, c, k, st, n)
            if c.kind == 'arr':
                key = poskey(c, normkey(k.items if isinstance(k, Tup) else (k,)))
                if len(key) == 1 and key[0] is FULL:
                    return o            # a view of everything
                r = self.arr_read_cell(c, key)
                if six(c.x) and len(key) == 1 and isinstance(key[0], Const) and isinstance(key[0].v, int) and isinstance(r, Leaf) and not isinstance(r, (Const, Ref)):
                    self.viewed(r, o, key[0])
                return r
            if c.kind == 'obj':
                m = self.lookup(c.x, '__getitem__', st)
                if isinstance(m, (Func,)):
                    return self.call(self.bind(m, o, c.x), [k], {}, st, n)
                if '$dict' in c.f:
                    return self.getitem(c.f['$dict'], k, st, n)
                return app('getitem', o, k)
        if o is NONE:
            self.raise_(st, TRUE, 'TypeError')
            return BOT
        if isinstance(o, App) and o.op == 'dictkeys' and isinstance(k, Const):
            sg = self.iterate(o, st, n)
            if all(s[0] == 'i' for s in sg) and isinstance(k.v, int) and -len(sg) <= k.v < len(sg):
                return sg[k.v][1]
        if isinstance(o, App) and 'app:%s[]' % o.op in self.models:
            return self.models['app:%s[]' % o.op](self, st, o, [k], {}, n)
        if isinstance(o, (Sym, App, Num, Top)):
            if isstr(k):
                self.mayraise(st, 'KeyError|ValueError|IndexError', o, k)
                return app('getitem', o, k)
            self.mayraise(st, 'IndexError|TypeError|KeyError', o, k)
            return self.elemread(o, (k,))
        return app('getitem', o, k)

    def elemread(self, base, key):
        key = normkey(key)
        if all(q is FULL for q in key):
            return base
        if isinstance(base, App) and base.op in ('T', 'm:transpose') and len(base.args) == 1 and len(key) == 2:
            return self.elemread(base.args[0], (key[1], key[0]))
        if isinstance(base, App) and base.op in ('T', 'm:transpose') and len(base.args) == 1 and len(key) == 1 and isinstance(key[0], Const) \
                and (isinstance(base.args[0], App) and base.args[0].op == 'arr' or isinstance(base.args[0], Sym) and 'mat' in base.args[0].attrs):
            return self.elemread(base.args[0], (FULL, key[0]))
        if isinstance(base, App) and base.op == 'arr' and len(base.args) > 1 and all(isinstance(q, App) and q.op == 'store' and isinstance(q.args[0], Tup) for q in base.args[1:]):
            return self.arr_read_cell(Cell('arr', {}, base.args[0], tuple((tuple(q.args[0].items), q.args[1]) for q in base.args[1:])), key)
        if isinstance(base, App) and base.op in ('array', 'list') and isinstance(key[0], Const) and isinstance(key[0].v, int) \
                and -len(base.args) <= key[0].v < len(base.args) and not any(isinstance(x, App) and x.op in ('rep', 'seg?') for x in base.args):
            b = base.args[key[0].v]
            return b if len(key) == 1 else ap(lambda q: self.elemread(q, key[1:]), b)
        if isinstance(base, App) and base.op == 'array' and len(key) == 2 and key[0] is FULL and isinstance(key[1], Const) \
                and all(isinstance(x, App) and x.op in ('array', 'list', 'tuple') for x in base.args):
            return app('array', *[self.elemread(x, (key[1],)) for x in base.args])
        # push element access through elementwise arithmetic
        if isinstance(base, Num):
            return app('elem', base, *key)
        if isinstance(base, App) and base.op == 'elem' and len(key) == 1 and sum(q is FULL for q in base.args[1:]) == 1 \
                and not isinstance(key[0], (SliceV, Ite)):
            return self.elemread(base.args[0], tuple(key[0] if q is FULL else q for q in base.args[1:]))
        if isinstance(base, App) and base.op.startswith('r:') and len(key) == 1 and isinstance(key[0], Const) and len(base.args) == 2 \
                and isinstance(base.args[1], App) and base.args[1].op == 'kw' and base.args[1].args[0] in ('axis', const('axis')) and base.args[1].args[1] is const(1):
            return app(base.op, self.elemread(base.args[0], key))
        return app('elem', base, *key)

    def listget(self, o, q, k, st, n, isarr):
        if not isinstance(q, Seq):
            return app('getitem', q, k)
        segs = q.segs
        exact = all(s[0] == 'i' for s in segs)
        if isinstance(k, Const) and isinstance(k.v, (int, bool)):
            i = int(k.v)
            if exact:
                if -len(segs) <= i < len(segs):
                    return segs[i][1]
                self.raise_(st, TRUE, 'IndexError')
                return BOT
            if i >= 0 and len(segs) > i and all(s[0] == 'i' for s in segs[:i + 1]):
                return segs[i][1]
            if i < 0 and len(segs) >= -i and all(s[0] == 'i' for s in segs[i:]):
                return segs[i][1]
            return app('getitem', self.snapseq(o, st), k)
        if isarr is True and isinstance(k, SliceV) and normkey((k,))[0] is FULL and isinstance(o, Ref):
            return o                    # a view of everything
        if isinstance(k, SliceV) and exact:
            s = pyslice(k)
            if s is not None:
                return self.newlist(st, [x[1] for x in segs[s]], isarr)
        if isinstance(k, SliceV) and k is FULL:
            return self.new(st, Cell('list', {'c': q}, isarr))
        if isinstance(k, SliceV) and k.lo is NONE and k.hi is NONE and k.st is const(-1):
            return app('reversed', o) if not exact else self.newlist(st, [x[1] for x in reversed(segs)], isarr)
        if isinstance(k, Tup) and exact:
            v = self.listget(o, q, k.items[0], st, n, isarr)
            rest = k.items[1:]
            if len(rest) == 1:
                return self.getitem(v, rest[0], st, n)
            return self.getitem(v, tup(rest), st, n)
        return app('getitem', self.snapseq(o, st), k)

    def snapcell(self, c):
        q = c.f['c']
        return app('array', *[s[1] for s in q.segs]) if isinstance(q, Seq) and all(s[0] == 'i' and not isinstance(s[1], Ref) for s in q.segs) else self.top('array')

    def snapseq(self, o, st):
        s = self.snap(o, st)
        return s if not isinstance(s, Ite) else o

    def dictget(self, o, c, k, st, n, default=None):
        v = c.f.get(k)
        if v is None and isinstance(k, Const):
            # equal constants of different types
            for kk in c.f:
                if isinstance(kk, Const) and kk.v == k.v and type(kk.v) in (int, float, bool) and type(k.v) in (int, float, bool):
                    v = c.f[kk]
        if v is None:
            symk = [kk for kk in c.f if not fixed(kk)]
            if fixed(k) and not symk and not c.y:
                if default is not None:
                    return default
                self.raise_(st, TRUE, 'KeyError', k)
                return BOT
            for s in reversed(c.y):
                if s[0] is k:
                    return s[1]
                break
            if not fixed(k) and not c.y and not symk and len(c.f) <= 40:
                # symbolic key into an exact table: gate on equality with each key
                r = default
                some = FALSE
                for kk in reversed(c.x):
                    vv = c.f.get(kk, MISSING)
                    e = truth(self.eqleaf(k, kk, st))
                    some = bor(some, e)
                    r = vv if r is None else ite(e, vv, r)
                if default is None:
                    miss = bnot(some)
                    if miss is not FALSE:
                        self.raise_(st, miss, 'KeyError', k)
                    if r is None:
                        return BOT
                return r
            return app('dictget', self.snap(o, st), k, default if default is not None else NONE)
        miss = FALSE
        for cc, l in cases(v):
            if l is MISSING:
                miss = bor(miss, cc)
        if miss is not FALSE:
            if default is not None:
                return ap(lambda l, d: d if l is MISSING else l, v, default)
            self.raise_(st, miss, 'KeyError', k)
            v = ap(lambda l: BOT if l is MISSING else l, v)
        return v

    def arr_read_cell(self, c, key):
        if c is None:
            return self.top('array')
        for k, v in reversed(c.y):
            if k and k[0] == '$own':
                if len(key) > k[2] and key[k[2]] is k[1]:
                    continue
                return app('loopread', c.y.index((k, v)), self_base(c.x), *key)
            if k and k[0] == '$loop':
                return app('loopread', c.y.index((k, v)), self_base(c.x), *key)
            rel = keyrel(k, key)
            if rel == 'same':
                return v
            if rel == 'disjoint':
                continue
            if rel == 'covers':
                # row/column store read at one generic position
                return narrow(v, k, key)
            if not any(q[0][:1] in (('$loop',), ('$own',)) for q in c.y) and not any(isinstance(q, SliceV) and q.st not in (NONE, const(1)) for q in k):
                return app('elem', self.arrterm(c), *key)
            return self.top('overlapping array accesses')
        b = c.x
        if isinstance(b, Const):
            return b
        if isinstance(b, Ite):
            return ap(lambda l: l if isinstance(l, Const) else self.elemread(l, key), b)
        return self.elemread(b, key)

    def setitem(self, o, k, v, st, n):
        for c1, l in cases(o):
            for c2, kk in cases(k):
                c = band(c1, c2)
                if c is FALSE:
                    continue
                self.setleaf(c, l, kk, v, st, n)

    def strlist(self, k, st):
        c = self.cellof(k, st)
        if c is None or c.kind != 'list':
            return None
        e = self.elems(c)
        return e if e and all(isinstance(x, Const) and isinstance(x.v, str) for x in e) else None

    def fieldvalues(self, v, names, st):
        c = self.cellof(v, st)
        if c is not None and c.kind == 'dict' and not c.y and len(c.x) == len(names):
            return [c.f[q] for q in c.x]
        return None

    def setleaf(self, c, o, k, v, st, n):
        if isinstance(o, Ref):
            cell = st.heap.get(o.id)
            if cell is None:
                return
            if cell.kind == 'dict':
                f = dict(cell.f)
                x = cell.x
                y = cell.y
                if fixed(k) or k in f or (not cell.y and not cell.f):
                    if k not in f:
                        x = x + (k,)
                    f[k] = v if c is TRUE else ite(c, v, f.get(k, MISSING))
                else:
                    y = tuple(s for s in y if s[0] is not k) + ((k, v),)
                st.heap[o.id] = Cell('dict', f, x, y)
                return
            if cell.kind == 'list':
                if cell.x and isinstance(cell.y, int) and isinstance(v, Const) and isinstance(v.v, str):
                    v = const(v.v[:cell.y])     # texts of an array have one width
                if isinstance(k, Const) and isinstance(k.v, int):
                    def one(q):
                        if isinstance(q, Seq) and all(s[0] == 'i' for s in q.segs) and -len(q.segs) <= k.v < len(q.segs):
                            l = list(q.segs)
                            l[k.v] = ('i', v if c is TRUE else ite(c, v, l[k.v][1]))
                            return seq(l)
                        if isinstance(q, Seq) and k.v == -1 and q.segs and q.segs[-1][0] == 'i':
                            return seq(q.segs[:-1] + (('i', v),))
                        return seq((('?', self.top('list store')),))
                    st.heap[o.id] = Cell('list', {'c': ap(one, cell.f['c'])}, cell.x, cell.y)
                    return
                st.heap[o.id] = Cell('list', {'c': seq((('?', self.top('list store')),))}, cell.x)
                return
            if cell.kind == 'arr':
                names = self.strlist(k, st)
                if names is not None:
                    # several fields of a structured array at once, in the order of the fields
                    vals = self.fieldvalues(v, names, st)
                    if vals is not None:
                        for kk, vv in zip(names, vals):
                            self.setleaf(c, o, kk, vv, st, n)
                        return
                key = poskey(cell, normkey(k.items if isinstance(k, Tup) else (k,)))
                ys = list(cell.y)
                done = False
                sh = cell.f.get('shape')
                if isinstance(sh, Tup):
                    for q, d in zip(key, sh.items):
                        if isinstance(q, Const) and isinstance(q.v, int) and isinstance(d, Const) and isinstance(d.v, int) and not -d.v <= q.v < d.v:
                            self.raise_(st, c, 'IndexError', q)
                # columns block store: a[:, :m] = rows
                blk = self.blockstore(cell, key, v, st)
                if blk is not None:
                    for kk, vv in blk:
                        if cell.f.get('dtype', NONE) is not NONE:
                            vv = ap(lambda l: app('astype', l, cell.f['dtype']), vv)
                        ys = [s for s in ys if s[0] != kk] + [(kk, vv)]
                    st.heap[o.id] = Cell('arr', cell.f, cell.x, tuple(ys))
                    return
                if isinstance(v, (Ref, Ite)):
                    v = self.snap(v, st)
                if cell.f.get('dtype', NONE) is not NONE:
                    v = ap(lambda l: app('astype', l, cell.f['dtype']), v)
                if c is not TRUE:
                    v = ite(c, v, self.arr_read_cell(cell, key))
                if all(keyrel(s[0], key) in ('same', 'disjoint') for s in ys if s[0][:1] != ('$loop',)) and not any(s[0][:1] == ('$loop',) for s in ys):
                    ys = [s for s in ys if s[0] != key]
                st.heap[o.id] = Cell('arr', cell.f, cell.x, tuple(ys) + ((key, v),))
                return
            if cell.kind == 'obj':
                m = self.lookup(cell.x, '__setitem__', st)
                if isinstance(m, Func):
                    self.guarded(c, lambda s: self.call(self.bind(m, o, cell.x), [k, v], {}, s, n), st)
                    return
                if '$dict' in cell.f:
                    self.setitem(cell.f['$dict'], k, v, st, n)
                    return
        w = self.owner(o, st)
        if w:
            # a store into a row handed out by an array
            self.setitem(w[0], tup([w[1]] + list(k.items if isinstance(k, Tup) else [k])), v if c is TRUE else ite(c, v, self.getitem(o, k, st, n)), st, n)
            return
        self.event(st, 'setitem', 'setitem', [o, k, v], {}, n)

    def blockstore(self, cell, key, v, st):
        """a[:, :m] = rows of m values -> one store per column"""
        if len(key) == 2 and key[0] is FULL and isinstance(key[1], SliceV) and isinstance(key[1].hi, Const) and isinstance(key[1].hi.v, int):
            lo = 0 if key[1].lo is NONE else (key[1].lo.v if isinstance(key[1].lo, Const) else None)
            if lo is None or key[1].st is not NONE:
                return None
            m = key[1].hi.v
            rows = self.rowsof(v, st)
            if rows is None:
                return None
            return [((FULL, const(j)), self.column(rows, j - lo)) for j in range(lo, m)]
        if isinstance(key[0], SliceV) and key[0] is not FULL and all(x is FULL for x in key[1:]) and len(key) <= 2 and six(cell.x):
            s, e = pyslice(key[0]), self.elems(self.cellof(v, st))
            at = list(range(6))[s] if s is not None else []
            if e and len(e) == len(at):
                return [(normkey((const(k), FULL)), self.snap(x, st)) for k, x in zip(at, e)]
        return None

    def column(self, m, j):
        """column j of an elementwise expression over matrices, row vectors and scalars"""
        def is_mat(l):
            if isinstance(l, App) and l.op in ('impure:numpy.random.standard_normal', 'impure:numpy.random.random'):
                return len([x for x in l.args if isinstance(x, Leaf)]) == 2
            return isinstance(l, Sym) and 'mat' in l.attrs

        def go(l):
            if is_mat(l):
                return app('elem', l, FULL, const(j))
            if isinstance(l, App) and l.op == 'array' and j < len(l.args) and all(isnumlike(x) and not isinstance(x, Ite) for x in l.args) \
                    and not any(isinstance(x, App) and x.op in ('rep', 'seg?', 'array', 'list', 'tuple') for x in l.args):
                return l.args[j]
            if isinstance(l, Const) or isinstance(l, Sym) and 'num' in l.attrs and not {'vec', 'mat'} & set(l.attrs):
                return l
            if isinstance(l, Num) or isinstance(l, App) and l.op.startswith('f:'):
                if not leaves_of(l, lambda x: is_mat(x) or isinstance(x, App) and not x.op.startswith('f:') or
                                 isinstance(x, Sym) and ('num' not in x.attrs or {'vec', 'mat'} & set(x.attrs))):
                    return l
            raise KeyError
        if isinstance(m, App) and m.op == 'array' and j < len(m.args) and isinstance(m.args[j], Num) \
                and all(isinstance(x, Num) and any(is_mat(a) for mm, _ in x.terms for a, _e in mm) for x in m.args):
            m = m.args[j]      # a row of factors times a matrix
        if isinstance(m, Num) and any(is_mat(a) for mm, _ in m.terms for a, _e in mm):
            try:
                r = const(0)
                for mono, cf in m.terms:
                    t = const(cf)
                    for a, e in mono:
                        t = nmul(t, npow(go(a), e))
                    r = nadd(r, t)
                return r
            except KeyError:
                pass
        if is_mat(m):
            return go(m)
        return app('rows', j, m)

    def rowsof(self, v, st):
        s = self.snap(v, st)
        if isinstance(s, Ite):
            return None
        return s

    def delitem(self, o, k, st, n):
        if isinstance(o, Ref):
            cell = st.heap.get(o.id)
            if cell is not None and cell.kind == 'dict' and k in cell.f:
                f = dict(cell.f)
                f.pop(k)
                st.heap[o.id] = Cell('dict', f, tuple(x for x in cell.x if x is not k), cell.y)
                return
            if cell is not None and cell.kind == 'list':
                def one(q):
                    if isinstance(q, Seq) and isinstance(k, Const) and all(s[0] == 'i' for s in q.segs) and -len(q.segs) <= k.v < len(q.segs):
                        l = list(q.segs)
                        del l[k.v]
                        return seq(l)
                    return seq((('?', self.top('list delete')),))
                st.heap[o.id] = Cell('list', {'c': ap(one, cell.f['c'])}, cell.x)
                return
            if cell is not None and cell.kind == 'obj':
                m = self.lookup(cell.x, '__delitem__', st)
                if isinstance(m, Func):
                    self.call(self.bind(m, o, cell.x), [k], {}, st, n)
                    return
                if '$dict' in cell.f:
                    self.delitem(cell.f['$dict'], k, st, n)

    # ------------------------------------------------------------ calls
    def e_Call(self, n, st, fr):
        # super() without arguments
        if isinstance(n.func, ast.Name) and n.func.id == 'super':
            return self.super_(n, st, fr)
        if isinstance(n.func, ast.Name) and n.func.id == 'locals' and not n.args:
            c = st.heap[fr]
            return self.newdict(st, [(const(k), v) for k, v in c.f.items() if not k.startswith('$')])
        f = self.ev(n.func, st, fr)
        if f is ext('next') and 1 <= len(n.args) <= 2 and not n.keywords:
            g = self.first_of(n)
            if g is not None:
                return self.call(self.mkfunc(g, st, fr), [], {}, st, n)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st, fr)
                sg = self.iterate(v, st, a) if not isinstance(v, Ite) else None
                if sg is not None and all(s[0] == 'i' for s in sg):
                    args += [s[1] for s in sg]
                else:
                    args.append(app('star', v))
            else:
                args.append(self.ev(a, st, fr))
        kw = {}
        for k in n.keywords:
            v = self.ev(k.value, st, fr)
            if k.arg is None:
                c = self.cellof(v, st)
                if c is not None and c.kind == 'obj' and '$dict' in c.f:
                    c = self.cellof(c.f['$dict'], st)
                if c is not None and c.kind == 'dict' and not c.y and all(isinstance(x, Const) for x in c.f):
                    for x in c.x:
                        if x in c.f:
                            kw[x.v] = c.f[x]
                else:
                    kw['**'] = v
            else:
                kw[k.arg] = v
        return self.call(f, args, kw, st, n)

    def first_of(self, n):
        """`next(<generator expression or iter(x)>[, default])` as a function that returns the first value"""
        g = self.__dict__.setdefault('firsts', {}).get(id(n))
        if g is not None:
            return g
        it = n.args[0]
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'iter' and len(it.args) == 1 and not it.keywords:
            it = ast.GeneratorExp(elt=ast.Name(id='$first', ctx=ast.Load()), generators=[ast.comprehension(
                target=ast.Name(id='$first', ctx=ast.Store()), iter=it.args[0], ifs=[], is_async=0)])
        if not isinstance(it, ast.GeneratorExp):
            return None
        body = [ast.Return(value=it.elt)]
        for g in reversed(it.generators):
            if g.ifs:
                body = [ast.If(test=g.ifs[0] if len(g.ifs) == 1 else ast.BoolOp(op=ast.And(), values=g.ifs), body=body, orelse=[])]
            body = [ast.For(target=g.target, iter=g.iter, body=body, orelse=[])]
        if len(n.args) == 2:
            body.append(ast.Return(value=n.args[1]))
        else:
            body.append(ast.Raise(exc=ast.Name(id='StopIteration', ctx=ast.Load()), cause=None))
        f = ast.FunctionDef(name='<first>', args=ast.arguments(posonlyargs=[], args=[], vararg=None, kwonlyargs=[], kw_defaults=[],
                            kwarg=None, defaults=[]), body=body, decorator_list=[], returns=None)
        ast.copy_location(f, n)
        ast.fix_missing_locations(f)
        self.firsts[id(n)] = f
        return f

    def super_(self, n, st, fr):
        if n.args:
            cv = self.ev(n.args[0], st, fr)
            ob = self.ev(n.args[1], st, fr)
            return superv(cv.ci, ob) if isinstance(cv, ClassV) else self.top('super')
        f = fr
        while f is not None:
            c = st.heap[f]
            if '$defcls' in c.f:
                dc = c.f['$defcls']
                first = c.f.get('$self')
                if isinstance(dc, ClassV) and first is not None:
                    return superv(dc.ci, first)
            f = c.x
        return self.top('super')

    def call(self, f, args, kw, st, n):
        if isinstance(f, Ite):
            vals = []
            for c, l in cases(f):
                if band(st.pc, c) is FALSE:
                    continue
                vals.append((c, self.guarded(c, lambda s, l=l: self.call(l, args, kw, s, n), st)))
            if not vals:
                return BOT
            r = vals[-1][1]
            for c, v in vals[:-1][::-1]:
                r = ite(c, v, r)
            return r
        if f is BOT:
            return BOT
        if isinstance(f, Func):
            return self.callfn(f, args, kw, st, n)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw, st, n)
        if isinstance(f, Wrap):
            return self.call(f.f, args, kw, st, n)
        if isinstance(f, Ext):
            return self.callext(f.name, args, kw, st, n)
        if isinstance(f, BoundM):
            return self.callmethod(f.recv, f.name, args, kw, st, n)
        if isinstance(f, Ref):
            c = st.heap.get(f.id)
            if c is not None and c.kind == 'obj':
                m = self.lookup(c.x, '__call__', st)
                if m is not None:
                    return self.call(self.bind(m, f, c.x), args, kw, st, n)
        if isinstance(f, App) and f.op == 'partial':
            return self.call(f.args[0], list(f.args[1].items) + list(args), {**{k.v: v for k, v in [p.args for p in f.args[2].items]}, **kw}, st, n)
        self.mayraise(st, 'Exception', f, *[a for a in args if isinstance(a, Leaf)])
        self.event(st, 'callv', '?', [f] + list(args), kw, n)
        return self.opaque('callv', [f] + list(args), kw, st)

    def opaque(self, op, args, kw, st):
        a = [self.snap(x, st) for x in args]
        ks = sorted(kw)
        a2 = a + [self.snap(kw[k], st) for k in ks]
        def mk(*xs):
            return app(op, *xs[:len(a)], *[app('kw', k, x) for k, x in zip(ks, xs[len(a):])])
        if op[:2] == 'r:' and any(identity.elementwise(x) for x in a2):
            return mk(*a2)
        return ap(mk, *a2) if a2 else app(op)

    def instantiate(self, cv, args, kw, st, n):
        ci = self.classes[cv.ci]
        f = {}
        bases = self.mro(cv)
        isdict = any(isinstance(b, Ext) and b.name in ('dict', 'collections.OrderedDict', 'pykern.pkcollections.PKDict') for b in bases)
        if isdict:
            f['$dict'] = self.newdict(st, [])
        r = self.new(st, Cell('obj', f, cv))
        init = self.lookup(cv, '__init__', st)
        if init is not None and isinstance(init, Func):
            self.call(self.bind(init, r, cv), args, kw, st, n)
        elif isdict:
            self.callmethod(r, '__init__', args, kw, st, n)
        elif self.hasextbase(cv):
            c = st.heap[r.id]
            g = dict(c.f)
            g['$args'] = tup(args)
            st.heap[r.id] = Cell('obj', g, cv)
        elif args or kw:
            if not any(isinstance(b, Ext) for b in bases):
                self.raise_(st, TRUE, 'TypeError')
                return BOT
        return r

    def callfn(self, f, args, kw, st, n):
        fi = self.fns[f.fn]
        node = fi.node
        if self.depth > 45:
            return self.top('call depth')
        self.visited.add((fi.module, fi.name))
        a = node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        pos = list(args)
        if f.bound is not None:
            pos = [f.bound] + pos
        star = [x for x in pos if isinstance(x, App) and x.op == 'star']
        if star:
            i = pos.index(star[0])
            lead = pos[:i]
            if a.vararg and len(lead) >= len(names) and i == len(pos) - 1:
                for nm, v in zip(names, lead):
                    vals[nm] = v
                vals[a.vararg.arg] = star[0].args[0] if len(lead) == len(names) else app('tupcat', tup(lead[len(names):]), star[0].args[0])
                pos = []
            else:
                rest = star[0].args[0]
                pos = lead + [self.getitem(rest, const(j), st, n) for j in range(len(names) - len(lead))]
        for nm, v in zip(names, pos):
            vals[nm] = v
        extra = pos[len(names):]
        if a.vararg:
            vals.setdefault(a.vararg.arg, tup(extra))
        elif extra:
            self.raise_(st, TRUE, 'TypeError', const('too many arguments to ' + fi.name))
            return BOT
        kwextra = []
        kwnames = set(names) | {x.arg for x in a.kwonlyargs}
        unk = kw.get('**')
        for k, v in kw.items():
            if k == '**':
                continue
            if k in kwnames:
                if k in vals:
                    self.raise_(st, TRUE, 'TypeError', const('multiple values for ' + k))
                    return BOT
                vals[k] = v
            elif a.kwarg:
                kwextra.append((const(k), v))
            else:
                self.raise_(st, TRUE, 'TypeError', const('unexpected keyword %s to %s' % (k, fi.name)))
                return BOT
        nd = len(fi.defaults)
        for i, nm in enumerate(names):
            if nm not in vals:
                j = i - (len(names) - nd)
                if j >= 0:
                    vals[nm] = fi.defaults[j]
                    if unk is not None:
                        vals[nm] = app('kwget', unk, nm, fi.defaults[j])
                else:
                    if unk is not None:
                        vals[nm] = app('kwget', unk, nm)
                    else:
                        self.raise_(st, TRUE, 'TypeError', const('missing argument %s to %s' % (nm, fi.name)))
                        return BOT
        kd = dict(fi.kwdefaults)
        for x in a.kwonlyargs:
            if x.arg not in vals:
                if x.arg in kd:
                    vals[x.arg] = kd[x.arg]
                else:
                    self.raise_(st, TRUE, 'TypeError', const('missing keyword argument'))
                    return BOT
        if a.kwarg:
            if unk is not None and not kwextra:
                vals[a.kwarg.arg] = unk
            else:
                vals[a.kwarg.arg] = self.newdict(st, kwextra)
        self.nid += 1
        fid = self.nid
        fv = dict(vals)
        if f.defcls is not None:
            fv['$defcls'] = f.defcls
            if names:
                fv['$self'] = vals[names[0]]
        if fi.isgen:
            y = self.newlist(st, [])
            fv['$yield'] = y
        st.heap[fid] = Cell('frame', fv, f.env, (fi.module, fi.locals))
        saved = st.pc
        pend = st.pending
        st.pending = []
        st.pc = TRUE
        self.cur.append((fi.module, fi.name))
        self.depth += 1
        try:
            s = st.fork()
            if isinstance(node, ast.Lambda):
                out = Out()
                v = self.ev(node.body, s, fid)
                self.flush(s, out)
                out.rets.append((s, v))
            else:
                out = self.block(node.body, s, fid)
        finally:
            self.cur.pop()
            self.depth -= 1
        rets = list(out.rets)
        if out.normal is not None:
            rets.append((out.normal, NONE))
        rets = [(s, v) for s, v in rets if s.pc is not FALSE]
        for s, e in out.raises:
            s.pc = band(saved, s.pc)
            if s.pc is not FALSE:
                self.dropframe(s, fid)
                pend.append((s, e))
        if not rets and fi.isgen and self.stream is not None and not out.raises:
            # a generator that never ends
            t, self.stream = self.stream, None
            st.pending = pend
            st.pc = saved
            self.dropframe(st, fid)
            return t
        if not rets:
            st.pending = pend
            st.pc = FALSE
            return BOT
        m = rets[0][0]
        v = rets[0][1]
        for s, w in rets[1:]:
            care = bor(m.pc, s.pc)
            d = restrict(m.pc, care)
            if d is BOT:
                d = TRUE
            if not isinstance(d, Ite):
                d = atom('join', self._uid())
            v = ite(d, v, w)
            m = self.merge2(m, s)
        ok = m.pc
        v = restrict(v, ok) if ok is not TRUE else v
        st.become(m)
        st.pending = pend
        st.pc = band(saved, ok)
        if fi.isgen:
            v = fv['$yield']
        self.dropframe(st, fid)
        return v

    def dropframe(self, st, fid):
        pass

    def callext(self, name, args, kw, st, n):
        if name.startswith('dict.') and args and isinstance(args[0], Ref):
            return self.callmethod(args[0], 'super:' + name, args[1:], kw, st, n)
        m = self.models.get(name)
        if m is not None:
            return m(self, st, None, args, kw, n)
        if name in BUILTIN_EXC:
            return app('exc', ext(name), *[self.snap1(a, st) for a in args])
        self.mayraise(st, 'Exception', const(name), *[a for a in args if isinstance(a, (Leaf))])
        if not name.split('.')[0] in ('numpy', 'math') or name in IMPURE:
            self.event(st, 'call', name, [self.snap(a, st) for a in args], {k: self.snap(v, st) for k, v in kw.items()}, n)
        if name in IMPURE or name.startswith(('numpy.random.', 'random.')):
            return app('impure:' + name, self._uid(), *[self.snap1(a, st) for a in args])
        return self.opaque('call:' + name, args, kw, st)

    def snap1(self, v, st):
        s = self.snap(v, st)
        return s

    def callmethod(self, recv, name, args, kw, st, n):
        if isinstance(recv, Ite):
            vals = []
            for c, l in cases(recv):
                vals.append((c, self.guarded(c, lambda s, l=l: self.callmethod(l, name, args, kw, s, n), st)))
            r = vals[-1][1]
            for c, v in vals[:-1][::-1]:
                r = ite(c, v, r)
            return r
        if name.startswith('super:'):
            base, meth = name[6:].rsplit('.', 1)
            if isinstance(recv, Ref) and st.heap[recv.id].kind == 'obj':
                d = st.heap[recv.id].f.get('$dict')
                if d is not None and base in ('dict', 'collections.OrderedDict', 'pykern.pkcollections.PKDict'):
                    return self.callmethod(d, meth, args, kw, st, n)
                if base == 'object':
                    return NONE
            if isinstance(recv, Ref) and st.heap[recv.id].kind == 'dict':
                return self.callmethod(recv, meth, args, kw, st, n)
            self.event(st, 'call', name, [recv] + args, kw, n)
            return self.opaque('call:' + name, [recv] + args, kw, st)
        kind = None
        if isinstance(recv, Ref):
            c = st.heap.get(recv.id)
            if c is not None:
                kind = c.kind
                if kind == 'obj':
                    d = c.f.get('$dict')
                    if d is not None:
                        if name == '__init__':
                            return self.models['dict.update'](self, st, d, args, kw, n)
                        return self.callmethod(d, name, args, kw, st, n)
        elif isinstance(recv, Tup):
            kind = 'tuple'
        elif isstr(recv) or (isinstance(recv, Sym) and 'str' in recv.attrs) or (isinstance(recv, App) and recv.op == 'str'):
            kind = 'str'
        elif isinstance(recv, (App, Sym)) and name in ('format', 'encode', 'lower', 'upper', 'strip', 'split', 'startswith', 'endswith', 'replace', 'rstrip', 'lstrip', 'find') :
            kind = 'str'
        if isinstance(recv, App) and 'app:%s.%s' % (recv.op, name) in self.models:
            return self.models['app:%s.%s' % (recv.op, name)](self, st, recv, args, kw, n)
        if kind is not None:
            m = self.models.get('%s.%s' % (kind, name))
            if m is not None:
                return m(self, st, recv, args, kw, n)
        if isinstance(recv, App) and recv.op in ('dictkeys', 'dictitems', 'dictvalues'):
            return self.opaque('m:' + name, [recv] + args, kw, st)
        m = self.models.get('any.' + name)
        if m is not None:
            return m(self, st, recv, args, kw, n)
        self.mayraise(st, 'Exception', self.snap1(recv, st), const(name))
        self.event(st, 'method', name, [self.snap(recv, st)] + [self.snap(a, st) for a in args],
                   {k: self.snap(v, st) for k, v in kw.items()}, n)
        if kind in ('list', 'dict') and name not in PURE_CONTAINER:
            self.notes.add('unmodelled container method %s' % name)
        return self.opaque('m:' + name, [recv] + args, kw, st)


def self_base(b):
    return b


PURE_CONTAINER = {'copy', 'index', 'count', 'mean', 'std', 'sum', 'max', 'min', 'squeeze', 'flatten', 'reshape', 'tofile',
                  'astype', 'tolist', 'item', 'transpose', 'ravel', 'dot'}
DATA_ATTRS = {'shape', 'size', 'T', 'dtype', 'ndim', 'data', 'attrs', 'fields', 'names', 'parameters', 'name', 'type',
              'columns', 'sequence', 'real', 'imag', 'parts', 'path', 'stdout', 'args'}
DICT_METHODS = {n for n in dir(dict) if callable(getattr(dict, n, None))} - {'__class__', '__init__', '__new__',
                '__getattribute__', '__setattr__', '__delattr__', '__init_subclass__', '__subclasshook__', '__dir__',
                '__repr__', '__str__', '__format__', '__reduce__', '__reduce_ex__', '__sizeof__'}
IMPURE = {'open', 'input', 'time.time', 'random.random', 'random.seed', 'numpy.random.seed',
          'numpy.savetxt', 'numpy.save', 'numpy.savez', 'numpy.load', 'numpy.loadtxt', 'numpy.genfromtxt', 'numpy.fromfile'}

PYOPS = {
    ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b, ast.Mult: lambda a, b: a * b,
    ast.Div: lambda a, b: a / b, ast.FloorDiv: lambda a, b: a // b, ast.Mod: lambda a, b: a % b,
    ast.Pow: lambda a, b: a ** b, ast.BitAnd: lambda a, b: a & b, ast.BitOr: lambda a, b: a | b,
    ast.BitXor: lambda a, b: a ^ b, ast.LShift: lambda a, b: a << b, ast.RShift: lambda a, b: a >> b,
    ast.MatMult: lambda a, b: a @ b,
}
OPM = {ast.Add: ('__add__', '__radd__'), ast.Sub: ('__sub__', '__rsub__'), ast.Mult: ('__mul__', '__rmul__'),
       ast.Div: ('__truediv__', '__rtruediv__')}


def isstr(l):
    return isinstance(l, StrV) or (isinstance(l, Const) and isinstance(l.v, (str, bytes))) or \
        (isinstance(l, Sym) and 'str' in l.attrs) or (isinstance(l, App) and l.op in ('str', 'fmt', 'strmeth', 'encoded', 'call:struct.pack', 'm:tobytes'))


def numop(op, a, b):
    if isinstance(op, ast.Add):
        return nadd(a, b)
    if isinstance(op, ast.Sub):
        return nadd(a, b, -1)
    if isinstance(op, ast.Mult):
        return nmul(a, b)
    if isinstance(op, ast.Div):
        return nmul(a, npow(b, Fraction(-1)))
    if isinstance(op, ast.Pow):
        if isinstance(b, Const):
            f = V.frac(b.v)
            if f.denominator <= 4 and abs(f.numerator) <= 12:
                return npow(a, f)
        return app('pow', a, b)
    return app('op' + type(op).__name__, a, b)


def scope_of(n):
    """local names of a function, and whether it is a generator"""
    loc, glob, nonl = set(), set(), set()
    isgen = False
    args = n.args
    for x in args.posonlyargs + args.args + args.kwonlyargs:
        loc.add(x.arg)
    for x in (args.vararg, args.kwarg):
        if x:
            loc.add(x.arg)
    todo = list(n.body) if isinstance(n.body, list) else [n.body]
    while todo:
        x = todo.pop()
        if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            loc.add(x.name)
            todo += x.decorator_list
            continue
        if isinstance(x, ast.Lambda):
            continue
        if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # targets are local to the comprehension
            for g in x.generators:
                todo.append(g.iter)
            for y in ast.walk(x):
                if isinstance(y, ast.NamedExpr):
                    loc.add(y.target.id)
            continue
        if isinstance(x, ast.Global):
            glob |= set(x.names)
        if isinstance(x, ast.Nonlocal):
            nonl |= set(x.names)
        if isinstance(x, (ast.Yield, ast.YieldFrom)):
            isgen = True
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            loc.add(x.id)
        if isinstance(x, (ast.Import, ast.ImportFrom)):
            for a in x.names:
                loc.add((a.asname or a.name).split('.')[0])
        if isinstance(x, ast.ExceptHandler) and x.name:
            loc.add(x.name)
        todo += list(ast.iter_child_nodes(x))
    return {'$locals': frozenset(loc - glob - nonl), '$global': frozenset(glob), '$nonlocal': frozenset(nonl)}, isgen


def pyslice(k):
    def g(x):
        if x is NONE:
            return None
        if isinstance(x, Const) and isinstance(x.v, int):
            return x.v
        raise ValueError
    try:
        return slice(g(k.lo), g(k.hi), g(k.st))
    except ValueError:
        return None


def six(v):
    """does the value have the six rows of a phase space array?"""
    if isinstance(v, Sym):
        return 'six' in v.attrs
    if isinstance(v, App) and v.op.startswith('r:'):
        return any(isinstance(a, App) and a.op == 'kw' and a.args[0] in ('axis', const('axis')) and a.args[1] is const(1) for a in v.args[1:]) and six(v.args[0])
    if isinstance(v, App) and v.op.startswith('f:'):
        return any(six(a) for a in v.args)
    if isinstance(v, Num):
        return any(six(a) for m, _ in v.terms for a, _e in m)
    return False


def elem(it):
    return app('elem', it, loopvar(it))


def loopvar(dom):
    return app('loopvar', dom)


def keytext(f):
    if not isinstance(f, tuple):
        return f
    return '#%d' % f[1] if f[0] == '#' else '[%s]' % ','.join(str(x.v) for x in f[1:])


def normkey(key):
    key = [FULL if (isinstance(q, SliceV) and (q.lo is NONE or q.lo is const(0)) and q.hi is NONE and (q.st is NONE or q.st is const(1))) else q for q in key]
    while len(key) > 1 and key[-1] is FULL:
        key.pop()
    return tuple(key)


def poskey(c, key):
    """positions counted from the end, counted from the start where the extent is known"""
    sh = c.f.get('shape')
    dims = list(sh.items) if isinstance(sh, Tup) else []
    if isinstance(c.x, Sym):
        dims = dims or [const(6) if 'six' in c.x.attrs else NONE, const(6) if 'cols6' in c.x.attrs else NONE]
    return tuple(const(q.v + d.v) if isinstance(q, Const) and isinstance(q.v, int) and q.v < 0 and isinstance(d, Const) and isinstance(d.v, int) and q.v + d.v >= 0 else q
                 for q, d in zip(key, dims + [NONE] * len(key)))


def keyrel(k, key):
    """relation of stored key k to the key being read"""
    n = max(len(k), len(key))
    a = list(k) + [FULL] * (n - len(k))
    b = list(key) + [FULL] * (n - len(key))
    rel = 'same'
    for x, y in zip(a, b):
        if x is y:
            continue
        if isinstance(x, Const) and isinstance(y, Const):
            if x.v == y.v:
                continue
            if isinstance(x.v, int) and isinstance(y.v, int) and (x.v < 0) != (y.v < 0):
                return 'overlap'
            return 'disjoint'
        if isinstance(x, Leaf) and isinstance(y, Leaf) and not isinstance(x, SliceV) and not isinstance(y, SliceV) and isnumlike(x) and isnumlike(y):
            d = nadd(x, y, -1)
            if isinstance(d, Const) and d.v != 0:
                return 'disjoint'
        if outside(x, y) or outside(y, x):
            return 'disjoint'
        if x is FULL:
            if rel in ('same', 'covers'):
                rel = 'covers'
            continue
        rel = 'overlap'
    # a disjoint later component dominates
    return rel


def outside(s, i):
    """Is the position i known not to be among the positions of the slice s?"""
    if not isinstance(s, SliceV) or not isinstance(i, Const) or not isinstance(i.v, int) or i.v < 0:
        return False
    b = [x.v if isinstance(x, Const) else Ellipsis for x in (s.lo, s.hi, s.st)]
    if any(x is not None and not (isinstance(x, int) and x >= 0) for x in b) or b[2] == 0:
        return False
    lo, hi, st = b[0] or 0, b[1], b[2] or 1
    return i.v < lo or hi is not None and i.v >= hi or (i.v - lo) % st != 0


def narrow(v, k, key):
    """value of a whole-row store v at one position"""
    n = max(len(k), len(key))
    a = list(k) + [FULL] * (n - len(k))
    b = list(key) + [FULL] * (n - len(key))
    ext_ = [y for x, y in zip(a, b) if x is FULL and y is not FULL]
    def one(l):
        if isinstance(l, Const):
            return l
        return app('elem', l, *ext_)
    return ap(one, v)


def subst(v, m):
    memo = {}

    def go(x):
        if x in m:
            return m[x]
        k = id(x)
        if k in memo:
            return memo[k]
        if isinstance(x, Ite):
            a = atom_of(x.idx)
            c = rebuild_atom(a, go)
            r = ite(c, go(x.hi), go(x.lo))
        elif isinstance(x, App):
            args = [go(y) if isinstance(y, (Leaf, Ite)) else y for y in x.args]
            r = appn(x.op, args)
        elif isinstance(x, Num):
            r = const(0)
            for mm, c in x.terms:
                t = const(int(c)) if c.denominator == 1 else V.from_terms({(): c})
                for a2, e in mm:
                    t = ap(lambda p, q, e=e: nmul(p, npow(q, e)), t, go(a2))
                r = ap(nadd, r, t)
        elif isinstance(x, Tup):
            its = [go(y) for y in x.items]
            r = tup(its)
        elif isinstance(x, StrV):
            r = ap(lambda *ps: strv(ps), *[go(y) for y in x.parts])
        else:
            r = x
        memo[k] = r
        return r
    return go(v)


def appn(op, args):
    """rebuild an application, renormalising element accesses"""
    if op == 'elem':
        key = normkey(args[1:])
        if all(q is FULL for q in key):
            return args[0]
        return app('elem', args[0], *key)
    return app(op, *args)


def rebuild_atom(a, go):
    kind = a[0]
    ps = [go(x) if isinstance(x, (Leaf, Ite)) else x for x in a[1:]]
    if any(isinstance(p, Ite) for p in ps):
        def f(*qs):
            return mkatom(kind, qs)
        return truth(ap(f, *[p if isinstance(p, (Leaf, Ite)) else const(str(p)) for p in ps]))
    return mkatom(kind, ps)


def mkatom(kind, ps):
    if kind == 'lt':
        return cmp_lt(ps[0], const(0)) if isnumlike(ps[0]) else atom(kind, *ps)
    if kind == 'gt':
        return cmp_lt(const(0), ps[0]) if isnumlike(ps[0]) else atom(kind, *ps)
    if kind == 'eq':
        return cmp_eq(ps[0], const(0)) if isnumlike(ps[0]) else atom(kind, *ps)
    if kind == 'eqv':
        a, b = ps
        if a is b:
            return TRUE
        if isinstance(a, Const) and isinstance(b, Const):
            return const(a.v == b.v)
        if a.n > b.n:
            a, b = b, a
        return atom('eqv', a, b)
    if kind == 'truth':
        return truth(ps[0])
    if kind == 'isnone':
        if ps[0] is NONE:
            return TRUE
        if isinstance(ps[0], (Const, Num)):
            return FALSE
    return atom(kind, *ps)


def mentions(v, syms):
    seen = set()

    def go(x):
        if x in syms:
            return True
        if id(x) in seen:
            return False
        seen.add(id(x))
        if isinstance(x, Ite):
            return any(go(y) for y in atom_of(x.idx)[1:] if isinstance(y, (Leaf, Ite))) or go(x.hi) or go(x.lo)
        if isinstance(x, App):
            return any(go(y) for y in x.args if isinstance(y, (Leaf, Ite)))
        if isinstance(x, Num):
            return any(go(a) for m, _ in x.terms for a, _e in m)
        if isinstance(x, Tup):
            return any(go(y) for y in x.items)
        if isinstance(x, StrV):
            return any(go(y) for y in x.parts)
        return False
    return go(v)


def leaves_of(v, pred):
    """all sub-terms satisfying pred"""
    out = []
    seen = set()

    def go(x):
        if not isinstance(x, (Leaf, Ite)) or id(x) in seen:
            return
        seen.add(id(x))
        if isinstance(x, Leaf) and pred(x):
            out.append(x)
        if isinstance(x, Ite):
            for y in atom_of(x.idx)[1:]:
                go(y)
            go(x.hi)
            go(x.lo)
        elif isinstance(x, App):
            for y in x.args:
                go(y)
        elif isinstance(x, Num):
            for m, _ in x.terms:
                for a, _e in m:
                    go(a)
        elif isinstance(x, Tup):
            for y in x.items:
                go(y)
        elif isinstance(x, StrV):
            for y in x.parts:
                go(y)
        elif isinstance(x, SliceV):
            for y in (x.lo, x.hi, x.st):
                go(y)
    go(v)
    return out


def canon(name):
    if name.startswith('np.'):
        name = 'numpy.' + name[3:]
    return ALIAS.get(name, name)


ALIAS = {}
EXTCONST = {
    'numpy.pi': 3.141592653589793, 'math.pi': 3.141592653589793, 'scipy.pi': 3.141592653589793,
    'scipy.constants.pi': 3.141592653589793, 'numpy.e': 2.718281828459045, 'math.e': 2.718281828459045,
    'scipy.constants.c': 299792458.0, 'scipy.constants.speed_of_light': 299792458.0,
    'scipy.constants.e': 1.602176634e-19, 'scipy.constants.elementary_charge': 1.602176634e-19,
    'scipy.constants.m_e': 9.1093837015e-31, 'scipy.constants.electron_mass': 9.1093837015e-31,
    'scipy.constants.m_p': 1.67262192369e-27, 'scipy.constants.epsilon_0': 8.8541878128e-12,
    'scipy.constants.mu_0': 1.25663706212e-06, 'scipy.constants.h': 6.62607015e-34, 'scipy.constants.hbar': 1.0545718176461565e-34,
    'scipy.constants.k': 1.380649e-23, 'scipy.constants.Planck': 6.62607015e-34, 'scipy.constants.Boltzmann': 1.380649e-23, 'scipy.constants.proton_mass': 1.67262192369e-27,
    'scipy.constants.N_A': 6.02214076e+23, 'scipy.constants.Avogadro': 6.02214076e+23, 'scipy.constants.m_n': 1.67492749804e-27, 'scipy.constants.neutron_mass': 1.67492749804e-27,
    'scipy.constants.m_u': 1.6605390666e-27, 'scipy.constants.u': 1.6605390666e-27, 'scipy.constants.atomic_mass': 1.6605390666e-27,
    'scipy.constants.eV': 1.602176634e-19, 'scipy.constants.electron_volt': 1.602176634e-19, 'scipy.constants.alpha': 0.0072973525693,
    'scipy.constants.fine_structure': 0.0072973525693, 'scipy.constants.gram': 1e-3, 'scipy.constants.inch': 0.0254, 'scipy.constants.minute': 60.0, 'scipy.constants.hour': 3600.0,
    'scipy.constants.degree': 0.017453292519943295, 'scipy.constants.angstrom': 1e-10, 'scipy.constants.micron': 1e-6, 'scipy.constants.gauss': 1e-4,
    'math.tau': 6.283185307179586, 'sympy.S.Half': Fraction(1, 2), 'sympy.S.One': 1, 'sympy.S.Zero': 0,
}
for _k, _e in (('yotta', 24), ('zetta', 21), ('exa', 18), ('peta', 15), ('tera', 12), ('giga', 9), ('mega', 6), ('kilo', 3), ('hecto', 2), ('deka', 1), ('deci', -1),
               ('centi', -2), ('milli', -3), ('micro', -6), ('nano', -9), ('pico', -12), ('femto', -15), ('atto', -18)):
    EXTCONST['scipy.constants.' + _k] = float('1e%d' % _e)
PHYS = {'electron mass energy equivalent in MeV': (0.51099895, 'MeV', 1.5e-10),
        'electron mass': (9.1093837015e-31, 'kg', 2.8e-40),
        'proton mass energy equivalent in MeV': (938.27208816, 'MeV', 2.9e-07),
        'proton mass': (1.67262192369e-27, 'kg', 5.1e-37),
        'speed of light in vacuum': (299792458.0, 'm s^-1', 0.0),
        'elementary charge': (1.602176634e-19, 'C', 0.0),
        'classical electron radius': (2.8179403262e-15, 'm', 1.3e-24),
        'muon mass energy equivalent in MeV': (105.6583755, 'MeV', 2.3e-06)}


def exactarr(c):
    """a numpy array whose elements are known one by one"""
    q = c.f.get('c') if c.kind == 'list' and c.x else None
    return isinstance(q, Seq) and all(s[0] == 'i' for s in q.segs)


def stub(ip, modname, name, value):
    """replace a public name of an analysed module by an abstract value (before its importers are loaded)"""
    fid = ip.module(modname)
    c = ip.base.heap[fid]
    if name not in c.f:
        raise AnalysisBroken('%s.%s not found' % (modname, name))
    ip.base.heap[fid] = ip.withvar(c, name, value)
