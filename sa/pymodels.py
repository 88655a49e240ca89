"""Transfer functions for the library calls the repository uses."""
import ast
from fractions import Fraction

from .val import *
from . import val as V
from . import interp as I
from . import identity


def install(ip):
    M = ip.models

    def reg(*names):
        def d(f):
            for n in names:
                M[n] = f
            return f
        return d

    # ---------------------------------------------------------- numeric functions
    def unary(fname, f):
        def m(ip, st, recv, args, kw, n):
            if len(args) < 1:
                return ip.top(fname)
            return elementwise(ip, st, f, args[0])
        return m

    def elementwise(ip, st, f, v):
        def one(l):
            c = ip.cellof(l, st)
            if c is not None:
                e = ip.elems(c)
                if e is not None:
                    return ip.newlist(st, [elementwise(ip, st, f, x) for x in e], True)
                if c.kind == 'arr':
                    return ip.new(st, I.Cell('arr', {}, elementwise(ip, st, f, c.x),
                                             tuple((k, elementwise(ip, st, f, x)) for k, x in c.y)))
                s = ip.snap(l, st)
                return ap(f, s)
            if l is NONE or isinstance(l, Tup):
                return app('f?', l)
            return f(l)
        return ap(one, v)
    ip.elementwise = elementwise

    def fn1(op):
        def f(l):
            if isinstance(l, Const) and isinstance(l.v, (int, float)):
                from . import identity
                r = identity.const_fn(op, l.v)
                if r is not None:
                    return const(r)
            return app('f:' + op, l)
        return f

    for p in ('numpy.', 'math.', 'scipy.', 'cmath.', 'sympy.'):
        M[p + 'sqrt'] = unary('sqrt', lambda l: npow(l, Fraction(1, 2)) if isnumlike(l) else app('f:sqrt', l))
        M[p + 'fabs'] = unary('fabs', lambda l: nabs(l) if isnumlike(l) else app('f:abs', l))
        for op in ('sin', 'cos', 'tan', 'exp', 'log', 'log10', 'log2', 'sinh', 'cosh', 'tanh', 'arcsin', 'arccos',
                   'arctan', 'arccosh', 'arcsinh', 'arctanh', 'floor', 'ceil', 'rint', 'sign', 'log1p', 'expm1', 'trunc'):
            M[p + op] = unary(op, fn1(op))
        for a, b in (('asin', 'arcsin'), ('acos', 'arccos'), ('atan', 'arctan'), ('acosh', 'arccosh'), ('asinh', 'arcsinh')):
            M[p + a] = unary(a, fn1(b))
        M[p + 'pow'] = M[p + 'power'] = lambda ip, st, r, a, kw, n: ip.binop(ast.Pow(), a[0], a[1], st, n)
        M[p + 'hypot'] = lambda ip, st, r, a, kw, n: elementwise(ip, st, lambda l: npow(l, Fraction(1, 2)),
            ip.binop(ast.Add(), ip.binop(ast.Pow(), a[0], const(2), st, n), ip.binop(ast.Pow(), a[1], const(2), st, n), st, n))
        M[p + 'copysign'] = lambda ip, st, r, a, kw, n: ap(lambda x, y: app('f:copysign', x, y), a[0], a[1])
        M[p + 'arctan2'] = M[p + 'atan2'] = lambda ip, st, r, a, kw, n: ap(lambda x, y: app('f:arctan2', x, y), a[0], a[1])
    M['math.gamma'] = None
    del M['math.gamma']
    for nm in ('abs', 'numpy.abs', 'numpy.absolute'):
        M[nm] = unary('abs', lambda l: nabs(l) if isnumlike(l) and not identity.is_complex(l) else app('f:abs', l))
    M['numpy.square'] = unary('square', lambda l: npow(l, Fraction(2)) if isnumlike(l) else app('f:square', l))
    M['numpy.negative'] = lambda ip, st, r, a, kw, n: ip.binop(ast.Mult(), const(-1), a[0], st, n)
    M['numpy.reciprocal'] = lambda ip, st, r, a, kw, n: ip.binop(ast.Div(), const(1.0), a[0], st, n)
    for nm, op in (('numpy.multiply', ast.Mult), ('numpy.divide', ast.Div), ('numpy.true_divide', ast.Div), ('numpy.add', ast.Add), ('numpy.subtract', ast.Sub),
                   ('numpy.mod', ast.Mod), ('numpy.remainder', ast.Mod), ('numpy.floor_divide', ast.FloorDiv), ('operator.add', ast.Add), ('operator.sub', ast.Sub),
                   ('operator.truediv', ast.Div), ('operator.mod', ast.Mod), ('operator.pow', ast.Pow)):
        M[nm] = lambda ip, st, r, a, kw, n, op=op: ip.binop(op(), a[0], a[1], st, n)
    for nm in ('operator.mul',):
        M[nm] = lambda ip, st, r, a, kw, n: ip.binop(ast.Mult(), a[0], a[1], st, n)
    for nm, op in (('numpy.less', ast.Lt), ('numpy.greater', ast.Gt), ('numpy.less_equal', ast.LtE),
                   ('numpy.greater_equal', ast.GtE), ('numpy.equal', ast.Eq)):
        M[nm] = lambda ip, st, r, a, kw, n, op=op: ip.compare(op(), a[0], a[1], st, n)

    def np_where(ip, st, r, a, kw, n):
        if len(a) == 3:
            return ite(truth(ip.truthval(a[0], st)), a[1], a[2])
        return ip.opaque('call:numpy.where', a, kw, st)
    M['numpy.where'] = np_where

    @reg('float', 'numpy.float64', 'numpy.double')
    def float_(ip, st, r, a, kw, n):
        if not a:
            return const(0.0)

        def one(l):
            if isinstance(l, Const):
                if isinstance(l.v, (int, float)):
                    return const(float(l.v))
                if isinstance(l.v, str):
                    try:
                        return const(float(l.v))
                    except ValueError:
                        ip.raise_(st, TRUE, 'ValueError')
                        return BOT
                ip.raise_(st, TRUE, 'TypeError')
                return BOT
            if isinstance(l, Sym) and 'num' in l.attrs or isinstance(l, Num):
                return l
            if isinstance(l, App) and (l.op.startswith('f:') or l.op in ('elem', 'float', 'loopsum', 'loopin')):
                return l
            if isinstance(l, Ref):
                return app('float', ip.snap1(l, st))
            ip.mayraise(st, 'ValueError', const('float'), l)
            return app('float', l)
        return ip.apr(one, st, a[0])

    @reg('int', 'numpy.int32', 'numpy.int64')
    def int_(ip, st, r, a, kw, n):
        if not a:
            return const(0)

        def one(l):
            if isinstance(l, Const):
                try:
                    return const(int(l.v))
                except ValueError:
                    ip.raise_(st, TRUE, 'ValueError')
                    return BOT
                except TypeError:
                    ip.raise_(st, TRUE, 'TypeError')
                    return BOT
            if isinstance(l, Sym) and 'int' in l.attrs:
                return l
            ip.mayraise(st, 'ValueError', const('int'), l)
            return app('f:int', l)
        return ip.apr(one, st, a[0])

    @reg('bool')
    def bool_(ip, st, r, a, kw, n):
        return truth(ip.truthval(a[0], st)) if a else FALSE

    @reg('str')
    def str_(ip, st, r, a, kw, n):
        if not a:
            return const('')
        if len(a) > 1 or kw:
            return ip.callmethod(a[0], 'decode', list(a[1:]), kw, st, n)
        return ap(lambda l: ip.fmt(l if not isinstance(l, Ref) else ip.snap1(l, st), const('')), a[0])

    @reg('repr')
    def repr_(ip, st, r, a, kw, n):
        return ap(lambda l: const(repr(l.v)) if isinstance(l, Const) else app('repr', ip.snap1(l, st)), a[0])

    @reg('round', 'numpy.round', 'numpy.around')
    def round_(ip, st, r, a, kw, n):
        a = list(a) + [kw[k] for k in ('ndigits', 'decimals') if k in kw]
        if all(isinstance(x, Const) for x in a) and all(isinstance(x.v, (int, float)) for x in a):
            return const(round(*[x.v for x in a]))
        return ap(lambda *xs: app('f:round', *xs), *a)

    def plainitems(ip, v, st, n):
        if isinstance(v, Ite):
            return None
        sg = ip.iterate(v, st, n)
        return [x[1] for x in sg] if all(x[0] == 'i' for x in sg) else None

    def keysof(ip, it, key, st, n):
        """The known values things are put in order by, or None."""
        def known(v):
            if isinstance(v, Const) and not isinstance(v.v, bytes):
                return v.v
            if isinstance(v, Tup):
                xs = [known(x) for x in v.items]
                return tuple(xs) if all(x is not Ellipsis for x in xs) else Ellipsis
            return Ellipsis
        ks = [known(x if key is NONE else ip.call(key, [x], {}, st, n)) for x in it]
        return ks if all(k is not Ellipsis and k is not None for k in ks) else None

    def minmax(kind):
        def m(ip, st, r, a, kw, n):
            if set(kw) <= {'key', 'default'} and 'key' in kw or len(a) == 1:
                it = plainitems(ip, a[0], st, n) if len(a) == 1 else list(a)
                if it == [] and 'default' in kw:
                    return kw['default']
                ks = keysof(ip, it, kw.get('key', NONE), st, n) if it and set(kw) <= {'key', 'default'} else None
                if ks:
                    try:
                        return it[ks.index((min if kind == 'min' else max)(ks))]
                    except TypeError:
                        pass
            if len(a) == 1 and not kw:
                v = a[0]
                sg = ip.iterate(v, st, n) if not isinstance(v, Ite) else None
                if sg and all(s[0] == 'i' for s in sg):
                    a = [s[1] for s in sg]
                else:
                    return ip.opaque('r:' + kind, a, kw, st)
            if kw or any(isinstance(l, (Ref, Tup)) or isstr_(l) for v in a for _, l in cases(v)):
                return ip.opaque('r:' + kind, a, kw, st)
            r = a[0]
            for x in a[1:]:
                def pick(p, q):
                    if isnumlike(p) and isnumlike(q):
                        c = cmp_lt(q, p) if kind == 'min' else cmp_lt(p, q)
                        return ite(c, q, p)
                    return app('r:' + kind, p, q)
                r = ap(pick, r, x)
            return r
        return m
    M['min'] = minmax('min')
    M['max'] = minmax('max')
    M['numpy.minimum'] = M['numpy.fmin'] = minmax('min')
    M['numpy.maximum'] = M['numpy.fmax'] = minmax('max')

    def isstr_(l):
        return I.isstr(l)

    def reduction(name):
        def m(ip, st, r, a, kw, n):
            args = ([r] if r is not None else []) + list(a)
            if len(args) == 1 and not kw and name in ('sum', 'prod'):
                sg = None
                c = ip.cellof(args[0], st)
                if isinstance(args[0], Tup):
                    sg = list(args[0].items)
                elif c is not None:
                    sg = ip.elems(c)
                if sg is not None and not any(isinstance(l, Ref) for x in sg for _, l in cases(x)):
                    t = const(0) if name == 'sum' else const(1)
                    for x in sg:
                        t = ip.binop(ast.Add() if name == 'sum' else ast.Mult(), t, x, st, n)
                    return t
            if len(args) == 1 and not kw and name in ('min', 'max', 'amin', 'amax'):
                c = ip.cellof(args[0], st)
                sg = list(args[0].items) if isinstance(args[0], Tup) else ip.elems(c) if c is not None and c.kind == 'list' else None
                if sg and all(isinstance(x, Const) and isinstance(x.v, (int, float, Fraction)) for x in sg):
                    return const((min if 'min' in name else max)(x.v for x in sg))
            if name in ('mean', 'average'):
                return linear(ip, 'r:mean', args, kw, st)
            return ip.opaque('r:' + name, args, kw, st)
        return m

    def linear(ip, op, args, kw, st):
        return ip.opaque(op, args, kw, st)
    for p in ('numpy.', 'scipy.'):
        for a, b in (('sum', 'sum'), ('mean', 'mean'), ('average', 'mean'), ('std', 'std'), ('var', 'var'), ('prod', 'prod'),
                     ('max', 'max'), ('min', 'min'), ('amax', 'max'), ('amin', 'min'), ('median', 'median'), ('cumsum', 'cumsum')):
            M[p + a] = reduction(b)
    plain = reduction('sum')

    def total(ip, st, r, a, kw, n):
        start = a[1] if len(a) == 2 else kw.get('start') if set(kw) == {'start'} else None
        if start is None or isinstance(a[0], Ite):
            return plain(ip, st, r, a, kw, n)
        try:
            sg = ip.iterate(a[0], st, n)
        except Exception:
            sg = None
        if sg is None or not all(s[0] == 'i' for s in sg):
            if isinstance(start, Const) and isinstance(start.v, (int, float, Fraction)) and start.v == 0:
                return plain(ip, st, r, a[:1], {}, n)
            return ip.opaque('r:sum', a, kw, st)
        t = start
        for s in sg:
            t = ip.binop(ast.Add(), t, s[1], st, n)
        return t
    M['sum'] = total
    for a in ('sum', 'mean', 'std', 'var', 'max', 'min', 'prod', 'cumsum'):
        M['any.' + a] = reduction(a)

    # ---------------------------------------------------------- arrays of known length
    def known(ip, st, v):
        """the numbers of an array of known length, one dimension"""
        if isinstance(v, Tup):
            e = list(v.items)
        else:
            c = ip.cellof(v, st)
            e = ip.elems(c) if c is not None and c.kind == 'list' else None
        if e is None or any(isinstance(l, (Ref, Tup)) for x in e for _, l in cases(x)):
            return None
        return e

    def onelength(nm, f, lo=1, hi=1):
        def m(ip, st, r, a, kw, n):
            es = known(ip, st, a[0]) if lo <= len(a) <= hi and not kw and not isinstance(a[0], Ite) else None
            if es is not None:
                v = f(ip, st, es, list(a[1:]), n)
                if v is not None:
                    return ip.newlist(st, v, True)
            return ip.opaque('call:numpy.' + nm if nm != 'cumsum' else 'r:cumsum', a, kw, st)
        M['numpy.' + nm] = m

    def diff(ip, st, e, a, n):
        return [ip.binop(ast.Sub(), y, x, st, n) for x, y in zip(e, e[1:])]

    def cumsum(ip, st, e, a, n):
        out = []
        for x in e:
            out.append(ip.binop(ast.Add(), out[-1], x, st, n) if out else x)
        return out

    def append(ip, st, e, a, n):
        m = known(ip, st, a[0]) if not isinstance(a[0], (Const, Num, Sym, Ite)) else [a[0]]
        return None if m is None else e + m

    def insert(ip, st, e, a, n):
        if not isinstance(a[0], Const) or not isinstance(a[0].v, int):
            return None
        m = known(ip, st, a[1]) if not isinstance(a[1], (Const, Num, Sym, Ite)) else [a[1]]
        k = a[0].v if a[0].v >= 0 else a[0].v + len(e)
        return None if m is None else e[:k] + m + e[k:]

    def roll(ip, st, e, a, n):
        if not isinstance(a[0], Const) or not isinstance(a[0].v, int) or not e:
            return None
        k = a[0].v % len(e)
        return e[-k:] + e[:-k] if k else e
    onelength('diff', diff)
    onelength('cumsum', cumsum)
    onelength('append', append, 2, 2)
    onelength('insert', insert, 3, 3)
    onelength('roll', roll, 2, 2)
    onelength('flip', lambda ip, st, e, a, n: e[::-1])

    # ---------------------------------------------------------- arrays
    @reg('numpy.array', 'numpy.asarray', 'numpy.asanyarray', 'numpy.ascontiguousarray', 'scipy.array')
    def array(ip, st, r, a, kw, n):
        dt = kw.get('dtype', a[1] if len(a) > 1 else None)
        lossy = dt is not None and not (isinstance(dt, Ext) and dt.name in ('float', 'numpy.float64', 'numpy.double', 'object', 'numpy.float')) \
            and not (isinstance(dt, Const) and dt.v in ('float', 'float64', 'd', None))

        def width(e):
            return max(len(x.v) for x in e) if dt is None and e and all(isinstance(x, Const) and isinstance(x.v, str) for x in e) else None

        def one(l):
            c = ip.cellof(l, st)
            if lossy:
                return app('astype', ip.snap1(l, st), dt if isinstance(dt, Leaf) else const('?'))
            if isinstance(l, Tup):
                r = ip.newlist(st, list(l.items), True)
                st.heap[r.id] = I.Cell('list', st.heap[r.id].f, True, width(l.items))
                return r
            same = dt is None and isinstance(n, ast.Call) and (n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', '')) in ('asarray', 'asanyarray', 'ascontiguousarray')
            if c is None:
                return l if same or l not in ip.views else ip.newarr(st, l)
            if c.kind == 'list':
                return l if same and c.x else ip.new(st, I.Cell('list', dict(c.f), True, c.y if c.x else width(ip.elems(c))))
            if c.kind == 'arr':
                return l if same else ip.new(st, I.Cell('arr', dict(c.f), c.x, c.y))
            return ip.snap1(l, st)
        return ap(one, a[0]) if a else ip.top('array')

    @reg('numpy.atleast_1d')
    def atleast1(ip, st, r, a, kw, n):
        return ap(lambda l: l if not isinstance(l, (Const, Num)) else app('array', l), a[0])

    @reg('numpy.column_stack', 'numpy.vstack', 'numpy.row_stack', 'numpy.stack', 'numpy.hstack', 'numpy.concatenate')
    def stack(ip, st, r, a, kw, n):
        nm = n.func.attr if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) else '?'
        ax = kw.get('axis', a[1] if len(a) > 1 else const(0))
        sg = ip.iterate(a[0], st, n) if not isinstance(a[0], Ite) else None
        if sg is None or not all(x[0] == 'i' for x in sg):
            return ip.opaque('call:numpy.' + nm, a, kw, st)
        vs = [x[1] for x in sg]
        if nm == 'column_stack' or nm == 'stack' and ax in (const(1), const(-1)):
            r = ip.newarr(st, app('uninit', 'stack'))
            c = st.heap[r.id]
            st.heap[r.id] = I.Cell('arr', {}, c.x, tuple(((I.FULL, const(i)), ip.snap1(v, st)) for i, v in enumerate(vs)))
            return r
        if nm in ('vstack', 'row_stack') or nm == 'stack' and ax is const(0):
            return ip.newlist(st, vs, True)
        if nm in ('hstack', 'concatenate'):
            cs = [ip.cellof(v, st) for v in vs]
            if ax is const(0) and all(c is not None and c.kind == 'list' and ip.elems(c) is not None for c in cs):
                return ip.newlist(st, [e for c in cs for e in ip.elems(c)], True)
        return ip.opaque('call:numpy.' + nm, a, kw, st)

    @reg('numpy.transpose')
    def transpose(ip, st, r, a, kw, n):
        return ip.getattr_(a[0], 'T', st, n)

    def filled(v, op):
        def m(ip, st, r, a, kw, n):
            sh = a[0] if a else kw.get('shape', NONE)
            dt = kw.get('dtype')
            if isinstance(dt, Ref) and ip.cellof(dt, st) is not None and ip.cellof(dt, st).kind == 'list':
                # structured records
                q = ip.snap(sh, st)
                q = q if isinstance(q, Tup) else tup([q])
                r = ip.newarr(st, app('records', ip.snap(dt, st), q))
                c = st.heap[r.id]
                st.heap[r.id] = I.Cell('arr', {'shape': q, 'dtype': NONE}, c.x, c.y)
                return r
            nm = dt.name.split('.')[-1] if isinstance(dt, Ext) else dt.v.lstrip('<>=|') if isinstance(dt, Const) and isinstance(dt.v, str) else None
            lossy = nm is not None and (nm.startswith(('int', 'uint', 'i', 'u', 'bool', 'short', 'long', 'half', 'single')) or nm in ('float32', 'float16', 'f', 'f4', 'f2', 'e'))
            dt = const(nm)
            s = ip.snap(sh, st)
            if isinstance(s, App) and s.op in ('tuple', 'list', 'array') and not any(isinstance(q, App) and q.op in ('rep', 'seg?') for q in s.args):
                s = tup(s.args)
                if len(s.items) == 1:
                    s = s.items[0]
            # small constant 1-d arrays are exact
            if isinstance(s, Const) and isinstance(s.v, int) and 0 <= s.v <= 40 and not lossy and v is not None:
                return ip.newlist(st, [const(v)] * s.v, True)
            r = ip.newarr(st, const(v) if v is not None else app('uninit', op))
            c = st.heap[r.id]
            s = s if isinstance(s, Tup) else tup([s]) if isinstance(s, Const) and isinstance(s.v, int) or isinstance(s, (Sym, Num)) else s
            st.heap[r.id] = I.Cell('arr', {'shape': s, 'dtype': dt if lossy else NONE}, c.x, c.y)
            return r
        return m
    for p in ('numpy.', 'scipy.'):
        M[p + 'zeros'] = filled(0.0, 'zeros')
        M[p + 'ones'] = filled(1.0, 'ones')
        M[p + 'empty'] = filled(None, 'empty')

    def like(v):
        def m(ip, st, r, a, kw, n):
            if v is None:
                return ip.newarr(st, app('uninit', 'like'))
            return ip.newarr(st, const(v))
        return m
    M['numpy.zeros_like'] = like(0.0)
    M['numpy.ones_like'] = like(1.0)
    M['numpy.empty_like'] = like(None)

    @reg('numpy.copy', 'copy.copy', 'copy.deepcopy')
    def copy_(ip, st, r, a, kw, n):
        return docopy(ip, st, a[0], n)

    def docopy(ip, st, v, n, deep=False):
        def one(l):
            c = ip.cellof(l, st)
            if c is None:
                return l if l not in ip.views else ip.newarr(st, l)
            if c.kind in ('list', 'arr', 'dict'):
                return ip.new(st, I.Cell(c.kind, dict(c.f), c.x, c.y))
            if c.kind == 'obj':
                f = dict(c.f)
                if '$dict' in f:
                    f['$dict'] = docopy(ip, st, f['$dict'], n)
                return ip.new(st, I.Cell('obj', f, c.x, c.y))
            return l
        return ap(one, v)
    for k in ('any', 'list', 'dict', 'obj'):
        M[k + '.copy'] = lambda ip, st, r, a, kw, n: docopy(ip, st, r, n)

    @reg('numpy.squeeze', 'numpy.ravel', 'numpy.reshape')
    def shape_fn(ip, st, r, a, kw, n):
        return ip.callmethod(a[0], n.func.attr if isinstance(n.func, ast.Attribute) else 'squeeze', list(a[1:]), kw, st, n)

    @reg('any.reshape', 'any.flatten', 'any.ravel', 'any.squeeze', 'any.transpose', 'any.tolist')
    def shape_only(ip, st, r, a, kw, n):
        c = ip.cellof(r, st)
        nm = n.func.attr if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) else 'shape'
        if c is not None and c.kind == 'arr' and not c.y:
            sh = tup(a) if len(a) > 1 else a[0] if a else NONE
            sh = sh if isinstance(sh, Tup) else tup([sh])
            return ip.new(st, I.Cell('arr', {'shape': sh} if nm == 'reshape' and const(-1) not in sh.items else {}, c.x, ()))
        if nm in ('reshape', 'ravel', 'flatten') and c is not None and c.kind == 'list' and c.x and ip.elems(c) is not None and not any(isinstance(x, Ref) for x in ip.elems(c)) and (
                nm != 'reshape' or tuple(a) == (const(-1),) or list(a) == [tup([const(-1)])]):
            return ip.newlist(st, ip.elems(c), True)
        if c is not None and c.kind == 'list' and c.x and ip.elems(c) is not None and all(isinstance(x, Const) for x in ip.elems(c)) and len(set(ip.elems(c))) == 1:
            return ip.newarr(st, ip.elems(c)[0])
        if isinstance(r, App) and r.op == 'uninit':
            return ip.newarr(st, r)
        return ip.opaque('m:' + nm, [r] + list(a), kw, st)

    @reg('any.astype')
    def astype(ip, st, r, a, kw, n):
        d = a[0] if a else kw.get('dtype', NONE)
        if (isinstance(d, Ext) and d.name in ('float', 'numpy.float64', 'numpy.double')) or (isinstance(d, Const) and d.v in ('float', 'float64', 'd', '<f8')):
            return docopy(ip, st, r, n)
        return ap(lambda l, q: app('astype', ip.snap1(l, st), q if not isinstance(q, Ref) else ip.snap1(q, st)), r, d)

    @reg('numpy.float32', 'numpy.int16', 'numpy.half', 'numpy.single')
    def f32(ip, st, r, a, kw, n):
        if not a:
            return ip.top('dtype')
        return ap(lambda l: app('astype', ip.snap1(l, st), const('float32')), a[0])

    @reg('numpy.shape')
    def shape(ip, st, r, a, kw, n):
        return ip.getattr_(a[0], 'shape', st, n)

    @reg('numpy.ndim')
    def ndim(ip, st, r, a, kw, n):
        return ip.getattr_(a[0], 'ndim', st, n)

    @reg('numpy.size')
    def size(ip, st, r, a, kw, n):
        return ip.getattr_(a[0], 'size', st, n)

    @reg('any.tofile')
    def tofile(ip, st, r, a, kw, n):
        # array.tofile(file): the bytes of the array, written to the open file
        if len(a) == 1 and isinstance(a[0], Ref) and ip.cellof(a[0], st) is not None:
            raw = ip.callmethod(r, 'tobytes', [], {}, st, n)
            ip.call(ip.getattr_(a[0], 'write', st, n), [raw], {}, st, n)
            return NONE
        ip.notes.add('unmodelled container method tofile')
        return ip.opaque('m:tofile', [r] + list(a), kw, st)

    @reg('any.item')
    def item(ip, st, r, a, kw, n):
        return ip.opaque('m:item', [r] + list(a), kw, st)

    # ---------------------------------------------------------- builtins
    @reg('range')
    def range_(ip, st, r, a, kw, n):
        a = list(a)
        if len(a) == 1:
            a = [const(0), a[0], const(1)]
        elif len(a) == 2:
            a = a + [const(1)]
        if len(a) != 3:
            return ip.top('range')
        return ap(lambda *x: app('range', *x), *a)

    # random numbers: everything is made of standard uniform and standard normal ones
    def rnd(name, kind):
        def m(ip, st, r, a, kw, n):
            ip.event(st, 'call', name, [ip.snap(x, st) for x in a], {k: ip.snap(x, st) for k, x in kw.items()}, n)
            a, kw = list(a), dict(kw)
            lo, hi = const(0.0), const(1.0)
            for i, ks in enumerate((('low', 'a', 'loc', 'mu'), ('high', 'b', 'scale', 'sigma')) if kind[-1] == '*' else ()):
                v = a.pop(0) if a else None
                for k in ks:
                    v = kw.pop(k) if k in kw else v
                lo, hi = (v if v is not None else lo, hi) if i == 0 else (lo, v if v is not None else hi)
            size = a + [kw.pop(k) for k in ('size',) if k in kw]
            size = [x for x in size if x is not NONE]
            if len(size) == 1 and isinstance(size[0], Tup):
                size = list(size[0].items)
            if len(size) == 1 and isinstance(size[0], Const) and isinstance(size[0].v, int) and 2 <= size[0].v <= 16 and not kw:
                # a few independent numbers
                out = []
                for i in range(size[0].v):
                    z = app('impure:' + ('numpy.random.random' if kind[0] == 'u' else 'numpy.random.standard_normal'), ip._uid())
                    out.append(z if lo in (const(0.0), const(0)) and hi in (const(1.0), const(1)) or kind[-1] != '*' else
                               ip.binop(ast.Add(), lo, ip.binop(ast.Mult(), ip.binop(ast.Sub(), hi, lo, st, n) if kind[0] == 'u' else hi, z, st, n), st, n))
                return ip.newlist(st, out, True)
            z = app('impure:' + ('random.random' if name.startswith('random.') and kind[0] == 'u' else
                                 'numpy.random.random' if kind[0] == 'u' else 'numpy.random.standard_normal'),
                    ip._uid(), *[ip.snap1(x, st) for x in size], *[app('kw', k, ip.snap1(x, st)) for k, x in sorted(kw.items())])
            if kind[-1] != '*' or lo in (const(0.0), const(0)) and hi in (const(1.0), const(1)):
                return z
            if kind[0] == 'u':
                hi = ip.binop(ast.Sub(), hi, lo, st, n)
            return ip.binop(ast.Add(), lo, ip.binop(ast.Mult(), hi, z, st, n), st, n)
        M[name] = m
    for q, k in (('random.random', 'u'), ('random.uniform', 'u*'), ('random.gauss', 'n*'), ('random.normalvariate', 'n*'),
                 ('numpy.random.random', 'u'), ('numpy.random.rand', 'u'), ('numpy.random.random_sample', 'u'), ('numpy.random.ranf', 'u'), ('numpy.random.sample', 'u'),
                 ('numpy.random.uniform', 'u*'), ('numpy.random.randn', 'n'), ('numpy.random.standard_normal', 'n'), ('numpy.random.normal', 'n*')):
        rnd(q, k)

    for nm in ('argmax', 'argmin', 'argsort'):
        M['any.' + nm] = lambda ip, st, r, a, kw, n, nm=nm: ip.opaque('call:numpy.' + nm, [r] + list(a), kw, st)

    def dot(ip, st, r, a, kw, n):
        l, q = (a[0], a[1]) if r is None or len(a) == 2 else (r, a[0])
        z = ip.matrixtimes(l, q, st, n)
        return z if z is not None else ip.opaque('m:dot', [l, q], {}, st) if r is not None and len(a) == 1 else ip.opaque('call:numpy.dot', [l, q], {}, st)
    M['any.dot'] = lambda ip, st, r, a, kw, n: dot(ip, st, r, a, kw, n) if len(a) == 1 and not kw else ip.opaque('m:dot', [r] + list(a), kw, st)
    for nm in ('numpy.dot', 'numpy.matmul'):
        M[nm] = lambda ip, st, r, a, kw, n, nm=nm: dot(ip, st, None, a, kw, n) if len(a) == 2 and not kw else ip.opaque('call:' + nm, a, kw, st)

    @reg('pow')
    def pow_(ip, st, r, a, kw, n):
        return ip.binop(ast.Pow(), a[0], a[1], st, n) if len(a) == 2 else ip.opaque('call:pow', a, kw, st)

    @reg('property')
    def property_(ip, st, r, a, kw, n):
        a = list(a) + [kw.get(k, NONE) for k in ('fget', 'fset')[len(a):]]
        return propv(a[0], a[1])

    @reg('app:call:numpy.fft.fftfreq[]')
    def fftfreq(ip, st, r, a, kw, n):
        q = [x for x in r.args if not (isinstance(x, App) and x.op == 'kw')]
        if not isnumlike(a[0]) or isinstance(a[0], SliceV) or len(q) != len(r.args) or len(q) > 2:
            return app('elem', r, a[0])
        k, m = a[0], q[0]
        f = ip.binop(ast.Div(), k, m, st, n)
        f = ip.apr(lambda x, y: ite(cmp_lt(nmul(const(2), x), y), f, nadd(f, const(-1))), st, k, m)
        return f if len(q) == 1 else ip.binop(ast.Div(), f, q[1], st, n)

    @reg('numpy.arange')
    def arange(ip, st, r, a, kw, n):
        if len(a) == 2 and not kw and not (isinstance(a[0], Const) and isinstance(a[1], Const)) and all(isnumlike(l) for x in a for _, l in cases(x)):
            k = app('call:numpy.arange', ip.binop(ast.Sub(), a[1], a[0], st, n))
            return ip.binop(ast.Add(), a[0], k, st, n)
        return ip.opaque('call:numpy.arange', a, kw, st)

    @reg('zip')
    def zip_(ip, st, r, a, kw, n):
        return ap(lambda *x: app('zip', *x), *a) if a else tup([])

    @reg('enumerate')
    def enum_(ip, st, r, a, kw, n):
        s = a[1] if len(a) > 1 else kw.get('start', const(0))
        return ap(lambda x, y: app('enumerate', x, y), a[0], s)

    @reg('reversed')
    def rev_(ip, st, r, a, kw, n):
        return ap(lambda x: app('reversed', x), a[0])

    @reg('len')
    def len_(ip, st, r, a, kw, n):
        def one(l):
            if isinstance(l, Tup):
                return const(len(l.items))
            if isinstance(l, Const) and isinstance(l.v, (str, bytes)):
                return const(len(l.v))
            c = ip.cellof(l, st)
            if c is not None:
                if c.kind == 'list':
                    return ap(lambda q: const(len(q.segs)) if isinstance(q, Seq) and all(s[0] == 'i' for s in q.segs) else app('len', ip.snap1(l, st)), c.f['c'])
                if c.kind == 'dict':
                    if not c.y:
                        t = const(0)
                        for k in c.x:
                            t = ap(lambda p, q: p if q is MISSING else nadd(p, const(1)), t, c.f.get(k, MISSING))
                        return t
                if c.kind == 'arr' and isinstance(c.f.get('shape'), Tup) and c.f['shape'].items:
                    return c.f['shape'].items[0]
                if c.kind == 'obj':
                    m = ip.lookup(c.x, '__len__', st)
                    if m is not None and isinstance(m, Func):
                        return ip.call(ip.bind(m, l, c.x), [], {}, st, n)
                    if '$dict' in c.f:
                        return len_(ip, st, None, [c.f['$dict']], {}, n)
                return app('len', ip.snap1(l, st))
            return app('len', l)
        return ap(one, a[0])

    @reg('list', 'sorted', 'tuple', 'set', 'frozenset')
    def list_(ip, st, r, a, kw, n):
        nm = n.func.id if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) else 'list'
        if not a:
            return ip.newlist(st, []) if nm != 'tuple' else tup([])

        def one(l):
            sg = ip.iterate(l, st, n)
            if nm == 'sorted':
                it = [s[1] for s in sg] if all(s[0] == 'i' for s in sg) else None
                rv = kw.get('reverse', FALSE)
                ks = keysof(ip, it, kw.get('key', NONE), st, n) if it is not None and set(kw) <= {'key', 'reverse'} and rv in (TRUE, FALSE) else None
                if ks is not None:
                    try:
                        return ip.newlist(st, [it[i] for i in sorted(range(len(it)), key=lambda i: ks[i], reverse=rv is TRUE)])
                    except TypeError:
                        pass
                return ip.opaque('sorted', [l], kw, st)
            if nm in ('set', 'frozenset') and all(s[0] == 'i' for s in sg):
                return ip.mkset([s[1] for s in sg], st)
            if all(s[0] == 'i' for s in sg):
                vs = [s[1] for s in sg]
                return tup(vs) if nm == 'tuple' else ip.newlist(st, vs)
            c = ip.cellof(l, st)
            if c is not None and c.kind == 'list':
                return ip.new(st, I.Cell('list', dict(c.f), False))
            ip.loopn += 1
            return ip.new(st, I.Cell('list', {'c': seq([('i', s[1]) if s[0] == 'i' else ('rep', app('dom', s[2]), (('i', s[1]),)) for s in sg])}, False))
        return ap(one, a[0])

    @reg('dict', 'collections.OrderedDict', 'pykern.pkcollections.PKDict')
    def dict_(ip, st, r, a, kw, n):
        d = ip.newdict(st, [])
        M['dict.update'](ip, st, d, a, kw, n)
        return d

    @reg('collections.defaultdict')
    def ddict(ip, st, r, a, kw, n):
        return ip.newdict(st, [])

    @reg('isinstance')
    def isinstance_(ip, st, r, a, kw, n):
        def one(l, t):
            return isinst(ip, st, l, t)
        return ap(one, a[0], a[1])

    def isinst(ip, st, l, t):
        if isinstance(t, Tup):
            r = FALSE
            for x in t.items:
                r = bor(r, truth(isinst(ip, st, l, x)))
            return r
        c = ip.cellof(l, st)
        tn = t.name if isinstance(t, Ext) else None
        if c is not None and c.kind == 'obj':
            m = ip.mro(c.x)
            if t in m:
                return TRUE
            if isinstance(t, ClassV):
                return FALSE
            if tn == 'object':
                return TRUE
            if all(isinstance(b, (ClassV, Ext)) for b in m):
                return FALSE
            return atom('isinstance', l, t)
        if c is not None:
            k = {'list': 'numpy.ndarray' if c.x else 'list', 'dict': 'dict', 'arr': 'numpy.ndarray'}.get(c.kind)
            if tn:
                return const(k == tn or (k == 'list' and tn in ('collections.abc.Iterable',)))
            return FALSE
        if isinstance(l, Const) and tn:
            tt = {'str': str, 'int': int, 'float': (float, Fraction), 'bool': bool, 'bytes': bytes, 'object': object, 'numbers.Number': (int, float, Fraction),
                  'numbers.Real': (int, float, Fraction), 'numbers.Integral': int, 'collections.abc.Iterable': (str, bytes), 'collections.abc.Sequence': (str, bytes)}.get(tn)
            if tt:
                return const(isinstance(l.v, tt))
            return FALSE
        if isinstance(l, Const) and isinstance(t, ClassV) and not any(isinstance(b, Ext) and b.name in ('str', 'int', 'float') for b in ip.mro(t)):
            return FALSE
        if isinstance(l, StrV) or (isinstance(l, Sym) and 'str' in l.attrs) or textual(l):
            return const(tn == 'str')
        if isinstance(l, Tup):
            return const(tn == 'tuple')
        if isinstance(l, Num) or (isinstance(l, Sym) and 'num' in l.attrs):
            if tn in ('str', 'list', 'tuple', 'dict'):
                return FALSE
        if l is NONE:
            return FALSE
        if isinstance(l, App) and l.op == 'stream':
            return const(tn in ('types.GeneratorType', 'collections.abc.Iterator', 'collections.abc.Iterable', 'collections.abc.Generator', 'object'))
        if isinstance(t, ClassV) and isinstance(l, (ClassV, Func)):
            return FALSE
        return atom('isinstance', l, t)

    def textual(l):
        return isinstance(l, App) and (l.op in ('str', 'fmt') or l.op == 'strmeth' and getattr(l.args[0], 'v', l.args[0]) in (
            'lower', 'upper', 'strip', 'lstrip', 'rstrip', 'replace', 'title', 'capitalize', 'swapcase', 'casefold') and textual_or_str(l.args[1]))

    def textual_or_str(l):
        return isinstance(l, Const) and isinstance(l.v, str) or isinstance(l, StrV) or isinstance(l, Sym) and 'str' in l.attrs or textual(l)

    @reg('type')
    def type_(ip, st, r, a, kw, n):
        def one(l):
            c = ip.cellof(l, st)
            if c is not None and c.kind == 'obj':
                return c.x
            if c is not None:
                return ext({'list': 'numpy.ndarray' if c.x else 'list', 'dict': 'dict', 'arr': 'numpy.ndarray'}.get(c.kind, '?'))
            if isinstance(l, Const):
                return ext(type(l.v).__name__)
            if isinstance(l, StrV) or (isinstance(l, Sym) and 'str' in l.attrs) or textual(l):
                return ext('str')
            if isinstance(l, Tup):
                return ext('tuple')
            if isinstance(l, Ext) and l.name.startswith('numpy.') or isinstance(l, ClassV):
                return ext('type')
            return app('type', l)
        return ap(one, a[0])

    @reg('callable')
    def callable_(ip, st, r, a, kw, n):
        def one(l):
            if isinstance(l, (Func, ClassV, Ext, BoundM, Wrap)):
                return TRUE
            if isinstance(l, (Const, Num, StrV, Tup)) or l is NONE:
                return FALSE
            if isinstance(l, Sym) and ('num' in l.attrs or 'str' in l.attrs):
                return FALSE
            if isinstance(l, App) and (l.op.startswith(('f:', 'r:', 'call:')) or l.op in ('elem', 'float')):
                return FALSE
            c = ip.cellof(l, st)
            if c is not None:
                if c.kind == 'obj':
                    return const(ip.lookup(c.x, '__call__', st) is not None)
                return FALSE
            if isinstance(l, Sym) and 'callable' in l.attrs:
                return TRUE
            return atom('callable', l)
        return ap(one, a[0])

    @reg('getattr')
    def getattr_(ip, st, r, a, kw, n):
        def one(nm):
            if isinstance(nm, Const) and isinstance(nm.v, str):
                if len(a) > 2:
                    k = len(st.pending)
                    pc = st.pc
                    v = ip.getattr_(a[0], nm.v, st, n)
                    if len(st.pending) > k and all(isinstance(e, App) and e.op == 'exc' and e.args[0].name == 'AttributeError' for _, e in st.pending[k:]):
                        c = FALSE
                        for s, e in st.pending[k:]:
                            c = bor(c, s.pc)
                        st.pending = st.pending[:k]
                        st.pc = pc
                        return ite(restrict(c, pc), a[2], v) if v is not BOT else a[2]
                    return v
                return ip.getattr_(a[0], nm.v, st, n)
            return app('getattr', ip.snap1(a[0], st), nm)
        vals = [(c, ip.guarded(c, lambda s, l=l: one_in(s, l, a, ip, n), st)) for c, l in cases(a[1])] if isinstance(a[1], Ite) else None
        if vals:
            v = vals[-1][1]
            for c, x in vals[:-1][::-1]:
                v = ite(c, x, v)
            return v
        return one(a[1])

    def one_in(s, l, a, ip, n):
        return getattr_(ip, s, None, [a[0], l] + list(a[2:]), {}, n)

    @reg('setattr')
    def setattr_(ip, st, r, a, kw, n):
        for c, l in cases(a[1]):
            if isinstance(l, Const):
                ip.guarded(c, lambda s: ip.setattr_(a[0], l.v, a[2], s, n) or NONE, st)
            else:
                ip.notes.add('setattr with computed name')
        return NONE

    @reg('hasattr')
    def hasattr_(ip, st, r, a, kw, n):
        def one(o, nm):
            c = ip.cellof(o, st)
            if c is not None and c.kind == 'obj' and isinstance(nm, Const):
                if nm.v in c.f:
                    return ap(lambda l: const(l is not MISSING), c.f[nm.v])
                if ip.lookup(c.x, nm.v, st) is not None:
                    return TRUE
                if not ip.hasextbase(c.x):
                    return FALSE
            if isinstance(o, Const) and isinstance(nm, Const) and isinstance(nm.v, str):
                return const(hasattr(o.v, nm.v))
            if isinstance(o, (Tup, StrV)) and isinstance(nm, Const) and isinstance(nm.v, str):
                return const(hasattr(() if isinstance(o, Tup) else '', nm.v))
            if c is not None and c.kind in ('list', 'dict') and not (c.kind == 'list' and c.x) and isinstance(nm, Const) and isinstance(nm.v, str):
                return const(hasattr([] if c.kind == 'list' else {}, nm.v))
            if c is not None and c.kind in ('list', 'arr') and isinstance(nm, Const) and nm.v in ('__getitem__', '__len__', '__iter__', '__array__', '__contains__', 'shape', 'size', 'dtype', 'ndim'):
                return TRUE
            return atom('hasattr', o, nm)
        return ap(one, a[0], a[1])

    @reg('print', 'warnings.warn', 'pykern.pkdebug.pkdlog', 'pykern.pkdebug.pkdp', 'pykern.pkdebug.pkdc', 'sys.stdout.write', 'logging.warning')
    def print_(ip, st, r, a, kw, n):
        if 'file' in kw:
            ip.event(st, 'print', 'print', [ip.snap(x, st) for x in a], {k: ip.snap(v, st) for k, v in kw.items()}, n)
        else:
            ip.event(st, 'print', 'print', [ip.snap(x, st) for x in a], {}, n)
        return NONE

    @reg('iter')
    def iter_(ip, st, r, a, kw, n):
        c = ip.cellof(a[0], st)
        if len(a) == 1 and (isinstance(a[0], (Tup, Const)) or c is not None and c.kind == 'list'):
            sg = ip.iterate(a[0], st, n)
            if len(sg) <= I.UNROLL and all(s[0] == 'i' for s in sg):
                return ip.new(st, I.Cell('iter', {'c': seq(sg)}))
        return a[0]

    @reg('vars')
    def vars_(ip, st, r, a, kw, n):
        if a:
            return ip.getattr_(a[0], '__dict__', st, n)
        return ip.top('vars')

    @reg('map')
    def map_(ip, st, r, a, kw, n):
        if len(a) == 2 and not isinstance(a[1], Ite):
            sg = ip.iterate(a[1], st, n)
            if all(s[0] == 'i' for s in sg):
                return ip.newlist(st, [ip.call(a[0], [s[1]], {}, st, n) for s in sg])
        return ip.opaque('map', a, kw, st)

    @reg('functools.partial')
    def partial_(ip, st, r, a, kw, n):
        if isinstance(a[0], Ite):
            return ip.top('partial')
        return app('partial', a[0], tup(a[1:]), tup([app('kwpair', const(k), v) for k, v in kw.items()]))

    @reg('any', 'all')
    def anyall(ip, st, r, a, kw, n):
        nm = n.func.id if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) else 'any'
        v = a[0]
        if not isinstance(v, Ite):
            sg = ip.iterate(v, st, n)
            if all(s[0] == 'i' for s in sg):
                res = FALSE if nm == 'any' else TRUE
                for s in sg:
                    t = truth(ip.truthval(s[1], st))
                    res = bor(res, t) if nm == 'any' else band(res, t)
                return res
        return atom(nm, ip.snap1(v, st))

    @reg('numpy.any', 'numpy.all')
    def npanyall(ip, st, r, a, kw, n):
        nm = n.func.attr if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) else 'any'
        v = a[0]
        if not isinstance(v, Ite) and ip.cellof(v, st) is not None and ip.cellof(v, st).kind == 'list':
            sg = ip.iterate(v, st, n)
            if all(s[0] == 'i' for s in sg):
                res = FALSE if nm == 'any' else TRUE
                for s in sg:
                    t = truth(ip.truthval(s[1], st))
                    res = bor(res, t) if nm == 'any' else band(res, t)
                return res
        return atom(nm, ip.snap1(v, st))

    @reg('future.utils.iteritems', 'six.iteritems')
    def iteritems(ip, st, r, a, kw, n):
        return ip.callmethod(a[0], 'items', [], {}, st, n)

    M['future.builtins.str'] = M['builtins.str'] = M['str']
    I.ALIAS['future.builtins.str'] = 'str'

    @reg('next')
    def next_(ip, st, r, a, kw, n):
        c = ip.cellof(a[0], st)
        if c is not None and c.kind == 'iter':
            q = c.f['c']
            if all(isinstance(l, I.Seq) for _, l in cases(q)):
                empty = FALSE
                for k, l in cases(q):
                    if not l.segs:
                        empty = bor(empty, k)
                st.heap[a[0].id] = I.Cell('iter', {'c': ap(lambda l: seq(l.segs[1:]), q)})
                if len(a) == 1 and empty is not FALSE:
                    ip.raise_(st, empty, 'StopIteration')
                return ap(lambda l: l.segs[0][1] if l.segs else a[1] if len(a) > 1 else BOT, q)
        return ip.opaque('next', a, kw, st)

    @reg('object')
    def object_(ip, st, r, a, kw, n):
        return ip.top('object')

    @reg('id', 'hash')
    def id_(ip, st, r, a, kw, n):
        return app('id', a[0]) if isinstance(a[0], Leaf) else ip.top('id')

    # physical constants
    M['scipy.constants.physical_constants'] = None
    del M['scipy.constants.physical_constants']

    # ---------------------------------------------------------- lists
    def conv(ip, st, r, f):
        c = st.heap[r.id]
        st.heap[r.id] = I.Cell('list', {'c': ap(f, c.f['c'])}, c.x)

    @reg('list.append')
    def append(ip, st, r, a, kw, n):
        v = a[0]
        c = st.heap[r.id]
        q = c.f['c']
        st.heap[r.id] = I.Cell('list', {'c': ap(lambda s: seq(s.segs + (('i', v),)) if isinstance(s, Seq) else s, q)}, c.x)
        return NONE

    @reg('list.extend')
    def extend(ip, st, r, a, kw, n):
        for c, l in cases(a[0]):
            cell = ip.cellof(l, st)
            if cell is not None and cell.kind == 'list':
                src = cell.f['c']
            else:
                sg = ip.iterate(l, st, n)
                src = seq([('i', s[1]) if s[0] == 'i' else ('rep', app('dom', s[2]), (('i', s[1]),)) for s in sg])
            old = st.heap[r.id].f['c']
            new = ap(lambda p, q: seq(p.segs + q.segs) if isinstance(p, Seq) and isinstance(q, Seq) else p, old, src)
            st.heap[r.id] = I.Cell('list', {'c': ite(c, new, old)}, st.heap[r.id].x)
        return NONE

    @reg('list.insert')
    def insert(ip, st, r, a, kw, n):
        def f(s):
            if isinstance(s, Seq) and isinstance(a[0], Const):
                i = a[0].v
                if 0 <= i <= len(s.segs) and all(x[0] == 'i' for x in s.segs[:i]):
                    return seq(s.segs[:i] + (('i', a[1]),) + s.segs[i:])
            return seq((('?', ip.top('list insert')),))
        conv(ip, st, r, f)
        return NONE

    @reg('list.pop')
    def pop(ip, st, r, a, kw, n):
        i = a[0] if a else const(-1)
        c = st.heap[r.id]
        def get(s):
            if isinstance(s, Seq) and isinstance(i, Const) and all(x[0] == 'i' for x in s.segs):
                if -len(s.segs) <= i.v < len(s.segs):
                    return s.segs[i.v][1]
                ip.raise_(st, TRUE, 'IndexError')
                return BOT
            if isinstance(s, Seq) and isinstance(i, Const) and i.v == -1 and s.segs and s.segs[-1][0] == 'i':
                return s.segs[-1][1]
            return app('popped', s if not isinstance(s, Seq) else seq(s.segs), i if isinstance(i, Leaf) else const('?'))
        def rem(s):
            if isinstance(s, Seq) and isinstance(i, Const) and all(x[0] == 'i' for x in s.segs) and -len(s.segs) <= i.v < len(s.segs):
                l = list(s.segs)
                del l[i.v]
                return seq(l)
            if isinstance(s, Seq) and isinstance(i, Const) and i.v == -1 and s.segs and s.segs[-1][0] == 'i':
                return seq(s.segs[:-1])
            return seq((('?', ip.top('list pop')),))
        v = ip.apr(get, st, c.f["c"])
        conv(ip, st, r, rem)
        return v

    @reg('list.remove')
    def remove(ip, st, r, a, kw, n):
        def rem(s):
            if isinstance(s, Seq) and all(x[0] == 'i' for x in s.segs):
                for j, x in enumerate(s.segs):
                    e = ip.eqleaf(x[1], a[0], st) if not isinstance(x[1], Ite) and not isinstance(a[0], Ite) else None
                    if e is TRUE:
                        return seq(s.segs[:j] + s.segs[j + 1:])
                    if e is not FALSE:
                        break
                else:
                    ip.raise_(st, TRUE, 'ValueError')
                    return BOT
            return seq((('?', ip.top('list remove')),))
        conv(ip, st, r, rem)
        return NONE

    @reg('list.index')
    def lindex(ip, st, r, a, kw, n):
        def get(s):
            if isinstance(s, Seq) and len(a) == 1:
                for j, x in enumerate(s.segs):
                    e = ip.eqleaf(x[1], a[0], st) if x[0] == 'i' and not isinstance(x[1], Ite) and not isinstance(a[0], Ite) else None
                    if e is TRUE:
                        return const(j)
                    if e is not FALSE:
                        break
                else:
                    ip.raise_(st, TRUE, 'ValueError')
                    return BOT
            return app('m:index', r, *[x if isinstance(x, Leaf) else const('?') for x in a])
        return ip.apr(get, st, st.heap[r.id].f['c'])

    @reg('list.clear')
    def lclear(ip, st, r, a, kw, n):
        conv(ip, st, r, lambda s: seq(()))
        return NONE

    @reg('list.reverse')
    def lreverse(ip, st, r, a, kw, n):
        conv(ip, st, r, lambda s: seq(tuple(reversed(s.segs))) if isinstance(s, Seq) and all(x[0] == 'i' for x in s.segs) else seq((('?', ip.top('reverse')),)))
        return NONE

    @reg('list.sort')
    def lsort(ip, st, r, a, kw, n):
        conv(ip, st, r, lambda s: seq((('?', ip.top('sort')),)))
        return NONE

    # ---------------------------------------------------------- dicts
    @reg('dict.keys')
    def dkeys(ip, st, r, a, kw, n):
        return app('dictkeys', r)

    @reg('dict.values')
    def dvalues(ip, st, r, a, kw, n):
        return app('dictvalues', r)

    @reg('dict.items')
    def ditems(ip, st, r, a, kw, n):
        return app('dictitems', r)

    @reg('dict.__getitem__')
    def dgetitem(ip, st, r, a, kw, n):
        return ip.getitem(r, a[0], st, n)

    @reg('dict.__setitem__')
    def dsetitem(ip, st, r, a, kw, n):
        ip.setitem(r, a[0], a[1], st, n)
        return NONE

    @reg('dict.__delitem__')
    def ddelitem(ip, st, r, a, kw, n):
        ip.delitem(r, a[0], st, n)
        return NONE

    @reg('dict.__contains__')
    def dcontains(ip, st, r, a, kw, n):
        return ap(lambda x: ip.contains(r, x, st, n), a[0])

    @reg('dict.__init__')
    def dinit(ip, st, r, a, kw, n):
        return M['dict.update'](ip, st, r, a, kw, n)

    @reg('dict.get')
    def dget(ip, st, r, a, kw, n):
        d = a[1] if len(a) > 1 else kw.get('default', NONE)
        return ap(lambda k: ip.dictget(r, st.heap[r.id], k, st, n, default=d), a[0])

    @reg('dict.setdefault')
    def dsetdefault(ip, st, r, a, kw, n):
        d = a[1] if len(a) > 1 else NONE
        has = ap(lambda x: ip.contains(r, x, st, n), a[0])
        has = truth(has)
        old = ap(lambda k: ip.dictget(r, st.heap[r.id], k, st, n, default=d), a[0])
        nh = bnot(has)
        if nh is not FALSE:
            for c1, kk in cases(a[0]):
                c = band(nh, c1)
                if c is not FALSE:
                    ip.setleaf(c, r, kk, d, st, n)
        return ite(has, old, d)

    @reg('dict.pop')
    def dpop(ip, st, r, a, kw, n):
        if len(a) > 1:
            v = dget(ip, st, r, a, kw, n)
        else:
            v = ip.getitem(r, a[0], st, n)
        if not isinstance(a[0], Ite):
            ip.delitem(r, a[0], st, n)
        return v

    @reg('dict.clear')
    def dclear(ip, st, r, a, kw, n):
        st.heap[r.id] = I.Cell('dict', {}, (), ())
        return NONE

    @reg('dict.update')
    def dupdate(ip, st, r, a, kw, n):
        for x in a:
            for c, l in cases(x):
                cell = ip.cellof(l, st)
                if cell is not None and cell.kind == 'obj' and '$dict' in cell.f:
                    l = cell.f['$dict']
                    cell = ip.cellof(l, st)
                if cell is not None and cell.kind == 'dict':
                    for k in cell.x:
                        v = cell.f.get(k, MISSING)
                        pres = ap(lambda q: const(q is not MISSING), v)
                        cc = band(c, pres)
                        if cc is not FALSE:
                            ip.setleaf(cc, r, k, ap(lambda q: BOT if q is MISSING else q, v), st, n)
                    for s in cell.y:
                        if s[0] != '$loop':
                            ip.setleaf(c, r, s[0], s[1], st, n)
                        else:
                            rc = st.heap[r.id]
                            st.heap[r.id] = I.Cell('dict', rc.f, rc.x, rc.y + (s,))
                else:
                    sg = ip.iterate(l, st, n)
                    ok = False
                    if all(s[0] == 'i' for s in sg):
                        prs = []
                        for s in sg:
                            pr = s[1]
                            if isinstance(pr, Tup) and len(pr.items) == 2:
                                prs.append(pr.items)
                            else:
                                e = ip.elems(ip.cellof(pr, st)) if isinstance(pr, Ref) else None
                                if e is not None and len(e) == 2:
                                    prs.append(e)
                                else:
                                    prs = None
                                    break
                        if prs is not None:
                            for k, v in prs:
                                for ck, kk in cases(k):
                                    ip.setleaf(band(c, ck), r, kk, v, st, n)
                            ok = True
                    if not ok:
                        rc = st.heap[r.id]
                        ip.notes.add('dict update from an unknown mapping')
                        st.heap[r.id] = I.Cell('dict', rc.f, rc.x, rc.y + ((app('keyof', l), app('valueof', l)),))
        for k, v in kw.items():
            if k == '**':
                rc = st.heap[r.id]
                for _, l in cases(v):
                    st.heap[r.id] = I.Cell('dict', rc.f, rc.x, rc.y + ((app('keyof', l), app('valueof', l)),))
            else:
                ip.setleaf(TRUE, r, const(k), v, st, n)
        return NONE

    # ---------------------------------------------------------- strings
    def strm(name):
        def m(ip, st, recv, args, kw, n):
            def one(l, *xs):
                if isinstance(l, Const) and all(isinstance(x, Const) for x in xs) and all(isinstance(x, Const) for x in kw.values()):
                    try:
                        v = getattr(l.v, name)(*[x.v for x in xs], **{k: x.v for k, x in kw.items()})
                    except Exception as e:
                        ip.raise_(st, TRUE, type(e).__name__ if isinstance(e, (AttributeError, TypeError, KeyError, IndexError, UnicodeError)) else 'ValueError')
                        return BOT
                    if isinstance(v, list):
                        return ip.newlist(st, [const(x) for x in v])
                    if isinstance(v, tuple):
                        return tup([const(x) for x in v])
                    return const(v)
                if name == 'encode' and any(isinstance(q, Sym) and 'text' in q.attrs for q in (l.parts if isinstance(l, StrV) else [l])):
                    return app('encoded', l)
                if isinstance(l, Const) and (isinstance(l.v, bytes) and name == 'encode' or isinstance(l.v, str) and name == 'decode'):
                    ip.raise_(st, TRUE, 'AttributeError', const(name))
                    return BOT
                if name == 'encode' or name == 'decode':
                    return l if not isinstance(l, Const) else (const(l.v) if isinstance(l.v, str) else app('strmeth', name, l))
                if name in ('lower', 'upper') and isinstance(l, App) and l.op == 'strmeth' and l.args[0] == name:
                    return l
                if name in ('lower', 'upper') and isinstance(l, App) and l.op == 'strmeth' and l.args[0] in ('lower', 'upper'):
                    return app('strmeth', name, l.args[1])
                if name in ('split', 'partition', 'rpartition', 'splitlines', 'rsplit'):
                    return app('strsplit', name, l, *[ip.snap1(x, st) for x in xs], *[app('kw', k, ip.snap1(v, st)) for k, v in sorted(kw.items())])
                return app('strmeth', name, l, *[ip.snap1(x, st) for x in xs])
            return ip.apr(one, st, recv, *args)
        return m
    def refn(name):
        def f(ip, st, r, a, kw, n):
            import re
            if all(isinstance(x, Const) for x in a) and all(isinstance(x, Const) for x in kw.values()):
                try:
                    v = getattr(re, name)(*[x.v for x in a], **{k: x.v for k, x in kw.items()})
                except re.error:
                    ip.raise_(st, TRUE, 'ValueError')
                    return BOT
                if isinstance(v, list):
                    return ip.newlist(st, [const(x) if not isinstance(x, tuple) else tup([const(y) for y in x]) for x in v])
                if v is None:
                    return NONE
                if isinstance(v, re.Match):
                    return app('rematch', const(v.string), const(v.re.pattern), *[const(x) for x in (v.start(), v.end())])
                return const(v)
            return app('call:re.' + name, *[ip.snap1(x, st) for x in a], *[app('kw', k, ip.snap1(v, st)) for k, v in sorted(kw.items())])
        return f
    for nm in ('sub', 'findall', 'split', 'escape', 'search', 'match', 'fullmatch'):
        M['re.' + nm] = lambda ip, st, r, a, kw, n, f=refn(nm): ip.apr(lambda *x: f(ip, st, r, list(x), kw, n), st, *a)

    for nm in ('lower', 'upper', 'strip', 'rstrip', 'lstrip', 'split', 'rsplit', 'partition', 'rpartition', 'splitlines', 'find',
               'rfind', 'startswith', 'endswith', 'replace', 'encode', 'decode', 'title', 'capitalize', 'swapcase', 'isdigit',
               'zfill', 'ljust', 'rjust', 'center', 'count', 'index', 'isalpha', 'casefold', 'removeprefix', 'removesuffix'):
        M['str.' + nm] = strm(nm)

    @reg('str.format')
    def sformat(ip, st, recv, args, kw, n):
        import string

        def one(l):
            if not (isinstance(l, Const) and isinstance(l.v, str)):
                return app('strmeth', 'format', l, *[ip.snap1(x, st) for x in args], *[app('kw', k, ip.snap1(v, st)) for k, v in sorted(kw.items()) ])
            out = []
            auto = 0
            try:
                for lit, field, spec, cv in string.Formatter().parse(l.v):
                    if lit:
                        out.append(const(lit))
                    if field is None:
                        continue
                    base = field.split('.')[0].split('[')[0]
                    if base == '':
                        v = args[auto]
                        auto += 1
                    elif base.isdigit():
                        v = args[int(base)]
                    elif base in kw:
                        v = kw[base]
                    else:
                        unk = kw.get('**')
                        if unk is None:
                            ip.raise_(st, TRUE, 'KeyError', const(base))
                            return BOT
                        v = app('kwget', unk, base)
                    if field != base:
                        rest = field[len(base):]
                        if rest.startswith('.'):
                            v = ip.getattr_(v, rest[1:].split('.')[0].split('[')[0], st, n)
                        else:
                            v = app('fmtfield', ip.snap1(v, st), rest)
                    v = ap(lambda q: ip.fmt(q if not isinstance(q, Ref) else ip.snap1(q, st), const(spec or ''), -1 if cv is None else ord(cv)), v)
                    out.append(v)
            except (IndexError, ValueError):
                ip.raise_(st, TRUE, 'IndexError')
                return BOT
            return ap(lambda *ps: strv(ps), *out) if out else const('')
        return ip.apr(one, st, recv)

    @reg('str.join')
    def sjoin(ip, st, recv, args, kw, n):
        def one(sep, l):
            sg = ip.iterate(l, st, n)
            if all(s[0] == 'i' for s in sg):
                parts = []
                for i, s in enumerate(sg):
                    if i:
                        parts.append(sep)
                    parts.append(s[1])
                return ap(lambda *ps: strv(ps), *parts) if parts else const('')
            return app('strmeth', 'join', sep, ip.snap1(l, st))
        return ap(one, recv, args[0])

    @reg('tuple.index', 'tuple.count')
    def tupm(ip, st, recv, args, kw, n):
        return ip.opaque('m:tuple', [recv] + list(args), kw, st)

    # physical_constants[...] : exact table
    pc = ip.newdict(ip.base, [(const(k), tup([const(x) for x in v])) for k, v in I.PHYS.items()])
    ip._phys = pc
    old = ip.itemleaf

    def itemleaf(o, k, st, n):
        if isinstance(o, Ext) and o.name == 'scipy.constants.physical_constants':
            if isinstance(k, Const) and k.v in I.PHYS:
                return tup([const(x) for x in I.PHYS[k.v]])
            return app('getitem', o, k)
        return old(o, k, st, n)
    ip.itemleaf = itemleaf

    @reg('scipy.constants.value')
    def cvalue(ip, st, r, a, kw, n):
        if isinstance(a[0], Const) and a[0].v in I.PHYS:
            return const(I.PHYS[a[0].v][0])
        return ip.opaque('call:scipy.constants.value', a, kw, st)
