"""Decide whether two value numbers denote the same function of the inputs.

First structurally (hash-consing already identifies polynomially equal terms); the
remaining algebraic spellings are decided by identity testing of the two *terms* at
pseudo-random points (Schwartz-Zippel; "random interpretation" of the extracted term).
Nothing of the analysed package is executed.
"""
import cmath
import math
import random
from .val import *
from . import val as V

TOL = 1e-6

FN = {
    'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'exp': math.exp, 'log': math.log, 'log10': math.log10,
    'log2': math.log2, 'sinh': math.sinh, 'cosh': math.cosh, 'tanh': math.tanh, 'arcsin': math.asin,
    'arccos': math.acos, 'arctan': math.atan, 'arccosh': math.acosh, 'arcsinh': math.asinh, 'arctanh': math.atanh,
    'floor': math.floor, 'ceil': math.ceil, 'rint': round, 'trunc': math.trunc, 'int': int, 'round': None, 'sqrt': math.sqrt,
    'sign': lambda x: (x > 0) - (x < 0), 'log1p': math.log1p, 'expm1': math.expm1, 'abs': abs,
}


def const_fn(op, v):
    f = FN.get(op)
    if f is None:
        return None
    try:
        return float(f(v)) if op not in ('floor', 'ceil', 'int', 'trunc') else f(v)
    except (ValueError, OverflowError):
        return None


class Undef(Exception):
    pass


class Shape(Undef):
    """the sampled arrays do not fit together: says nothing about the program"""


class Opaque(Exception):
    pass


VN = 5


class Vec(tuple):
    """value of an array-valued leaf: a generic vector"""
    __slots__ = ()


def lift(f, *a):
    """elementwise application; a row vector is broadcast over the rows of a matrix"""
    n = None
    mats = [x for x in a if isinstance(x, Vec) and x and isinstance(x[0], Vec)]
    for x in mats or a:
        if isinstance(x, Vec):
            # an axis of length one is repeated
            if n is not None and n != len(x) and 1 not in (n, len(x)):
                raise Shape()
            n = len(x) if n is None else max(n, len(x)) if 0 not in (n, len(x)) else 0
    if n is None:
        return f(*a)
    if mats:
        ismat = lambda x: isinstance(x, Vec) and x and isinstance(x[0], Vec)
        return Vec(lift(f, *[(x[i] if len(x) > 1 else x[0]) if ismat(x) else x for x in a]) for i in range(n))
    return Vec(f(*[(x[i] if len(x) > 1 else x[0]) if isinstance(x, Vec) else x for x in a]) for i in range(n))


def numeric(x):
    return isinstance(x, float) or (isinstance(x, Vec) and all(isinstance(y, float) or numeric(y) for y in x))


def fpow(b, e):
    try:
        if e.denominator == 1:
            return b ** int(e)
        if b < 0:
            if e.denominator % 2 == 1:
                return (-1 if e.numerator % 2 else 1) * (-b) ** float(e)
            raise Undef()
        return b ** float(e)
    except (ZeroDivisionError, OverflowError):
        raise Undef()


def isvec(l):
    """leaves that denote a whole array"""
    if isinstance(l, Sym):
        return 'vec' in l.attrs
    if isinstance(l, App) and l.op == 'elem':
        b = l.args[0]
        k = l.args[1:]
        while isinstance(b, App) and b.op == 'arr' and b.args:
            b = b.args[0]
        if isinstance(b, Sym) and 'mat' in b.attrs:
            full = [q for q in k if isinstance(q, SliceV)]
            return len(k) == 2 and len(full) == 1 or len(k) == 1 and not full
    return False


def arraylike(v, depth=0):
    """is the value one number per particle? (reductions and sizes of arrays are not)"""
    if isvec(v):
        return True
    if depth > 40:
        return False
    if isinstance(v, Num):
        return any(arraylike(a, depth + 1) for m, _ in v.terms for a, _e in m)
    if isinstance(v, Ite):
        return any(arraylike(y, depth + 1) for y in atom_of(v.idx)[1:] if isinstance(y, (Leaf, Ite))) or arraylike(v.hi, depth + 1) or arraylike(v.lo, depth + 1)
    if isinstance(v, App) and (v.op.startswith(('f:', 'op')) or v.op in ('powr', 'pow', 'astype')):
        return any(arraylike(y, depth + 1) for y in v.args)
    return False


def elementwise(v):
    """a choice made for every element of an array"""
    return isinstance(v, Ite) and (any(arraylike(y) for y in atom_of(v.idx)[1:] if isinstance(y, (Leaf, Ite))) or elementwise(v.hi) or elementwise(v.lo))


def mean(v):
    return sum(v) / len(v)


RED = {
    'r:mean': mean, 'r:sum': sum, 'r:max': max, 'r:min': min,
    'r:var': lambda v: mean([(x - mean(v)) ** 2 for x in v]),
    'r:std': lambda v: mean([(x - mean(v)) ** 2 for x in v]) ** .5,
    'r:median': lambda v: sorted(v)[len(v) // 2],
    'r:prod': math.prod,
}


ROWS = 6
LOOPS = {}                  # loop id -> summary, filled by the interpreter


def _div(x, y):
    return x / y


def _pow(x, y):
    r = x ** y
    if not isinstance(r, float):
        raise Undef()
    return r


BINOPS = {'opAdd': lambda x, y: x + y, 'opSub': lambda x, y: x - y, 'opMult': lambda x, y: x * y, 'opDiv': _div, 'opPow': _pow}
# 'opFloorDiv' and 'opMod' are evaluated below
KNOWN_OPS = set(BINOPS) | {'opFloorDiv', 'opMod', 'opMatMult'}


def index(b, ks):
    """b[k0, k1, ...] for integers and slices; None when the index has no concrete meaning"""
    if not ks:
        return b
    k = ks[0]
    if isinstance(k, tuple) and k[:1] == ('tup',) and len(ks) == 1:
        return index(b, list(k[1:]))
    if isinstance(k, float) and k == int(k):
        if not isinstance(b, tuple):
            return None
        if not -len(b) <= k < len(b):
            raise Undef() if len(b) == ROWS else Shape()
        return index(b[int(k)], ks[1:])
    if k is NONE or isinstance(k, Ext) and k.name == 'numpy.newaxis':
        r = index(b, ks[1:])
        return None if r is None else Vec([r])
    if isinstance(k, tuple) and k[:1] == ('slice',) and isinstance(b, Vec):
        q = [int(x) if isinstance(x, float) else None if isinstance(x, Const) and x.v is None else x for x in k[1:]]
        if all(x is None or isinstance(x, int) for x in q):
            out = [index(r, ks[1:]) for r in tuple(b)[slice(*q)]]
            return None if any(x is None for x in out) else Vec(out)
    return None


def store(b, ks, v):
    if not ks:
        if isinstance(b, Vec) and isinstance(v, float):
            return Vec(store(x, [], v) for x in b)
        if isinstance(b, Vec) != isinstance(v, Vec) or isinstance(b, Vec) and len(b) != len(v):
            return None
        return v
    k = ks[0]
    if isinstance(b, Vec) and isinstance(k, float) and k == int(k):
        if not -len(b) <= k < len(b):
            raise Undef() if len(b) == ROWS else Shape()
        i = int(k) % len(b)
        r = store(b[i], ks[1:], v)
        return None if r is None else Vec(b[:i] + (r,) + b[i + 1:])
    if isinstance(b, Vec) and isinstance(k, tuple) and k[:1] == ('slice',) and all(isinstance(x, Const) and x.v is None for x in k[1:]):
        vs = [v] * len(b) if not isinstance(v, Vec) or ks[1:] == [] and b and isinstance(b[0], Vec) and not isinstance(v[0], Vec) else v
        if len(vs) != len(b):
            return None
        out = [store(x, ks[1:], w) for x, w in zip(b, vs)]
        return None if any(x is None for x in out) else Vec(out)
    if isinstance(b, Vec) and isinstance(k, tuple) and k[:1] == ('part',) and all(isinstance(x, float) and x == int(x) for x in k[1:]):
        # stores of a loop over lo..hi-1: the value is given for every position
        lo, hi = int(k[1]), int(k[2])
        if hi <= lo:
            return b
        if lo < 0 or hi > len(b):
            raise Shape()
        vs = [v] * len(b) if not isinstance(v, Vec) or ks[1:] == [] and isinstance(b[0], Vec) and not isinstance(v[0], Vec) else v
        if len(vs) != len(b):
            return None
        out = [store(x, ks[1:], w) if lo <= i < hi else x for i, (x, w) in enumerate(zip(b, vs))]
        return None if any(x is None for x in out) else Vec(out)
    return None


def flatten(v):
    """(numbers, shape)"""
    if not isinstance(v, Vec):
        return [v], ()
    parts = [flatten(x) for x in v]
    return [y for p, _ in parts for y in p], (len(v),) + (parts[0][1] if parts else ())


def transpose(x):
    if not isinstance(x[0], Vec):
        return x
    return Vec(Vec(r[i] for r in x) for i in range(len(x[0])))


def matmul(x, y):
    if not (isinstance(x, Vec) and isinstance(y, Vec) and x and y and numeric(x) and numeric(y)):
        return None
    mx, my = isinstance(x[0], Vec), isinstance(y[0], Vec)
    dot = lambda p, q: sum(u * v for u, v in zip(p, q))
    if len(x[0] if mx else x) != len(y):
        raise Shape()
    if not mx and not my:
        return float(dot(x, y))
    if mx and not my:
        return Vec(float(dot(r, y)) for r in x)
    cols = transpose(y)
    if not mx:
        return Vec(float(dot(x, q)) for q in cols)
    return Vec(Vec(float(dot(r, q)) for q in cols) for r in x)


def determinant(m):
    m = [list(r) for r in m]
    d = 1.0
    for i in range(len(m)):
        p = max(range(i, len(m)), key=lambda r: abs(m[r][i]))
        if m[p][i] == 0:
            return 0.0
        if p != i:
            m[i], m[p] = m[p], m[i]
            d = -d
        d *= m[i][i]
        for r in range(i + 1, len(m)):
            f = m[r][i] / m[i][i]
            m[r] = [x - f * y for x, y in zip(m[r], m[i])]
    return d


def fresnel(x):
    """(S, C) by Simpson's rule on the defining integrals"""
    n = max(200, int(abs(x) ** 2 * 60))
    n += n % 2
    h = x / n
    S = C = 0.0
    for i in range(n + 1):
        w = 1 if i in (0, n) else 4 if i % 2 else 2
        u = math.pi / 2 * (i * h) ** 2
        S += w * math.sin(u)
        C += w * math.cos(u)
    return S * h / 3, C * h / 3


# library computations whose meaning is known, hence evaluated
KNOWN_CALLS = {'call:numpy.linalg.det', 'call:numpy.linalg.norm', 'call:numpy.cov', 'call:numpy.outer', 'call:numpy.cumsum', 'call:numpy.dot', 'call:numpy.matmul', 'call:scipy.special.fresnel', 'call:numpy.linspace', 'call:numpy.arange', 'call:numpy.arctan2'}


ARRANGED = {'call:numpy.sort': sorted, 'call:numpy.flip': lambda x: x[::-1], 'call:numpy.flipud': lambda x: x[::-1]}


def evaluable(v):
    """has the term a numeric value wherever its symbols have one?"""
    rnd = random.Random(5)
    for _ in range(6):
        try:
            if numeric(Point(rnd).ev(v)) and not opaque(v):
                return True
        except (Undef, Opaque, RecursionError):
            continue
    return False


def transform(v):
    return isinstance(v, App) and v.op in ('call:numpy.fft.fft', 'call:numpy.fft.rfft', 'call:scipy.fft.fft', 'call:scipy.fft.rfft', 'call:scipy.fftpack.fft') and bool(v.args)


def is_complex(v):
    """numbers that are complex: their absolute value is not +-v"""
    if isinstance(v, Ite):
        return is_complex(v.hi) or is_complex(v.lo)
    return any(a.op.startswith('call:') and ('.fft.' in a.op or a.op.endswith(('.hilbert', '.eig', '.eigvals'))) for a in apps(v))


class Point:
    def __init__(self, rnd, domain=None):
        self.rnd = rnd
        self.dom = domain or {}
        self.vals = {}
        self.un = {}
        self.memo = {}
        self.lits = {}
        self.extra = {}
        self.loops = {}
        self.wide = {}
        self.size = 1.0
        self.large = False

    def wider(self, l):
        """a value far from the usual ones, of the sign the symbol has"""
        d = self.dom.get(l.name)
        t = self.wide[l]
        r = 10.0 ** self.rnd.uniform(-3.5, 3.5)
        if t and abs(t) < 1e4 and (t > 0 or 'pos' not in l.attrs) and self.rnd.random() < .5:
            # around the number it is compared with
            return t * 10.0 ** self.rnd.uniform(-2, 2)
        if 'int' in l.attrs:
            return float(int(r) + 1)
        neg = not ('pos' in l.attrs or d is not None and d[0] >= 0)
        return -r if neg and self.rnd.random() < .5 else r

    def matrix(self, l):
        v = self.vals.get(l)
        if v is None:
            d = self.dom.get(l.name)
            v = Vec(Vec(self.size * self.rnd.uniform(*d) if d and not callable(d) else self.size * self.rnd.uniform(.2, 2.2) * (1 if self.rnd.random() < .6 else -1)
                        for _ in range(ROWS if 'square' in l.attrs else VN))
                    for _ in range(ROWS))
            self.vals[l] = v
        return v

    def child(self, extra):
        """the same point inside one iteration of a loop"""
        p = Point(self.rnd, self.dom)
        p.vals = self.vals if not extra else dict(self.vals)
        p.vals.update(extra)
        p.un, p.lits, p.size, p.large = self.un, self.lits, self.size, self.large
        p.extra = dict(self.extra, **{})
        p.extra.update(extra)
        return p

    def back(self, p):
        for k, x in p.vals.items():
            if k not in p.extra:
                self.vals.setdefault(k, x)

    def positions(self, dom):
        """[{loop variable: value}] per iteration; None when the domain has no concrete meaning"""
        if not isinstance(dom, App):
            comps = [dom]
        elif dom.op == 'nested':
            inner = self.positions(dom.args[0])
            a0 = dom.args[0]
            if inner is None:
                return None
            return [{V.app('loopvar', dom): p.get(V.app('loopvar', a0), float(i)), V.app('index', dom): float(i)} for i, p in enumerate(inner)]
        else:
            comps = list(dom.args) if dom.op == 'zip' else [dom.args[0]] if dom.op == 'enumerate' else [dom]
        if any(not isinstance(a, (Leaf, Ite)) or isinstance(a, Ref) for a in comps):
            return None
        cols, n = [], None
        for a in comps:
            v = self.ev(a)
            if isinstance(v, tuple) and v[:1] == ('tup',):
                v = v[1:]
            if not isinstance(v, (Vec, tuple)):
                return None
            isr = isinstance(a, App) and a.op == 'range'
            cols.append((a, [x if isr else float(i) for i, x in enumerate(v)]))
            n = len(v) if n is None else min(n, len(v))
        out = []
        for i in range(n):
            d = {}
            for a, c in cols:
                d[V.app('loopvar', a)] = c[i]
                d[V.app('index', a)] = float(i)
            out.append(d)
        return out

    def loop(self, lid, items=None):
        """run the recurrence a summarised loop stands for: values of the carried variables on entry to the last iteration;
        with items, the values of these expressions in every iteration"""
        key = ('loop', lid)
        if items is None and key in self.loops:
            return self.loops[key]
        info = LOOPS.get(lid)
        if info is None or info['dom'] is None:
            return None
        pos = self.positions(info['dom'])
        if pos is None:
            return None
        if not pos and items is None:
            raise Shape()
        car = [(o, sv, nw) for o, sv, nw in info.get('carried', {}).values() if nw is not None]
        out = []
        cur = {}
        for o, sv, nw in car:
            if isinstance(o, (Leaf, Ite)) and not isinstance(o, Special):
                try:
                    cur[sv] = self.ev(o)
                except Opaque:
                    pass
        last = None
        for i, d in enumerate(pos):
            e = dict(d)
            e.update(cur)
            p = self.child(e)
            if items is not None:
                out.append([p.ev(x) for x in items])
            if i < len(pos) - 1:
                cur = {sv: p.ev(nw) for o, sv, nw in car}
            self.back(p)
            last = d
        if items is not None:
            return out
        self.loops[key] = cur
        return cur

    def lastpos(self, l):
        pos = self.positions(l.args[0]) if isinstance(l.args[0], (Leaf, Ite)) else None
        if pos is None:
            return None
        if not pos:
            raise Shape()
        return pos[-1].get(l)

    def leaf(self, l):
        v = self.vals.get(l)
        if v is None and isvec(l):
            d = self.dom.get(l.name) if isinstance(l, Sym) else self.dom.get(l.args[0].name)
            v = Vec(self.size * self.rnd.uniform(*d) if d else self.size * self.rnd.uniform(.2, 2.2) * (1 if self.rnd.random() < .6 or (isinstance(l, Sym) and 'pos' in l.attrs) else -1)
                    for _ in range(VN))
            self.vals[l] = v
        if v is None:
            d = None
            if isinstance(l, Sym):
                d = self.dom.get(l.name)
            if callable(d):
                v = d(self.rnd)
            elif l in self.wide and self.rnd.random() < .75:
                v = self.wider(l)
            elif d is not None:
                v = self.rnd.uniform(*d)
            elif isinstance(l, Sym) and 'int' in l.attrs:
                v = self.rnd.randint(2, 9)
            elif isinstance(l, Sym) and 'pos' in l.attrs:
                v = self.rnd.uniform(0.3, 2.5)
            else:
                v = self.rnd.uniform(0.2, 2.2) * (1 if self.rnd.random() < .6 else -1)
            self.vals[l] = v
        return v

    def extent(self, v):
        """number of elements of a vector, also where its elements are not computed"""
        while isinstance(v, App) and (v.op.startswith('f:') or v.op in ('call:numpy.fft.fft', 'call:numpy.fft.ifft', 'call:numpy.fft.fftshift')) and v.args:
            v = v.args[0]
        x = self.ev(v)
        return len(x) if isinstance(x, Vec) and not (x and isinstance(x[0], Vec)) else None

    def uninterpreted(self, op, args, key):
        """functional consistency: equal (numeric) arguments give equal results"""
        tab = self.un.setdefault(op, [])
        for a, v in tab:
            if len(a) == len(args) and all(same(x, y) for x, y in zip(a, args)):
                return v
        v = self.rnd.uniform(0.2, 2.2) * (1 if self.rnd.random() < .6 else -1)
        tab.append((args, v))
        return v

    def ev(self, v):
        if isinstance(v, Ite):
            c = self.cond(v.idx)
            if isinstance(c, Vec):
                return lift(lambda q, x, y: x if q else y, c, self.ev(v.hi), self.ev(v.lo))
            return self.ev(v.hi if c else v.lo)
        r = self.memo.get(v)
        if r is None:
            r = self._ev(v)
            self.memo[v] = r
        return r

    def _ev(self, v):
        if isinstance(v, Const):
            if isinstance(v.v, (int, float)):
                return float(v.v)
            return v
        if isinstance(v, Num):
            t = 0.0
            mag = 0.0
            for m, c in v.terms:
                x = float(c)
                for a, e in m:
                    b = self.ev(a)
                    if not numeric(b):
                        b = self.uninterpreted('asnum', [b], None)
                    x = lift(lambda p, q: p * q, x, lift(lambda p: fpow(p, e), b))
                t = lift(lambda p, q: p + q, t, x)
            return t
        if isinstance(v, Sym):
            if 'str' in v.attrs or 'obj' in v.attrs:
                return v
            if 'mat' in v.attrs:
                return self.matrix(v)
            return self.leaf(v)
        if isinstance(v, App):
            if v in self.extra:
                return self.extra[v]
            if v.op == 'callv' and v in self.dom.get('$vec', ()):
                if v not in self.vals:
                    self.vals[v] = Vec(self.rnd.uniform(.2, 2.2) for _ in range(VN))
                return self.vals[v]
            r = self.structure(v)
            if r is not None:
                return r
            if v.op in RED and len(v.args) == 1:
                a = self.ev(v.args[0])
                if isinstance(a, App) and a.op in ('list', 'array'):
                    a = [self.ev(x) for x in a.args]
                    a = Vec(a) if all(isinstance(x, float) for x in a) else None
                if isinstance(a, Vec) and numeric(a):
                    return float(RED[v.op](a))
            if v.op == 'integral':
                return self.integral(*v.args)
            if v.op in ('call:numpy.argmax', 'call:numpy.argmin') and len(v.args) == 1:
                vec = self.spectrum(v.args[0])
                if vec:
                    big = max(vec) if v.op.endswith('max') else -min(vec)
                    return float(next(i for i, q in enumerate(vec) if (q if v.op.endswith('max') else -q) >= big - 1e-9 * abs(big)))
                m = self.extent(v.args[0])
                if m:
                    u = self.uninterpreted(v.op, [self.ev(v.args[0])], None)
                    return float(int(abs(u) * 1e6) % m)
            if (v.op in KNOWN_CALLS or v.op in ARRANGED) and not any(isinstance(q, App) and q.op == 'kw' for q in v.args):
                r = self.known(v)
                if r is not None:
                    return r
            if v.op == 'range' and len(v.args) == 3:
                a = [self.ev(q) for q in v.args]
                if all(isinstance(q, float) and q == int(q) for q in a) and a[2]:
                    return Vec(float(q) for q in range(*[int(q) for q in a]))
            if v.op == 'elem' and len(v.args) >= 2:
                b = self.ev(v.args[0])
                if isinstance(b, tuple) and b[:1] == ('tup',):
                    b = b[1:]
                if isinstance(b, Vec) and numeric(b) or type(b) is tuple:
                    r = index(b, [self.ev(k) for k in v.args[1:]])
                    if r is not None:
                        return r
            if v.op == 'attr' and isinstance(v.args[1], Const) and v.args[1].v in ('size', 'shape'):
                a = self.ev(v.args[0])
                if isinstance(a, Vec) and a and isinstance(a[0], Vec):
                    return float(len(a) * len(a[0])) if v.args[1].v == 'size' else ('tup', float(len(a)), float(len(a[0])))
                if isinstance(a, Vec):
                    return float(len(a)) if v.args[1].v == 'size' else ('tup', float(len(a)))
            if v.op == 'len':
                a = self.ev(v.args[0])
                if isinstance(a, Vec):
                    return float(len(a))
            if v.op == 'f:abs' and transform(v.args[0]):
                r = self.fourier(v.args[0])
                if r is not None:
                    return r
            if v.op.startswith('f:'):
                op = v.op[2:]
                args = [self.ev(a) if isinstance(a, (Leaf, Ite)) else a for a in v.args]
                if op in ('arctan2', 'copysign', 'hypot') and len(args) == 2 and all(numeric(a) for a in args):
                    return lift({'arctan2': math.atan2, 'copysign': math.copysign, 'hypot': math.hypot}[op], *args)
                if op == 'round':
                    try:
                        return float(round(args[0], int(args[1])) if len(args) > 1 else round(args[0]))
                    except TypeError:
                        pass
                f = FN.get(op)
                if f is not None and len(args) == 1 and numeric(args[0]):
                    try:
                        return lift(lambda x: float(f(x)), args[0])
                    except (ValueError, OverflowError):
                        raise Undef()
                return self.uninterpreted(v.op, args, v)
            if v.op == 'pow':
                a, b = self.ev(v.args[0]), self.ev(v.args[1])
                if numeric(a) and numeric(b):
                    try:
                        r = lift(lambda p, q: p ** q, a, b)
                    except (ZeroDivisionError, OverflowError):
                        raise Undef()
                    if not numeric(r):
                        raise Undef()
                    return r
            if v.op == 'opFloorDiv' or v.op == 'opMod':
                a, b = self.ev(v.args[0]), self.ev(v.args[1])
                if isinstance(a, float) and isinstance(b, float):
                    try:
                        return a // b if v.op == 'opFloorDiv' else a % b
                    except ZeroDivisionError:
                        raise Undef()
            if v.op == 'astype' and False:
                pass
            args = [self.ev(a) if isinstance(a, (Leaf, Ite)) else a for a in v.args]
            return self.uninterpreted(v.op, args, v)
        if isinstance(v, Tup):
            return ('tup',) + tuple(self.ev(x) for x in v.items)
        if isinstance(v, StrV):
            return ('str',) + tuple(self.ev(x) for x in v.parts)
        if isinstance(v, SliceV):
            return ('slice', self.ev(v.lo), self.ev(v.hi), self.ev(v.st))
        return v

    def structure(self, v):
        """arrays, loops and matrix operations with a concrete meaning at this point; None otherwise"""
        op, a = v.op, v.args
        if op == 'loopin' and a[0] in LOOPS:
            st = self.loop(a[0])
            return None if st is None else st.get(v)
        if op in ('loopvar', 'index') and len(a) == 1:
            return self.lastpos(v)
        if op == 'last':
            pos = self.positions(a[1])
            if pos is None:
                return None
            if not pos:
                raise Shape()
            return pos[-1].get(V.app(a[0], a[2]))
        if op == 'loopsum':
            pos = self.positions(a[1]) if isinstance(a[1], (Leaf, Ite)) and a[1] is not NONE else None
            if pos is None:
                return None
            t = 0.0
            for d in pos:
                p = self.child(d)
                x = p.ev(a[2])
                self.back(p)
                if not numeric(x):
                    return None
                t = lift(lambda q, r: q + r, t, x)
            return t
        if op in ('array', 'list') and a:
            out = []
            for x in a:
                if isinstance(x, App) and x.op == 'rep':
                    r = self.loop(x.args[0], x.args[1:]) if x.args[0] in LOOPS else None
                    if r is None:
                        return None
                    out += [y for row in r for y in row]
                elif isinstance(x, App) and x.op == 'seg?':
                    return None
                else:
                    out.append(self.ev(x))
            if len(out) == 1 and op == 'array' and len(a) == 1 and isinstance(out[0], Vec):
                return out[0]
            return Vec(out) if all(numeric(x) for x in out) else None
        if op == 'loopslice' and len(a) == 2:
            return ('part', self.ev(a[0]), self.ev(a[1]))
        if op == 'filled' and len(a) > 1:
            base = self.ev(a[0])
            for n in reversed(a[1:]):
                k = self.ev(n)
                if not (isinstance(k, float) and k == int(k) and 0 <= k < 100):
                    return None
                base = Vec([base] * int(k))
            return base
        if op == 'arr' and a:
            base = self.ev(a[0])
            if isinstance(base, float) and len(a) > 1:
                ks = [q.args[0].items for q in a[1:] if q.op == 'store' and isinstance(q.args[0], Tup)]
                if any(not all(isinstance(x, Const) and isinstance(x.v, int) for x in k) for k in ks) or len({len(k) for k in ks}) != 1:
                    return None
                shp = [max(k[i].v for k in ks) + 1 for i in range(len(ks[0]))]
                if len(set(ks)) != math.prod(shp):
                    return None
                for n in reversed(shp):
                    base = Vec([base] * n)
            if not isinstance(base, Vec) or not numeric(base):
                return None
            for q in a[1:]:
                if q.op != 'store' or not isinstance(q.args[0], Tup):
                    return None
                base = store(base, [self.ev(k) for k in q.args[0].items], self.ev(q.args[1]))
                if base is None:
                    return None
            return base
        if op in BINOPS and len(a) == 2:
            x, y = self.ev(a[0]), self.ev(a[1])
            if numeric(x) and numeric(y):
                try:
                    return lift(BINOPS[op], x, y)
                except (ZeroDivisionError, OverflowError):
                    raise Undef()
            return None
        if op == 'opMatMult' and len(a) == 2 or op in ('call:numpy.dot', 'call:numpy.matmul') and len(a) == 2:
            return matmul(self.ev(a[0]), self.ev(a[1]))
        if op == 'm:dot' and len(a) == 2:
            return matmul(self.ev(a[0]), self.ev(a[1]))
        if op in ('m:transpose', 'call:numpy.transpose', 'T') and len(a) == 1 or op == 'attr' and isinstance(a[1], Const) and a[1].v == 'T':
            x = self.ev(a[0])
            if isinstance(x, Vec) and numeric(x):
                return transpose(x)
            return None
        if op in ('m:reshape', 'm:ravel', 'm:flatten') and a and not any(isinstance(q, App) and q.op == 'kw' for q in a):
            x = self.ev(a[0])
            if not (isinstance(x, Vec) and numeric(x)):
                return None
            flat, _ = flatten(x)
            ks = [self.ev(q) for q in a[1:]]
            if len(ks) == 1 and isinstance(ks[0], tuple) and ks[0][:1] == ('tup',):
                ks = list(ks[0][1:])
            if op != 'm:reshape':
                return Vec(flat) if not ks else None
            if not ks or len(ks) > 2 or not all(isinstance(k, float) and k == int(k) for k in ks):
                return None
            ks = [int(k) for k in ks]
            if ks.count(-1) == 1:
                r = -1
                for k in ks:
                    r *= k
                if r < 1 or len(flat) % r:
                    raise Shape()
                ks[ks.index(-1)] = len(flat) // r
            if len(ks) == 1:
                ks = ks + [0]
            if ks[0] * (ks[1] or 1) != len(flat):
                raise Shape()
            return Vec(flat) if not ks[1] else Vec(Vec(flat[i * ks[1]:(i + 1) * ks[1]]) for i in range(ks[0]))
        if op == 'call:numpy.linalg.det' and len(a) == 1:
            x = self.ev(a[0])
            if not (isinstance(x, Vec) and numeric(x) and x and isinstance(x[0], Vec)):
                return None
            if any(len(r) != len(x) for r in x):
                raise Shape()
            return float(determinant([list(r) for r in x]))
        if op == 'call:numpy.linalg.norm' and len(a) == 1:
            x = self.ev(a[0])
            return math.sqrt(sum(q * q for q in flatten(x)[0])) if isinstance(x, Vec) and numeric(x) else None
        if op == 'call:numpy.outer' and len(a) == 2:
            x, y = self.ev(a[0]), self.ev(a[1])
            if all(isinstance(q, Vec) and numeric(q) and not isinstance(q[0], Vec) for q in (x, y)):
                return Vec(Vec(p * q for q in y) for p in x)
            return None
        if op in RED or op in ('call:numpy.cov', 'call:numpy.cumsum', 'm:cumsum', 'r:cumsum', 'call:numpy.var', 'call:numpy.std'):
            kw = {q.args[0] if isinstance(q.args[0], str) else q.args[0].v: q.args[1] for q in a if isinstance(q, App) and q.op == 'kw'}
            pos = [q for q in a if not (isinstance(q, App) and q.op == 'kw')]
            x = self.ev(pos[0])
            if not (isinstance(x, Vec) and numeric(x)):
                return None
            if op == 'call:numpy.cov':
                if len(pos) != 1 or not isinstance(x[0], Vec) or set(kw) - {'bias', 'ddof'}:
                    return None
                b, d = kw.get('bias'), kw.get('ddof')
                dd = d.v if isinstance(d, Const) and d.v is not None else 0 if isinstance(b, Const) and b.v else 1
                m = [mean(r) for r in x]
                return Vec(Vec(sum((p - m[i]) * (q - m[j]) for p, q in zip(x[i], x[j])) / (len(x[i]) - dd) for j in range(len(x))) for i in range(len(x)))
            ax = kw.get('axis', pos[1] if len(pos) > 1 else None)
            if 'cumsum' in op:
                if isinstance(x[0], Vec) or ax is not None and ax is not const(0):
                    return None
                out, t = [], 0.0
                for y in x:
                    t += y
                    out.append(t)
                return Vec(out)
            if set(kw) - {'axis', 'ddof', 'keepdims'} or kw.get('keepdims', const(False)) not in (const(False), const(True)):
                return None
            keep = (lambda q: Vec([q])) if kw.get('keepdims') is const(True) else (lambda q: q)
            if keep(0.) != 0. and (ax is None or not isinstance(x[0], Vec)):
                return None
            dd = kw.get('ddof', const(0))
            if not isinstance(dd, Const):
                return None
            f = RED.get('r:' + op.split('.')[-1].split(':')[-1])
            if f is None:
                return None
            if dd.v:
                if op.split(':')[-1] not in ('var', 'std'):
                    return None
                g = f
                pw = 1 if op.endswith('var') else .5
                f = lambda r: g(r) * (len(r) / (len(r) - dd.v)) ** pw
            if isinstance(x[0], Vec):
                if ax is None or ax is const(None):
                    return float(f([q for r in x for q in r]))
                if ax is const(1) or ax is const(-1):
                    return Vec(keep(float(f(r))) for r in x)
                if ax is const(0):
                    q = Vec(float(f(r)) for r in transpose(x))
                    return keep(q)
                return None
            return float(f(x))
        return None

    def known(self, v):
        a = [self.ev(q) for q in v.args]
        if v.op == 'call:scipy.special.fresnel' and len(a) == 1 and isinstance(a[0], float):
            return ('tup',) + fresnel(a[0])
        if v.op == 'call:numpy.linspace' and len(a) == 3 and all(isinstance(q, float) for q in a):
            n = int(a[2])
            return Vec(a[0] + (a[1] - a[0]) * i / (n - 1) if n > 1 else a[0] for i in range(n))
        if v.op in ARRANGED and len(a) == 1 and isinstance(a[0], Vec) and numeric(a[0]) and a[0] and not isinstance(a[0][0], Vec):
            return Vec(ARRANGED[v.op](list(a[0])))
        if v.op == 'call:numpy.arange' and 1 <= len(a) <= 3 and all(isinstance(q, float) for q in a):
            lo, hi, d = (0.0, a[0], 1.0) if len(a) == 1 else (a[0], a[1], 1.0) if len(a) == 2 else a
            if d == 0:
                raise Undef()
            return Vec(lo + i * d for i in range(max(0, math.ceil((hi - lo) / d - 1e-9))))
        return None

    def spectrum(self, v):
        """numbers of an array made of the absolute values of a Fourier transform"""
        ffts = [a for a in apps(v) if a.op == 'f:abs' and transform(a.args[0])]
        if not ffts:
            return None
        try:
            x = self.ev(v)
        except Shape:
            return None
        return list(x) if isinstance(x, Vec) and x and numeric(x) and not isinstance(x[0], Vec) else None

    def fourier(self, v):
        x = self.ev(v.args[0])
        if not (isinstance(x, Vec) and x and numeric(x) and not isinstance(x[0], Vec)):
            return None
        x = list(x)
        for k in v.args[1:]:
            if not isinstance(k, App) or k.op == 'kw' and k.args[0] in ('n', const('n')):
                m = self.ev(k.args[1] if isinstance(k, App) else k)
            elif k.op != 'kw':
                m = self.ev(k)
            else:
                return None
            if m is NONE:
                continue
            if not isinstance(m, float) or m < 1:
                return None
            x = (x + [0.0] * int(m))[:int(m)]
        n = len(x)
        rows = range(n // 2 + 1) if v.op.endswith('.rfft') else range(n)
        return Vec(abs(sum(q * cmath.exp(-2j * math.pi * i * j / n) for j, q in enumerate(x))) for i in rows)

    def integral(self, var, body, lo, hi, m=160):
        lo, hi = self.ev(lo), self.ev(hi)
        if not (isinstance(lo, float) and isinstance(hi, float)):
            raise Shape()
        h = (hi - lo) / m
        t = 0.0
        for i in range(m + 1):
            p = Point(self.rnd, self.dom)
            p.vals = dict(self.vals)
            p.un, p.lits = self.un, self.lits
            # nudge off the ends: a piecewise integrand may differ on a null set
            p.vals[var] = lo + i * h + (1e-9 * h if i == 0 else -1e-9 * h if i == m else 0)
            y = p.ev(body)
            for k, x in p.vals.items():
                if k is not var:
                    self.vals.setdefault(k, x)
            if not isinstance(y, float):
                raise Shape()
            t += y * (1 if i in (0, m) else 4 if i % 2 else 2)
        return t * h / 3

    def cond(self, idx):
        a = V.atom_of(idx)
        if self.large and a[0] in ('lt', 'gt') and (k := many(a[1])):
            # a number of elements compared with more than a sample holds
            return (a[0] == 'gt') == (k > 0)
        if a[0] in ('lt', 'gt', 'eq'):
            x = self.ev(a[1])
            if not numeric(x):
                x = self.uninterpreted('asnum', [x], None)
            return lift({'lt': lambda x: x < 0, 'gt': lambda x: x > 0, 'eq': lambda x: abs(x) < 1e-12}[a[0]], x)
        if a[0] == 'nonempty' and isinstance(a[1], (Leaf, Ite)):
            pos = self.positions(a[1])
            if pos is not None:
                return bool(pos)
        if idx in self.lits:
            return self.lits[idx]
        args = [self.ev(p) if isinstance(p, (Leaf, Ite)) else p for p in a[1:]]
        return self.uninterpreted('cond:' + a[0], args, None) > 0


def same(x, y):
    if isinstance(x, float) and isinstance(y, float):
        return x == y or abs(x - y) <= TOL * max(abs(x), abs(y)) + 1e-300
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(same(a, b) for a, b in zip(x, y))
    if isinstance(x, float) or isinstance(y, float):
        # constants kept symbolic (strings, None) never equal numbers
        return False
    return x is y or (not isinstance(x, (Leaf, Ite)) and x == y)


def equal(a, b, domain=None, lits=None, n=12, seed=1, scale=None, sizes=False):
    """True / False / None (cannot evaluate).  Leaves only."""
    if a is b:
        return True
    rnd = random.Random(seed)
    eqs = {}
    if lits:
        for i, pol in lits.items():
            at = V.atom_of(i)
            if at[0] == 'eq' and pol:
                eqs[i] = at[1]
    good = 0
    tries = 0
    dis = bad = 0
    wide = {}
    arrays = False
    while good < n and tries < (700 if wide else 550 if arrays else 400):
        tries += 1
        if tries == 400 and not good and lits:
            wide = scalars(lits, domain)
            arrays = sized(lits)
        p = Point(rnd, domain)
        p.lits = lits or {}
        if tries >= 400 and arrays and rnd.random() < .7 or sizes and tries > n // 2 and rnd.random() < .5:
            p.size = 10.0 ** rnd.uniform(-14, 5)
        p.large = (tries >= 400 or sizes) and rnd.random() < .5
        p.wide = wide
        # substitute zeros of linear equalities
        ok = True
        for i, d in eqs.items():
            if not solve_zero(p, d):
                ok = False
        if not ok:
            continue
        try:
            if lits:
                if any(p.cond(i) != pol for i, pol in lits.items()):
                    continue
            y = p.ev(b)
        except (Undef, RecursionError):
            continue
        try:
            x = p.ev(a)
        except Shape:
            continue
        except Undef:
            bad += 1
            continue
        except RecursionError:
            continue
        if isinstance(x, Vec) != isinstance(y, Vec) and numeric(x) and numeric(y):
            x, y = [q if isinstance(q, Vec) else lift(lambda u: q, y if isinstance(y, Vec) else x) for q in (x, y)]
        if isinstance(x, Vec) and isinstance(y, Vec) and numeric(x) and numeric(y):
            m = magnitude(p, a) + magnitude(p, b)
            m = max(flatten(m)[0] or [0.0])
            (fx, sx), (fy, sy) = flatten(x), flatten(y)
            if sx != sy:
                return False
            for q, r in zip(fx, fy):
                if abs(q - r) > TOL * max(abs(q), abs(r)) + 1e-11 * m + 1e-300:
                    return False
            good += 1
            continue
        if isinstance(x, float) and isinstance(y, float):
            s = max(abs(x), abs(y))
            m = magnitude(p, a) + magnitude(p, b)
            if math.isnan(x) or math.isnan(y) or math.isinf(s):
                continue
            if abs(x - y) > TOL * s + 1e-11 * m + 1e-300:
                dis += 1
                if dis >= 1:
                    return False
            good += 1
        else:
            if not same(x, y):
                return False
            good += 1
    if good:
        return True
    if bad >= 20:
        return False            # required to be defined, undefined (division by zero, domain error, index) wherever it was sampled
    return None


def scalars(lits, domain):
    """the numbers the comparisons of a path are about"""
    out, seen = {}, set()

    def go(x):
        if not isinstance(x, (Leaf, Ite)) or x in seen:
            return
        seen.add(x)
        if isinstance(x, Sym):
            if 'num' in x.attrs and 'unit' not in x.attrs and not isvec(x) and 'mat' not in x.attrs and not callable((domain or {}).get(x.name)):
                out.setdefault(x, None)
        elif isinstance(x, Num):
            for m, _ in x.terms:
                for q, _e in m:
                    go(q)
        elif isinstance(x, App) and x.op.startswith('f:'):
            for q in x.args:
                go(q)
    for i in lits:
        a = V.atom_of(i)
        if a[0] in ('lt', 'gt'):
            go(a[1])
            t = a[1].terms if isinstance(a[1], Num) else ()
            one = [(m[0], float(cf)) for m, cf in t if len(m) == 1 and isinstance(m[0][0], Sym)]
            rest = [float(cf) for m, cf in t if not m]
            if len(one) == 1 and len(rest) == 1 and len(t) == 2 and one[0][0][0] in out:
                (x, e), cf = one[0]
                k = -rest[0] / cf
                if e > 0 and (k > 0 or e == 1):
                    out[x] = k ** (1 / float(e)) if e != 1 else k
    return out


def magnitude(p, v):
    if isinstance(v, Num):
        t = 0.0
        for m, c in v.terms:
            x = abs(float(c))
            for a, e in m:
                b = p.ev(a)
                if isinstance(b, Vec) and numeric(b):
                    b = max([abs(q) for q in flatten(b)[0]] or [0.0])
                if isinstance(b, float):
                    try:
                        x *= abs(b) ** float(e)
                    except (ZeroDivisionError, OverflowError):
                        return 0.0
            t += x
        return t
    return 0.0


def solve_zero(p, d):
    """choose one symbol so that d == 0 at this point"""
    if isinstance(d, (Sym, App)):
        p.vals[d] = 0.0
        p.memo[d] = 0.0
        return True
    if isinstance(d, Num):
        # a symbol occurring linearly in exactly one monomial with exponent 1 and nowhere else
        occ = {}
        for m, c in d.terms:
            for a, e in m:
                occ.setdefault(a, []).append((m, e))
        for a, l in sorted(occ.items(), key=lambda t: t[0].n):
            if isinstance(a, (Sym, App)) and len(l) == 1 and l[0][1] == 1:
                rest = 0.0
                coef = 0.0
                try:
                    for m, c in d.terms:
                        x = float(c)
                        has = False
                        for b, e in m:
                            if b is a:
                                has = True
                                continue
                            bv = p.ev(b)
                            if not isinstance(bv, float):
                                return False
                            x *= bv ** float(e)
                        if has:
                            coef += x
                        else:
                            rest += x
                except (Undef, ZeroDivisionError):
                    return False
                if coef == 0:
                    continue
                p.vals[a] = -rest / coef
                p.memo[a] = -rest / coef
                return True
        if len(d.terms) == 1:
            for a, e in d.terms[0][0]:
                if isinstance(a, (Sym, App)):
                    p.vals[a] = 0.0
                    p.memo[a] = 0.0
                    return True
    return False


def agree(a, b, domain=None, care=TRUE, n=10, seed=1, limit=3000):
    """compare two gated values case by case.
    -> (verdict, counterexample literals, got leaf, want leaf); verdict True/False/None"""
    res = True
    k = 0
    if veccond(a) or veccond(b):
        r = equal(ite(care, a, const(0)), ite(care, b, const(0)), domain, None, n=4 * n, seed=seed, sizes=True)
        if r is False and (opaque(a) or opaque(b)):
            r = None
        return r, {}, a, b
    for lits, (c, x, y) in V.paths(care, a, b):
        if c is not TRUE:
            continue
        k += 1
        if k > limit:
            return None, lits, x, y
        if x is y:
            continue
        if x is BOT or y is BOT:
            if not sampleable(lits, domain):
                continue
            return False, lits, x, y
        r = equal(x, y, domain, lits, n=n, seed=seed)
        if r is True and gated(x):
            r = equal(x, y, domain, lits, n=4 * n, seed=seed + 1, sizes=True)
        if r is False:
            if opaque(x) or opaque(y):
                res = None
                continue
            return False, lits, x, y
        if r is None:
            if sampleable(lits, domain):
                res = None
    return res, None, None, None


def sampleable(lits, domain, tries=300):
    rnd = random.Random(7)
    wide = scalars(lits, domain)
    arrays = sized(lits)
    for k in range(2 * tries if wide or arrays else tries):
        p = Point(rnd, domain)
        p.lits = lits
        if k >= tries and arrays and rnd.random() < .7:
            p.size = 10.0 ** rnd.uniform(-14, 5)
        p.large = k >= tries and rnd.random() < .5
        p.wide = wide if k > tries else {}
        try:
            for i, pol in lits.items():
                at = V.atom_of(i)
                if at[0] == 'eq' and pol:
                    solve_zero(p, at[1])
            if all(p.cond(i) == pol for i, pol in lits.items()):
                return True
        except (Undef, RecursionError):
            continue
    return False


def many(d):
    """1 / -1 where d is k*(extent of an array) - K with K beyond the extent of a sample, 0 elsewhere"""
    if not isinstance(d, Num) or len(d.terms) != 2:
        return 0
    t = [(m, float(c)) for m, c in d.terms]
    one = [(m[0][0], c) for m, c in t if len(m) == 1 and m[0][1] == 1]
    rest = [c for m, c in t if not m]
    if len(one) != 1 or len(rest) != 1 or not extent_of(one[0][0]) or -rest[0] / one[0][1] < 20:
        return 0
    return 1 if one[0][1] > 0 else -1


def extent_of(x):
    if not isinstance(x, App):
        return False
    if x.op == 'elem':
        return isinstance(x.args[0], App) and x.args[0].op == 'attr' and 'shape' in map(plain, x.args[0].args[1:])
    return x.op == 'len' or x.op == 'attr' and 'size' in map(plain, x.args[1:])


def plain(q):
    return q.v if isinstance(q, Const) else q


def gated(v):
    """does a value contain choices made by the size of array elements?"""
    seen = set()

    def go(x):
        if not isinstance(x, (Leaf, Ite)) or x in seen:
            return False
        seen.add(x)
        if isinstance(x, Ite):
            return sized((x.idx,)) or V.atom_of(x.idx)[0] in ('lt', 'gt') and many(V.atom_of(x.idx)[1]) != 0 or go(x.hi) or go(x.lo)
        if isinstance(x, Num):
            return any(go(q) for m, _ in x.terms for q, _e in m)
        return any(go(q) for q in (x.args if isinstance(x, App) else x.items if isinstance(x, Tup) else ()))
    return go(v)


def sized(lits):
    """do the comparisons of a path look at the size of array elements?"""
    seen = set()

    def go(x):
        if isinstance(x, Ite):
            return go(x.hi) or go(x.lo)
        if not isinstance(x, Leaf) or x in seen:
            return False
        seen.add(x)
        if isinstance(x, Sym):
            return isvec(x) or 'mat' in x.attrs or 'six' in x.attrs or 'cols6' in x.attrs
        if isinstance(x, Num):
            return any(go(q) for m, _ in x.terms for q, _e in m)
        return isinstance(x, App) and any(go(q) for q in x.args if isinstance(q, (Leaf, Ite)))
    return any(go(a[1]) or many(a[1]) for a in map(V.atom_of, lits) if a[0] in ('lt', 'gt'))


def opaque(v):
    """does the term contain anything the analysis could not model?"""
    seen = set()

    def go(x):
        if isinstance(x, Ite):
            if x in seen:
                return False
            seen.add(x)
            a = V.atom_of(x.idx)
            return a[0] == 'join' or any(go(q) for q in a[1:]) or go(x.hi) or go(x.lo)
        if not isinstance(x, Leaf):
            return isinstance(x, tuple) and any(go(q) for q in x)
        if x in seen:
            return False
        seen.add(x)
        if isinstance(x, (Top, Special)):
            return True
        if isinstance(x, App):
            return x.op in ('callv', 'unknown') or any(go(q) for q in x.args)
        if isinstance(x, Num):
            return any(go(q) for m, c in x.terms for q, e in m)
        if isinstance(x, Tup):
            return any(go(q) for q in x.items)
        if isinstance(x, StrV):
            return any(go(q) for q in x.parts)
        return False
    return go(v)


def apps(v):
    """all applications inside a term"""
    out, seen = [], set()

    def go(x):
        if not isinstance(x, (Leaf, Ite)) or x in seen:
            return
        seen.add(x)
        if isinstance(x, Ite):
            for q in V.atom_of(x.idx)[1:]:
                go(q)
            go(x.hi)
            go(x.lo)
        elif isinstance(x, App):
            out.append(x)
            for q in x.args:
                go(q)
        elif isinstance(x, Num):
            for m, _ in x.terms:
                for q, _e in m:
                    go(q)
        elif isinstance(x, Tup):
            for q in x.items:
                go(q)
        elif isinstance(x, StrV):
            for q in x.parts:
                go(q)
    go(v)
    return out


def veccond(v):
    """is the value gated element by element?"""
    seen = set()

    def vec(x):
        if isinstance(x, Ite):
            return go(x)
        if isinstance(x, Leaf):
            if isvec(x) or isinstance(x, Sym) and 'mat' in x.attrs or isinstance(x, App) and x.op in ('call:numpy.linspace', 'call:numpy.arange', 'array', 'arr', 'loopin', 'loopsum'):
                return True
            if isinstance(x, Num):
                return any(vec(q) for m, c in x.terms for q, e in m)
            if isinstance(x, App) and x.op not in RED and x.op not in ('attr', 'len'):
                return any(vec(q) for q in x.args)
        return False

    def go(x):
        if not isinstance(x, Ite) or x in seen:
            return False
        seen.add(x)
        return any(vec(q) for q in V.atom_of(x.idx)[1:]) or go(x.hi) or go(x.lo)
    return go(v)
