"""Abstract values of the value-numbering analysis.

Leaves are hash-consed terms.  A value is a leaf or an `Ite` node: an ordered
decision diagram over condition atoms (gated joins) with leaves at the bottom.
Numeric leaves are kept as Laurent polynomials over atoms, so that algebraically
equal spellings get the same value number; what the normal form cannot identify
is decided by `identity.py`.
"""
import math
from fractions import Fraction

_tab = {}


class Leaf:
    __slots__ = ('key', 'n', '__weakref__')
    kind = 'leaf'

    def __repr__(self):
        return show(self)


def _mk(cls, *parts):
    k = (cls,) + parts
    o = _tab.get(k)
    if o is None:
        o = object.__new__(cls)
        o.key = parts
        o.n = len(_tab)
        _tab[k] = o
    return o


class Const(Leaf):
    __slots__ = ('v',)


class Num(Leaf):
    """sum of monomials: terms = tuple(((atom, exp), ...), coef)"""
    __slots__ = ('terms',)


class Sym(Leaf):
    """input symbol; attrs: frozenset of 'num','pos','notnone','str','arr', ..."""
    __slots__ = ('name', 'attrs')


class App(Leaf):
    __slots__ = ('op', 'args')


class StrV(Leaf):
    __slots__ = ('parts',)


class Tup(Leaf):
    __slots__ = ('items',)


class SliceV(Leaf):
    __slots__ = ('lo', 'hi', 'st')


class Ref(Leaf):
    __slots__ = ('id',)


class Func(Leaf):
    """fn: index in function table; env: frame id; bound: Value or None"""
    __slots__ = ('fn', 'env', 'bound', 'defcls')


class ClassV(Leaf):
    __slots__ = ('ci',)


class ModV(Leaf):
    __slots__ = ('name',)


class Ext(Leaf):
    __slots__ = ('name',)


class BoundM(Leaf):
    """method of a builtin container / string / unknown value"""
    __slots__ = ('recv', 'name')


class PropV(Leaf):
    __slots__ = ('fget', 'fset')


class Wrap(Leaf):
    """staticmethod / classmethod"""
    __slots__ = ('how', 'f')


class Seq(Leaf):
    """content of a list cell: tuple of segments ('i', v) | ('rep', loop, segs) | ('?', term)"""
    __slots__ = ('segs',)


class Special(Leaf):
    __slots__ = ('name',)


class Top(Leaf):
    __slots__ = ('why', 'id')


class Super(Leaf):
    __slots__ = ('ci', 'obj')


class Ite:
    __slots__ = ('idx', 'hi', 'lo', 'n')

    def __repr__(self):
        return show(self)


def const(v):
    k = (Const, type(v).__name__, repr(v) if isinstance(v, float) else v)
    o = _tab.get(k)
    if o is None:
        o = object.__new__(Const)
        o.key = k[1:]
        o.v = v
        o.n = len(_tab)
        _tab[k] = o
    return o


TRUE = const(True)
FALSE = const(False)
NONE = const(None)


def sym(name, *attrs):
    o = _mk(Sym, name, frozenset(attrs))
    o.name, o.attrs = name, frozenset(attrs)
    return o


def app(op, *args):
    o = _mk(App, op, tuple(args))
    o.op, o.args = op, tuple(args)
    return o


def strv(parts):
    out = []
    for p in parts:
        if isinstance(p, StrV):
            ps = p.parts
        else:
            ps = (p,)
        for q in ps:
            if isinstance(q, Const) and isinstance(q.v, str):
                if not q.v:
                    continue
                if out and isinstance(out[-1], Const) and isinstance(out[-1].v, str):
                    out[-1] = const(out[-1].v + q.v)
                    continue
            out.append(q)
    if not out:
        return const('')
    if len(out) == 1 and isinstance(out[0], Const) and isinstance(out[0].v, str):
        return out[0]
    o = _mk(StrV, *out)
    o.parts = tuple(out)
    return o


def tup(items):
    o = _mk(Tup, *items)
    o.items = tuple(items)
    return o


def slicev(lo, hi, st):
    o = _mk(SliceV, lo, hi, st)
    o.lo, o.hi, o.st = lo, hi, st
    return o


FULL = slicev(NONE, NONE, NONE)


def ref(i):
    o = _mk(Ref, i)
    o.id = i
    return o


def func(fn, env, bound=None, defcls=None):
    o = _mk(Func, fn, env, bound, defcls)
    o.fn, o.env, o.bound, o.defcls = fn, env, bound, defcls
    return o


def classv(ci):
    o = _mk(ClassV, ci)
    o.ci = ci
    return o


def modv(name):
    o = _mk(ModV, name)
    o.name = name
    return o


def ext(name):
    o = _mk(Ext, name)
    o.name = name
    return o


def boundm(recv, name):
    o = _mk(BoundM, recv, name)
    o.recv, o.name = recv, name
    return o


def propv(g, s):
    o = _mk(PropV, g, s)
    o.fget, o.fset = g, s
    return o


def wrap(how, f):
    o = _mk(Wrap, how, f)
    o.how, o.f = how, f
    return o


def seq(segs):
    o = _mk(Seq, *segs)
    o.segs = tuple(segs)
    return o


def special(name):
    o = _mk(Special, name)
    o.name = name
    return o


def superv(ci, obj):
    o = _mk(Super, ci, obj)
    o.ci, o.obj = ci, obj
    return o


BOT = special('bot')
MISSING = special('missing')
UNBOUND = special('unbound')

_topn = [0]


def top(why):
    _topn[0] += 1
    o = _mk(Top, why, _topn[0])
    o.why, o.id = why, _topn[0]
    return o


# ---------------------------------------------------------------- conditions
_atoms = []          # idx -> (kind, payload...)
_atomidx = {}


def atom(kind, *payload):
    k = (kind,) + payload
    i = _atomidx.get(k)
    if i is None:
        i = len(_atoms)
        _atoms.append(k)
        _atomidx[k] = i
    return _node(i, TRUE, FALSE)


def atom_of(idx):
    return _atoms[idx]


_nodes = {}


def _node(idx, hi, lo):
    if hi is lo:
        return hi
    if hi is BOT:
        return lo
    if lo is BOT:
        return hi
    k = (idx, id(hi), id(lo))
    o = _nodes.get(k)
    if o is None:
        o = object.__new__(Ite)
        o.idx, o.hi, o.lo = idx, hi, lo
        o.n = len(_nodes)
        _nodes[k] = o
    return o


_keep = []
_itec = {}


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a is BOT:
        return b
    if b is BOT:
        return a
    if not isinstance(c, Ite):
        c = truth_leaf(c)
        return ite(c, a, b)
    k = (id(c), id(a), id(b))
    r = _itec.get(k)
    if r is not None:
        return r
    if _most[0] is not None and len(_itec) > _most[0]:
        raise Overgrown('decision diagrams too large')
    i = c.idx
    if isinstance(a, Ite) and a.idx < i:
        i = a.idx
    if isinstance(b, Ite) and b.idx < i:
        i = b.idx
    r = _node(i, ite(cof(c, i, 1), cof(a, i, 1), cof(b, i, 1)),
              ite(cof(c, i, 0), cof(a, i, 0), cof(b, i, 0)))
    _itec[k] = r
    return r


class Overgrown(Exception):
    pass


_most = [None]


def growth(n=None):
    """from here on the decision diagrams may grow by n entries; None: as they like"""
    _most[0] = None if n is None else len(_itec) + n


def cof(v, i, pol):
    if isinstance(v, Ite) and v.idx == i:
        return v.hi if pol else v.lo
    return v


def bnot(c):
    return ite(c, FALSE, TRUE)


def band(a, b):
    return ite(a, b, FALSE)


def bor(a, b):
    return ite(a, TRUE, b)


class TooBig(Exception):
    pass


_budget = [0]


def ap(f, *vs):
    """apply a leaf function through the decision diagrams"""
    memo = {}

    def go(vs):
        k = tuple(map(id, vs))
        if k in memo:
            return memo[k]
        i = None
        for v in vs:
            if isinstance(v, Ite) and (i is None or v.idx < i):
                i = v.idx
        if i is None:
            if any(v is BOT for v in vs):
                r = BOT
            else:
                r = f(*vs)
        else:
            hi = go([cof(v, i, 1) for v in vs])
            lo = go([cof(v, i, 0) for v in vs])
            r = ite(_node(i, TRUE, FALSE), hi, lo)
        memo[k] = r
        if len(memo) > 4000:
            raise TooBig()
        return r
    try:
        return go(list(vs))
    except TooBig:
        return top('decision diagram too large')


def cases(v, cond=TRUE):
    """distinct leaves of v with the condition under which each is taken"""
    out = {}
    order = []

    def go(v, c):
        if c is FALSE:
            return
        if isinstance(v, Ite):
            n = _node(v.idx, TRUE, FALSE)
            go(v.hi, band(c, n))
            go(v.lo, band(c, bnot(n)))
        else:
            if v not in out:
                out[v] = FALSE
                order.append(v)
            out[v] = bor(out[v], c)
    go(v, cond)
    return [(out[l], l) for l in order]


def restrict(v, care):
    """simplify v assuming care holds"""
    if care is FALSE:
        return BOT
    memo = {}

    def go(v, c):
        if c is TRUE or not isinstance(v, Ite):
            return v
        if c is FALSE:
            return BOT
        k = (id(v), id(c))
        if k in memo:
            return memo[k]
        if c.idx < v.idx:
            r = go(v, bor(c.hi, c.lo))
        elif c.idx == v.idx:
            if c.hi is FALSE:
                r = go(v.lo, c.lo)
            elif c.lo is FALSE:
                r = go(v.hi, c.hi)
            else:
                r = _node(v.idx, go(v.hi, c.hi), go(v.lo, c.lo))
        else:
            r = _node(v.idx, go(v.hi, c), go(v.lo, c))
        memo[k] = r
        return r
    return go(v, care)


def paths(*vs):
    """all joint assignments: yields (literals {idx:bool}, leaves)"""
    def go(vs, lits):
        i = None
        for v in vs:
            if isinstance(v, Ite) and (i is None or v.idx < i):
                i = v.idx
        if i is None:
            yield lits, vs
            return
        for pol in (True, False):
            l2 = dict(lits)
            l2[i] = pol
            if feasible(l2):
                yield from go([cof(v, i, pol) for v in vs], l2)
    yield from go(list(vs), {})


def feasible(lits):
    """cheap theory check: sign trichotomy, one constant per symbol, isnone vs value"""
    signs = {}
    eqs = {}
    for i, pol in lits.items():
        a = _atoms[i]
        if a[0] in ('lt', 'gt', 'eq'):
            s = signs.setdefault(a[1], set('<>='))
            ch = {'lt': '<', 'gt': '>', 'eq': '='}[a[0]]
            if pol:
                s &= {ch}
            else:
                s -= {ch}
            if not s:
                return False
        elif a[0] == 'eqv':
            if pol:
                for x, y in ((a[1], a[2]), (a[2], a[1])):
                    if isinstance(y, Const):
                        if x in eqs and eqs[x] is not y:
                            return False
                        eqs[x] = y
    for i, pol in lits.items():
        a = _atoms[i]
        if a[0] == 'isnone' and pol:
            if a[1] in eqs:
                return False
            # a numeric comparison on the very same leaf is impossible when it is None
        if a[0] == 'truth' and a[1] in eqs:
            if bool(eqs[a[1]].v) != pol:
                return False
    # bounds: literals on d = t + c for the same t
    bounds = {}
    for d, s in signs.items():
        t, c, sc = split_const(d)
        if t is None:
            continue
        bounds.setdefault(t, []).append((c, s))
    for t, l in bounds.items():
        if len(l) < 2:
            continue
        pts = sorted({-c for c, _ in l})
        cand = []
        for k, p in enumerate(pts):
            cand.append(p)
            cand.append(p + 1 if k == len(pts) - 1 else (p + pts[k + 1]) / 2)
        cand.append(pts[0] - 1)
        ok = False
        for x in cand:
            if all((('<' if x + c < 0 else '>' if x + c > 0 else '=') in s) for c, s in l):
                ok = True
                break
        if not ok:
            return False
    return True


def split_const(d):
    """d (normalised Num or leaf) -> (t, c, _) with d = t + c"""
    if isinstance(d, Num):
        c = Fraction(0)
        rest = []
        for m, k in d.terms:
            if m == ():
                c = k
            else:
                rest.append((m, k))
        if not rest:
            return None, c, 1
        return _num(tuple(rest)), c, 1
    return d, Fraction(0), 1


# ---------------------------------------------------------------- numbers
MAXTERMS = 300


def _num(terms):
    o = _mk(Num, terms)
    o.terms = terms
    return o


def frac(v):
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, int):
        return Fraction(v)
    return Fraction(repr(float(v)))


def to_terms(l):
    if isinstance(l, Num):
        return dict(l.terms)
    if isinstance(l, Const):
        f = frac(l.v)
        return {(): f} if f else {}
    return {((l, Fraction(1)),): Fraction(1)}


def from_terms(d):
    d = {m: c for m, c in d.items() if c}
    if not d:
        return const(0)
    if len(d) == 1:
        (m, c), = d.items()
        if m == ():
            if c.denominator == 1:
                return const(int(c))
            return const(float(c))
        if c == 1 and len(m) == 1 and m[0][1] == 1 and not isinstance(m[0][0], Num):
            return m[0][0]
    if len(d) > MAXTERMS:
        return top('expression too large')
    items = tuple(sorted(d.items(), key=lambda t: tuple((a.n, e) for a, e in t[0])))
    return _num(items)


def isnumlike(l):
    if isinstance(l, Const):
        return isinstance(l.v, (int, float)) and not (isinstance(l.v, float) and (math.isinf(l.v) or math.isnan(l.v)))
    return isinstance(l, (Num, Sym, App, Top))


def nadd(a, b, sb=1):
    d = to_terms(a)
    for m, c in to_terms(b).items():
        d[m] = d.get(m, 0) + sb * c
    return from_terms(d)


def mmul(m1, m2):
    d = {}
    for a, e in m1:
        d[a] = d.get(a, 0) + e
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return d


def _expand_monomial(d, c):
    """d: atom->exp.  Re-expand polynomial bases with positive integer exponents."""
    res = {tuple(sorted(((a, e) for a, e in d.items() if e and not (isinstance(a, Num) and e.denominator == 1 and e > 0)),
                        key=lambda t: t[0].n)): c}
    for a, e in d.items():
        if isinstance(a, Num) and e.denominator == 1 and 0 < e <= 6:
            for _ in range(int(e)):
                new = {}
                for m, k in res.items():
                    for m2, k2 in a.terms:
                        dd = mmul(m, m2)
                        mm = tuple(sorted(((x, y) for x, y in dd.items() if y), key=lambda t: t[0].n))
                        new[mm] = new.get(mm, 0) + k * k2
                res = new
                if len(res) > MAXTERMS:
                    return res
    # products may again contain polynomial bases with positive integer exponent
    return res


def nmul(a, b):
    ta, tb = to_terms(a), to_terms(b)
    if len(ta) * len(tb) > 4 * MAXTERMS:
        return top('expression too large')
    out = {}
    for m1, c1 in ta.items():
        for m2, c2 in tb.items():
            d = mmul(m1, m2)
            for m, c in _expand_monomial(d, c1 * c2).items():
                out[m] = out.get(m, 0) + c
    return from_terms(out)


def is_pos_atom(a):
    if isinstance(a, Sym):
        return 'pos' in a.attrs
    if isinstance(a, App):
        return a.op in ('exp', 'cosh', 'abs+') or (a.op == 'f:sqrt')
    if isinstance(a, Num):
        return sign(a) == 1
    return False


def sign(l):
    """1 positive, 0 zero, -1 negative, None unknown"""
    if isinstance(l, Const):
        return (l.v > 0) - (l.v < 0)
    if isinstance(l, (Sym, App)):
        return 1 if is_pos_atom(l) else None
    if isinstance(l, Num):
        s = None
        for m, c in l.terms:
            k = 1 if c > 0 else -1
            for a, e in m:
                if not is_pos_atom(a):
                    if e.denominator == 1 and e.numerator % 2 == 0 and e > 0:
                        # square: nonnegative; positive only with another positive summand
                        if len(l.terms) > 1:
                            continue
                        return None
                    if e.denominator != 1 and e.denominator % 2 == 0:
                        # an even root of a real is nonnegative
                        if len(l.terms) > 1:
                            continue
                        return None
                    return None
            if s is None:
                s = k
            elif s != k:
                return None
        # need at least one strictly signed term
        for m, c in l.terms:
            if all(is_pos_atom(a) for a, e in m):
                return s
        return None
    return None


def npow(a, q):
    """a ** q, q Fraction"""
    if q == 0:
        return const(1)
    if q == 1:
        return a
    t = to_terms(a)
    if not t:
        return const(0) if q > 0 else app('pow', a, const(int(q)) if q.denominator == 1 else const(float(q)))
    if len(t) == 1:
        (m, c), = t.items()
        if q.denominator == 1:
            if c < 0 and False:
                pass
            return from_terms(_expand_monomial({x: e * q for x, e in m}, c ** int(q)))
        # fractional
        cc = None
        if c > 0:
            cc = _rootfrac(c, q)
            rest = {}
            opaque = []
            for x, e in m:
                if is_pos_atom(x) or e.denominator % 2 == 0 or (e.numerator % 2 != 0) or q.denominator % 2 == 1:
                    # sqrt(x) with odd exponent: x must be >=0 for the term to be real
                    rest[x] = e * q
                else:
                    # even exponent of a possibly negative atom: |x|^(e q)
                    opaque.append((x, e))
            if len(opaque) + len(rest) > 1 and any(not is_pos_atom(x) for x in rest):
                # sqrt(x*y) with unknown signs: keep whole
                return from_terms({((_num(tuple(t.items())), q),): Fraction(1)})
            for x, e in opaque:
                ab = nabs(x)
                if isinstance(ab, Ite):
                    r = from_terms({tuple(sorted(rest.items(), key=lambda z: z[0].n)): cc})
                    return ap(lambda z: nmul(r, npow(z, e * q)), ab)
                rest[ab] = e * q
            return from_terms(_expand_monomial(rest, cc))
        return from_terms({((_num(tuple(t.items())), q),): Fraction(1)})
    if q.denominator == 1 and 0 < q <= 4 and len(t) ** int(q) <= MAXTERMS:
        r = a
        for _ in range(int(q) - 1):
            r = nmul(r, a)
        return r
    # normalise content
    items = sorted(t.items(), key=lambda z: tuple((x.n, e) for x, e in z[0]))
    lead = items[0][1]
    if q.denominator != 1:
        lead = abs(lead)
    base = _num(tuple((m, c / lead) for m, c in items))
    coef = lead ** int(q) if q.denominator == 1 else _rootfrac(lead, q)
    if q.denominator == 1 and q > 0:
        return from_terms({((_num(tuple(items)), q),): Fraction(1)})
    return from_terms({((base, q),): coef})


def _rootfrac(c, q):
    p = c ** q.numerator
    n, d = p.numerator, p.denominator
    if q.denominator == 2:
        rn, rd = math.isqrt(n), math.isqrt(d)
        if rn * rn == n and rd * rd == d:
            return Fraction(rn, rd)
    try:
        return Fraction(repr(float(c) ** float(q)))
    except OverflowError:
        return Fraction(repr(math.exp(float(q) * (math.log(c.numerator) - math.log(c.denominator)))))


def nneg(a):
    return nmul(const(-1), a)


def nabs(a):
    s = sign(a)
    if s == 1:
        return a
    if s == -1:
        return nneg(a)
    if s == 0:
        return const(0)
    return ite(cmp_lt(a, const(0)), nneg(a), a)


def _normdiff(a, b):
    d = nadd(a, b, -1)
    if isinstance(d, Const):
        return d, 1
    if isinstance(d, Num):
        lead = None
        for m, c in d.terms:
            if m != ():
                lead = c
                break
        if lead is None:
            lead = d.terms[0][1]
        if lead == 1:
            return d, 1
        items = {m: c / lead for m, c in d.terms}
        return from_terms(items), (1 if lead > 0 else -1)
    return d, 1


def cmp_lt(a, b):
    d, s = _normdiff(a, b)
    if isinstance(d, Const):
        return const(d.v * s < 0)
    sg = sign(d)
    if sg is not None:
        return const(sg * s < 0)
    return atom('lt' if s > 0 else 'gt', d)


def cmp_le(a, b):
    return bnot(cmp_lt(b, a))


def cmp_eq(a, b):
    d, s = _normdiff(a, b)
    if isinstance(d, Const):
        return const(d.v == 0)
    if sign(d) is not None:
        return FALSE
    return atom('eq', d)


def truth_leaf(l):
    if l is BOT:
        return FALSE
    if isinstance(l, Const):
        return const(bool(l.v))
    if isinstance(l, Num):
        return bnot(cmp_eq(l, const(0)))
    if isinstance(l, Sym):
        if 'num' in l.attrs:
            return bnot(cmp_eq(l, const(0)))
        if 'true' in l.attrs or 'nonempty' in l.attrs:
            return TRUE
        return atom('truth', l)
    if isinstance(l, (App, Top)):
        return atom('truth', l)
    if isinstance(l, StrV):
        if any(isinstance(p, Const) for p in l.parts):
            return TRUE
        return atom('truth', l)
    if isinstance(l, Tup):
        return const(len(l.items) > 0)
    if l is UNBOUND or l is MISSING:
        return FALSE
    return TRUE


def truth(v):
    return ap(truth_leaf, v)


# ---------------------------------------------------------------- display
def show(v, depth=0):
    if depth > 12:
        return '...'
    s = lambda x: show(x, depth + 1)
    if isinstance(v, Ite):
        return '(%s ? %s : %s)' % (show_atom(v.idx, depth + 1), s(v.hi), s(v.lo))
    if isinstance(v, Const):
        return repr(v.v)
    if isinstance(v, Num):
        out = []
        for m, c in v.terms[:12]:
            fs = []
            if c != 1 or not m:
                fs.append('%.12g' % float(c) if c.denominator != 1 else str(c))
            for a, e in m:
                b = s(a)
                if isinstance(a, Num):
                    b = '(%s)' % b
                fs.append(b if e == 1 else '%s^%s' % (b, e))
            out.append('*'.join(fs))
        return ' + '.join(out) + (' + ...' if len(v.terms) > 12 else '')
    if isinstance(v, Sym):
        return v.name
    if isinstance(v, App):
        return '%s(%s)' % (v.op, ', '.join(s(a) if isinstance(a, (Leaf, Ite)) else str(a) for a in v.args))
    if isinstance(v, StrV):
        return 'str<%s>' % '|'.join(str(p.v) if isinstance(p, Const) else '{%s}' % s(p) for p in v.parts)
    if isinstance(v, Tup):
        return '(%s)' % ', '.join(map(s, v.items))
    if isinstance(v, SliceV):
        return '%s:%s' % tuple('' if x is NONE else s(x) for x in (v.lo, v.hi))
    if isinstance(v, Ref):
        return '&%d' % v.id
    if isinstance(v, Top):
        return 'T[%s]' % v.why
    if isinstance(v, Special):
        return '<%s>' % v.name
    if isinstance(v, (ModV, Ext)):
        return v.name
    if isinstance(v, Seq):
        return '[%s]' % ', '.join('%s' % (s(x[1]) if x[0] == 'i' else str(x[0])) for x in v.segs)
    if isinstance(v, BoundM):
        return '%s.%s' % (s(v.recv), v.name)
    return '<%s>' % type(v).__name__


def show_atom(i, depth=0):
    a = _atoms[i]
    p = ', '.join(show(x, depth) if isinstance(x, (Leaf, Ite)) else str(x) for x in a[1:])
    if a[0] == 'lt':
        return p + '<0'
    if a[0] == 'gt':
        return p + '>0'
    if a[0] == 'eq':
        return p + '==0'
    return '%s(%s)' % (a[0], p)


def show_lits(lits):
    return ' and '.join(('' if pol else 'not ') + show_atom(i) for i, pol in lits.items()) or 'always'
