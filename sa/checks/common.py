import ast
from fractions import Fraction
from ..val import *
from .. import val as V
from .. import identity, stubs
from ..terms import *
from ..model import AnalysisBroken, functions, walk_scope
from ..interp import Interp, Ev, leaves_of, mentions, subst, stub, State, Cell, Budget, Runaway
from ..check import project as c_project, clip


def interp(maxsteps=400000):
    ip = Interp(c_project(), maxsteps)
    stubs.lib(ip)
    return ip


def need(ip, st, mod, *names):
    """public anchors: without them the rule cannot be applied"""
    c_project().mod(mod)
    out = []
    for nm in names:
        v = ip.glob(st, mod, nm)
        if v is None or v in (UNBOUND, MISSING, BOT):
            raise AnalysisBroken('%s.%s not found' % (mod, nm))
        out.append(v)
    return out if len(out) != 1 else out[0]


def dget(ip, s, d, key):
    """value stored under a constant key of a dict-like result"""
    return ip.getitem(d, const(key), s, None)


def result_ok(c, rule, where, s, v):
    """a call that must return for every admissible input"""
    if v is BOT or s.pc is FALSE:
        c.violated(rule, where, 'no path returns a value')
        return False
    return True


SHAPE_OPS = {'m:squeeze', 'm:flatten', 'm:ravel', 'm:reshape', 'm:copy', 'm:transpose', 'm:tolist'}


def strip_shape(v):
    """drop operations that only change the shape or the container of an array"""
    while True:
        if isinstance(v, App) and v.op in SHAPE_OPS and v.args:
            v = v.args[0]
        elif isinstance(v, App) and v.op == 'elem' and len(v.args) == 2 and v.args[1] in (FULL, tup([]), const(Ellipsis) if False else FULL):
            v = v.args[0]
        elif isinstance(v, App) and v.op == 'array' and len(v.args) == 1 and isinstance(v.args[0], App):
            v = v.args[0]
        elif isinstance(v, App) and v.op == 'arr' and len(v.args) == 1:
            v = v.args[0]
        else:
            return v


def rewrite(v, f):
    """replace every sub-term t (outermost first) by f(t) where that is not None"""
    m = {}

    def pred(x):
        r = f(x)
        if r is not None:
            m[x] = r
        return False
    leaves_of(v, pred)
    return subst(v, m) if m else v


def unshape(v):
    """the term with all shape-only operations removed"""
    for _ in range(6):
        w = rewrite(v, lambda x: strip_shape(x) if strip_shape(x) is not x else None)
        if w is v:
            return v
        v = w
    return v


def lastcall(s, kind=None, name=None):
    return [e for e in flat(s.events) if (kind is None or e.kind == kind) and (name is None or e.name == name)]


def flat(evs):
    """events with the bodies of summarised loops"""
    for e in evs:
        yield e
        if e.inner:
            yield from flat(e.inner)


def arg(e, i, name, default=None):
    if name in e.kw:
        return e.kw[name]
    return e.args[i] if i is not None and i < len(e.args) else default


def text(v):
    """parts of a string value: list of str and leaves"""
    if isinstance(v, Const) and isinstance(v.v, (str, bytes)):
        return [v.v]
    if isinstance(v, StrV):
        return [p.v if isinstance(p, Const) and isinstance(p.v, str) else p for p in v.parts]
    return [v]


CRASH = {'IndexError', 'TypeError', 'AttributeError', 'NameError', 'UnboundLocalError', 'KeyError'}


def crashes(c, rule, where, s, n0=0):
    """an exception no caller asked for, on a path that can be taken"""
    bad = None
    for sp, e in s.pending[n0:]:
        if isinstance(e, App) and e.op == 'exc' and isinstance(e.args[0], Ext) and e.args[0].name in CRASH and sp.pc is not FALSE:
            kinds = {k for lits, (p,) in V.paths(sp.pc) if p is TRUE for k in {V.atom_of(i)[0] for i in lits}}
            if not kinds - {'lt', 'gt', 'eq', 'eqv', 'isnone', 'truth', 'nonempty'}:
                bad = e
                break
    c.ob(rule, where + ' completes', bad is None, 'raises %s' % show(bad) if bad is not None else '')
