"""generic element of a list built by a summarised loop"""
from .common import *
from ..interp import loopvar, elem


def segments(ip, s, v):
    """the segments of a list value, whatever the emptiness of the domains: [('i', value) | ('rep', items, domain)]; None if unknown"""
    if isinstance(v, Ite):
        a = V.atom_of(v.idx)
        if a[0] == 'nonempty':
            return segments(ip, s, v.hi)
        return None
    while isinstance(v, App) and v.op in ('list', 'array', 'arr', 'call:numpy.array', 'tuple') and len(v.args) == 1:
        v = v.args[0]
    if isinstance(v, App) and v.op == 'list':
        return [('i', a) for a in v.args]
    if isinstance(v, Tup):
        return [('i', a) for a in v.items]
    if not isinstance(v, Ref):
        return None
    c = s.heap.get(v.id)
    if c is None or c.kind != 'list':
        return None
    q = c.f['c']
    while isinstance(q, Ite):
        if V.atom_of(q.idx)[0] != 'nonempty':
            return None
        q = q.hi
    if not isinstance(q, Seq):
        return None
    out = []
    for g in q.segs:
        if g[0] == 'i':
            out.append(g)
        elif g[0] == 'rep':
            inner = g[2]
            while isinstance(inner, Ite):
                return None
            if not isinstance(inner, (tuple, list)) or any(h[0] != 'i' for h in inner):
                return None
            dom = ip.loopinfo[g[1]]['dom'] if g[1] in ip.loopinfo else g[1].args[0] if isinstance(g[1], App) and g[1].op == 'dom' and len(g[1].args) == 1 else None
            if dom is None:
                return None
            out.append(('rep', [h[1] for h in inner], dom))
        else:
            return None
    return out


def at(item, dom, k):
    """the item contributed by iteration k (k = 0, 1, ...) of a loop over dom; None if the domain is not understood"""
    m = {}
    for a in dom.args[:None if dom.op == 'zip' else 1] if isinstance(dom, App) and dom.op in ('zip', 'enumerate') else [dom]:
        if isinstance(a, App) and a.op == 'range':
            m[loopvar(a)] = ap(lambda lo, st: nadd(lo, nmul(k, st)), a.args[0], a.args[2])
        elif a is not None:
            m[loopvar(a)] = k
        m[app('index', a)] = k
    return subst(item, m)


def length(dom):
    if isinstance(dom, App) and dom.op == 'range':
        lo, hi, st = dom.args
        if st is const(1):
            return ap(lambda a, b: nadd(a, b, -1), hi, lo)
        return None
    if isinstance(dom, App) and dom.op == 'zip':
        ls = [length(a) for a in dom.args]
        if all(x is ls[0] for x in ls):
            return ls[0]
        bases = [leaves_of(a, lambda x: isinstance(x, App) and x.op in ('call:numpy.linspace', 'call:numpy.arange') or isinstance(x, Sym) and 'vec' in x.attrs) for a in dom.args]
        return ls[0] if len(set().union(*map(set, bases))) == 1 and all(bases) else None
    if isinstance(dom, App) and dom.op == 'enumerate':
        return length(dom.args[0])
    if dom is None:
        return None
    return app('len', dom)


def generic(ip, s, v):
    """(k, element k, number of elements) of a list with one item per iteration of a single loop"""
    g = segments(ip, s, v)
    if g is None or len(g) != 1 or g[0][0] != 'rep' or len(g[0][1]) != 1:
        return None
    k = sym('k_gen', 'num', 'int', 'notnone')
    it = at(g[0][1][0], g[0][2], k)
    n = length(g[0][2])
    return None if it is None or n is None else (k, it, n)
