"""decoherence integrals, phase advance and tune, nonlinear insert, constants"""
import math
import re
from .common import *
from .lists import segments, at, generic

PI = math.pi
DEC = 'rsbeams.rsphysics.decoherence'
DOM = {'n': lambda r: float(r.randint(1, 3)), 'N': lambda r: float(r.randint(1, 3)), 'Z': (.3, 2), 'nu0': (.05, .6), 'a': (0, 6),
       'mu0': (.03, .25), 'mu1': (.03, .2), 'mu2': (.02, .1), 'mu3': (.02, .08)}


def centroid(order, n, Z, nu0, mu):
    """the defining integral Z/(2 pi n) * int_0^{2 pi n} cos(2 pi nu0 n - sum_k mu_k a^k/(2 pi n)^(k-1)) da"""
    a = S('a_int', 'notnone')
    adv = E(0)
    for k in range(1, order + 1):
        adv = adv + mu[k - 1] * a ** k / (n * (2 * PI)) ** (k - 1)
    body = Z / (n * (2 * PI)) * fn('cos', n * nu0 * (2 * PI) - adv)
    return E(app('integral', a.v, body.v, const(0.0), (n * (2 * PI)).v))


def decoherence(c):
    ip = interp()
    st = ip.fresh(DEC)
    cls = need(ip, st, DEC, 'CentroidPosition')
    Z, nu0 = S('Z', 'notnone'), S('nu0', 'notnone')
    N = S('N', 'int', 'pos', 'notnone')
    mus = [S('mu%d' % i, 'notnone', 'pos') for i in range(8)]
    zero, m1 = E(0), mus[1]
    many = [('%d' % k, mus[:k]) for k in ((1, 2, 3, 4, 5, 6, 7, 8) if c.thorough else (1, 2, 3, 4, 6))]
    # a coefficient that vanishes or is repeated is a coefficient all the same
    many += [('3, the second zero,', [mus[0], zero, mus[2]]), ('3 equal', [m1, m1, m1]), ('3, the last zero,', [mus[0], m1, zero]), ('3, the first zero,', [zero, m1, mus[2]]), ('4, the third zero,', [mus[0], m1, zero, mus[3]])]
    for label, mus in many:
        order = len(mus)
        s0 = st.fork()
        mu = ip.newlist(s0, [m.v for m in mus])
        o = ip.call(cls, [N.v, Z.v, nu0.v, mu], {}, s0, None)
        meth = {'integrate_any_order': (1, 2, 3, 4, 5, 6, 7, 8), 'integrate_first_order': (1,), 'integrate_second_order': (2,)}
        for f, fits in meth.items():
            if order not in fits:
                continue
            for turn in ('turn', 'default', 'zero'):
                s = s0.fork()
                n = S('n', 'int', 'notnone') if turn == 'turn' else N
                kw = {'turn': n.v} if turn == 'turn' else {'turn': const(0)} if turn == 'zero' else {}
                n0 = len(s.events)
                r = ip.call(ip.getattr_(o, f, s, None), [], kw, s, None)
                where = 'CentroidPosition.%s(%s) with %s coefficients' % (f, {'turn': 'turn=n', 'default': '', 'zero': 'turn=0'}[turn], label)
                centroid_is(c, ip, s, r, order, n, Z, nu0, mus, where, turn)
        # all turns
        for kw in ({}, {'p': sym('p', 'num', 'int', 'pos', 'notnone')}):
            s = s0.fork()
            n0 = len(s.events)
            r = ip.call(ip.getattr_(o, 'calculate_centroids', s, None), [], kw, s, None)
            where = 'CentroidPosition.calculate_centroids(%s) with %s coefficients' % ('p' if kw else '', label)
            for cond, q in V.cases(r, s.pc):
                if q is not BOT and cond is not FALSE:
                    all_turns(c, ip, s, q, cond, order, N, Z, nu0, mus, where)
    c.floor('centroid', 12)
    c.floor('all-turns', 9)
    c.visited(ip)
    c.assume += ['the second-order closed form is required for a positive second coefficient', 'numerical accuracy of scipy quad, fresnel is out of scope']


def all_turns(c, ip, s, r, care, order, N, Z, nu0, mus, where):
    g = segments(ip, s, r)
    src = [r] + ([x for q in g if q[0] == 'rep' for x in list(q[1]) + [q[2]]] if g else [])
    if any(x.op in ('m:imap_unordered', 'call:set') for q in src if isinstance(q, (V.Leaf, V.Ite)) for x in identity.apps(q)):
        c.violated('all-turns', where, 'the centroids come in the order in which the workers finish')
        return
    f, dom = mapped(ip, s, r)
    if f is None:
        c.undecided('all-turns', where, show(r))
        return
    for cond, dm in V.cases(dom, care):
        dm = turns(ip, s, dm)
        lo, hi, step = dm.args if isinstance(dm, App) and dm.op == 'range' else (None,) * 3
        ok = isinstance(dm, App) and dm.op == 'range' and lo is const(0) and step is const(1)
        if not ok:
            c.ob('all-turns', where + ' turns', None if not isinstance(dm, App) or dm.op != 'range' else False, 'evaluated at the turns %s' % show(dm))
        else:
            c.same('all-turns', where + ' turns', hi, N.v, DOM, care=cond, what='last turn')
    n = S('n', 'int', 'notnone')
    v = f(n.v)
    centroid_is(c, ip, s, v, order, n, Z, nu0, mus, where + ' turn n', 'turn', 'all-turns')


def mapped(ip, s, r):
    """(function of the turn number, iterable) when the value is a map of a function over an iterable, in order"""
    while isinstance(r, App) and r.op in ('list', 'array', 'call:list', 'arr', 'call:numpy.array') and len(r.args) == 1:
        r = r.args[0]
    if isinstance(r, App) and r.op in ('m:map', 'm:imap') and len(r.args) >= 3:
        g = r.args[1]
        return (lambda n: ip.call(g, [n], {}, s, None)), r.args[2]
    if isinstance(r, App) and r.op in ('call:map', 'map') and len(r.args) == 2:
        g = r.args[0]
        return (lambda n: ip.call(g, [n], {}, s, None)), r.args[1]
    g = segments(ip, s, r)
    if g is not None and len(g) == 1 and g[0][0] == 'rep' and len(g[0][1]) == 1:
        dom = g[0][2]
        return (lambda n: at(g[0][1][0], dom, n)), dom
    return None, None


def turns(ip, s, dom):
    """a list of the numbers of a range, or numpy.arange, is that range"""
    while isinstance(dom, App) and dom.op in ('list', 'array', 'call:list', 'arr', 'call:numpy.array', 'tuple') and len(dom.args) == 1:
        dom = dom.args[0]
    if isinstance(dom, App) and dom.op == 'rep' and len(dom.args) == 2:
        from ..interp import loopvar
        d = dom.args[0].args[0] if isinstance(dom.args[0], App) and dom.args[0].op == 'dom' else None
        if isinstance(d, App) and d.op == 'range' and dom.args[1] is loopvar(d):
            return d
    if isinstance(dom, App) and dom.op == 'call:numpy.arange' and len(dom.args) == 1:
        return app('range', const(0), dom.args[0], const(1))
    g = segments(ip, s, dom)
    if g is not None and len(g) == 1 and g[0][0] == 'rep' and len(g[0][1]) == 1 and isinstance(g[0][2], App) and g[0][2].op == 'range':
        from ..interp import loopvar
        if g[0][1][0] is loopvar(g[0][2]):
            return g[0][2]
    return dom


def quads(ip, s, v):
    """replace the first component of every scipy quad result by the integral it stands for"""
    k = [0]

    def rep(x):
        if isinstance(x, App) and x.op == 'elem' and len(x.args) == 2 and x.args[1] in (const(0), const(1)) and isinstance(x.args[0], App) and x.args[0].op == 'call:scipy.integrate.quad':
            q = x.args[0].args
            pos = [a for a in q if not (isinstance(a, App) and a.op == 'kw')]
            kw = {a.args[0].v if isinstance(a.args[0], Const) else a.args[0]: a.args[1] for a in q if isinstance(a, App) and a.op == 'kw'}
            g = pos[0] if pos else kw.get('func')
            lo = pos[1] if len(pos) > 1 else kw.get('a')
            hi = pos[2] if len(pos) > 2 else kw.get('b')
            ex = pos[3] if len(pos) > 3 else kw.get('args', tup([]))
            ex = list(ex.items) if isinstance(ex, Tup) else list(ex.args) if isinstance(ex, App) and ex.op in ('tuple', 'list') else [ex]
            if g is None or lo is None or hi is None or set(kw) - {'func', 'a', 'b', 'args', 'limit', 'epsabs', 'epsrel', 'full_output'}:
                return None
            if x.args[1] is not const(0):
                return app('error estimate', g, lo, hi)
            k[0] += 1
            a = sym('a_q%d' % k[0], 'num', 'notnone')
            s2 = s.fork()
            body = ip.call(g, [a] + ex, {}, s2, None)
            return app('integral', a, body, lo, hi)
        return None
    return rewrite(v, rep)


def centroid_is(c, ip, s, r, order, n, Z, nu0, mus, where, turn, rule='centroid'):
    if not result_ok(c, rule, where, s, r):
        return
    if turn == 'zero':
        c.same(rule, where, r, Z.v, DOM, what='centroid before the first turn')
        return
    r = quads(ip, s, r)
    want = centroid(order, n, Z, nu0, mus).v
    if turn == 'turn':
        want = ite(cmp_eq(n.v, const(0)), Z.v, want)
    c.same(rule, where, r, want, DOM, care=s.pc, what='centroid')
    ints = lambda v: [x for x in identity.apps(v) if x.op == 'integral']
    if len(ints(r)) == len(ints(want)) == 1 and isinstance(n.v, Sym):
        # the integrand over many more turns, point by point
        c.same(rule, where + ' over many turns', r, want, dict(DOM, **{n.v.name: lambda q: float(int(10 ** q.uniform(0, 4)))}), care=s.pc, what='centroid')


# ------------------------------------------------------------------------------------------ X02
PH = 'rsbeams.rsptcls.phases'


def phases(c):
    ip = interp()
    st = ip.fresh(PH)
    pa, tf = need(ip, st, PH, 'phase_advance', 'tune_fft')
    co = [[S('x1'), S('y1')], [S('x2'), S('y2')]]
    for cw in (None, True, False):
        s = st.fork()
        p = [ip.newlist(s, [q.v for q in r], True) for r in co]
        kw = {} if cw is None else {'clockwise': const(cw)}
        r = ip.call(pa, p, kw, s, None)
        where = 'phase_advance(clockwise=%s)' % cw
        if not result_ok(c, 'phase-advance', where, s, r):
            continue
        # the angle from p1 clockwise to p2, reduced to [0, 2 pi): compared through its cosine and sine, and its range
        (x1, y1), (x2, y2) = co
        rr = ((x1 ** 2 + y1 ** 2) * (x2 ** 2 + y2 ** 2)).sqrt()
        cosd = (x1 * x2 + y1 * y2) / rr
        sind = (y1 * x2 - x1 * y2) / rr * (-1 if cw is False else 1)
        for q1 in range(4):
            for q2 in range(4):
                sg = lambda q: [((.2, 2.2) if q in k else (-2.2, -.2)) for k in ((0, 3), (0, 1))]
                dom = dict(zip(('x1', 'y1', 'x2', 'y2'), sg(q1) + sg(q2)))
                at_ = ' from quadrant %d to %d' % (q1 + 1, q2 + 1)
                c.same('phase-advance', where + ' cosine' + at_, fn('cos', r).v, cosd.v, dom, care=s.pc, what='cosine of the advance')
                c.same('phase-advance', where + ' sine' + at_, fn('sin', r).v, sind.v, dom, care=s.pc, what='sine of the advance')
        c.same('phase-range', where + ' lower', ap(lambda l: truthof(cmp_lt(l, const(0.0))), r), const(0), care=s.pc, what='advance below zero')
        c.same('phase-range', where + ' upper', ap(lambda l: truthof(cmp_lt(const(2 * PI + 1e-9), l)), r), const(0), care=s.pc, what='advance above 2 pi')
        # the same pair of vectors: no advance
    x = sym('x', 'num', 'vec', 'notnone')
    ti, tf_ = sym('ti', 'num', 'int', 'notnone'), sym('tf', 'num', 'int', 'notnone')
    dom = {'ti': lambda r: float(r.randint(0, 2)), 'tf': lambda r: float(r.randint(3, 5))}
    for kw, lo, hi in (({}, const(1), const(None)), ({'t_i': ti}, ti, const(None)), ({'t_f': tf_}, const(1), tf_), ({'t_i': ti, 't_f': tf_}, ti, tf_),
                       ({'t_i': const(0)}, const(0), const(None)), ({'t_f': const(-2)}, const(1), const(-2)), ({'t_f': const(100)}, const(1), const(100)), ({'t_i': const(-4)}, const(-4), const(None)),
                       ({'t_i': const(-5), 't_f': const(-1)}, const(-5), const(-1))):
        s = st.fork()
        r = ip.call(tf, [x], kw, s, None)
        where = 'tune_fft(%s)' % ', '.join('%s=%s' % (k, show(v)) for k, v in kw.items())
        if not result_ok(c, 'tune', where, s, r):
            continue
        w = app('elem', x, slicev(lo, hi, const(None)))
        k = E(app('call:numpy.argmax', app('f:abs', app('call:numpy.fft.fft', w))))
        q = k / E(app('len', w))
        want = ite(truth_gt(q.v, 0.5), (1 - q).v, q.v)
        if not any(a.op == 'call:numpy.argmax' for a in identity.apps(r)) and identity.agree(r, want, dom, s.pc)[0] is not True:
            c.undecided('tune', where, 'the position of the maximum is found without argmax: %s' % show(r))
            continue
        c.same('tune', where, r, want, dom, care=s.pc, what='tune')
    # an interval that ends before the first point is empty
    for kw in ({'t_f': const(0)}, {'t_i': ti, 't_f': const(0)}):
        s = st.fork()
        r = ip.call(tf, [x], kw, s, None)
        used = leaves_of(r, lambda q: isinstance(q, App) and q.op == 'elem' and q.args[0] is x and isinstance(q.args[1], SliceV)) if r is not BOT else ()
        bad = [q for q in used if isinstance(q.args[1].hi, App) or q.args[1].hi is NONE]
        c.ob('tune', 'tune_fft(t_f=0)' + (', t_i=ti' if 't_i' in kw else ''), not bad if used or s.pc is FALSE or r is BOT else None, 'the tune is taken from %s' % (show(bad[0]) if bad else ''))
    c.floor('phase-advance', 6)
    c.floor('tune', 5)
    c.visited(ip)


def truthof(b):
    return ite(b, const(1), const(0))


def truth_gt(a, x):
    return ap(lambda l: cmp_lt(const(x), l), a)


# ------------------------------------------------------------------------------------------ L04
NL = 'rsbeams.rslattice.nonlinear'
NDOM = {'L': (.5, 3), 'phase': (.1, .4), 't': (.05, .5), 'c': (.01, .1), 'ns': lambda r: float(r.randint(1, 6)), 'newv': (.1, 2)}


def insert(c):
    ip = interp()
    st = ip.fresh(NL)
    cls = need(ip, st, NL, 'NonlinearInsert')
    L, ph, t, cc, ns = S('L', 'pos', 'notnone'), S('phase', 'notnone'), S('t', 'notnone'), S('c', 'pos', 'notnone'), S('ns', 'int', 'pos', 'notnone')
    args = {'length': L, 'phase': ph, 't': t, 'c': cc, 'num_slices': ns}
    ctor = {'length': L.v, 'phase': ph.v, 't': t.v, 'c': cc.v, 'num_slices': ns.v}
    scen = [('constructed', {}, None)]
    for k in ('length', 'phase', 't', 'c', 'num_slices'):
        scen.append(('after setting %s' % k, {}, k))
    for k in ('t', 'c', 'num_slices'):
        scen.append(('default %s' % k, {k: {'t': .1, 'c': .01, 'num_slices': 20}[k]}, None))
    for name, dflt, change in scen:
        s = st.fork()
        kw = {k: v for k, v in ctor.items() if k not in dflt}
        o = ip.call(cls, [], kw, s, None)
        cur = dict(args, **{k: E(v) for k, v in dflt.items()})
        if change:
            # generated once before the change, so that nothing stale survives
            ip.call(ip.getattr_(o, 'generate_sequence', s, None), [], {}, s, None)
            cur[change] = {'num_slices': S('ns2', 'int', 'pos', 'notnone')}.get(change, S('newv', 'pos', 'notnone'))
            if change == 'phase':
                cur[change] = S('newph', 'notnone')
            ip.setattr_(o, change, cur[change].v, s, None)
        ip.call(ip.getattr_(o, 'generate_sequence', s, None), [], {}, s, None)
        dom = dict(NDOM, ns2=lambda r: float(r.randint(1, 6)), newph=(.1, .4))
        where = 'NonlinearInsert ' + name
        if s.pc is FALSE:
            c.violated('insert', where, 'generate_sequence never returns')
            continue
        l, p, tt, c0, n = [cur[k] for k in ('length', 'phase', 't', 'c', 'num_slices')]
        f0 = l / 4 * (1 + 1 / fn('tan', p * PI) ** 2)
        k = E(app('range', const(0), n.v, const(1)))
        sv = E(app('call:numpy.linspace', (l / n * .5).v, (l - l / n * .5).v, n.v))
        root = (1 - (1 - l / 2 / f0) ** 2).sqrt()
        beta = l * (1 - sv * (l - sv) / l / f0) / root
        want = {'s_vals': sv, 'beta0': l / root, 'betas': beta, 'knll': tt * l / n / beta ** 2 * (c0 * beta.sqrt()) ** 2, 'cnll': c0 * beta.sqrt()}
        for a, w in want.items():
            c.same('insert', where + ' ' + a, ip.getattr_(o, a, s, None), w.v, dom, care=s.pc, what=a)
        if name == 'constructed':
            r = ip.call(ip.getattr_(o, 'create_madx', s, None), [], {}, s, None)
            madx(c, ip, s, o, r, where, dom)
            # the elements are those of the sequence that was generated, until it is generated anew
            s2 = s.fork()
            ip.setattr_(o, 'num_slices', sym('ns2', 'num', 'int', 'pos', 'notnone'), s2, None)
            r = ip.call(ip.getattr_(o, 'create_madx', s2, None), [], {}, s2, None)
            madx(c, ip, s2, o, r, where + ' and a new number of slices not yet generated', dom, s2.pc)
    # a given number of slices
    for k in (1, 3):
        s = st.fork()
        o = ip.call(cls, [], dict(ctor, num_slices=const(k)), s, None)
        ip.call(ip.getattr_(o, 'generate_sequence', s, None), [], {}, s, None)
        r = ip.call(ip.getattr_(o, 'create_madx', s, None), [], {}, s, None)
        g = segments(ip, s, r)
        if g is not None and all(q[0] == 'i' for q in g):
            c.ob('madx', 'NonlinearInsert with %d slices, elements' % k, len(g) == k, '%d elements for %d slices' % (len(g), k))
        elif g is not None and len(g) == 1:
            q = generic(ip, s, r)
            if q is not None:
                c.same('madx', 'NonlinearInsert with %d slices, elements' % k, q[2], const(k), NDOM, what='elements')
    c.floor('insert', 40)
    c.floor('madx', 2)
    c.visited(ip)


def madx(c, ip, s, o, r, where, dom, care=TRUE):
    g = generic(ip, s, r)
    if g is None:
        c.undecided('madx', where, show(r))
        return
    k, item, hi = g
    knll, cnll = [ip.getattr_(o, a, s, None) for a in ('knll', 'cnll')]
    parts = text(item)
    c.same('madx', where + ' number of elements', hi, app('len', knll), dom, care=care, what='elements')
    txt = ''.join(p if isinstance(p, str) else '{}' for p in parts)
    fmt = ''.join(txt.split())
    vals = [unstr(p) for p in parts if not isinstance(p, str)]
    c.ob('madx', where + ' element text', True if fmt == 'nllens,knll={},cnll={};' else None if '{}' not in fmt else False, 'element written as %r' % txt)
    short = [p for p in parts if not isinstance(p, str) and (digits(p) or 17) < 12]
    c.ob('madx', where + ' digits', not short, 'a number is written with %s digits' % (digits(short[0]) if short else ''))
    for nm, v, w in zip(('knll', 'cnll'), vals, (knll, cnll)):
        c.same('madx', where + ' ' + nm, v, ap(lambda l: app('elem', l, k), w), dict(dom, k_gen=lambda r: 1.0), what=nm + ' of element k')


def unstr(v):
    return v.args[0] if isinstance(v, App) and v.op in ('str', 'format', 'fmt') and v.args else v


def digits(v):
    """significant digits a number is written with; None for all of them"""
    if isinstance(v, App) and v.op in ('format', 'fmt') and len(v.args) > 1:
        for q in v.args[1:]:
            m = re.search(r'\.(\d+)([eEgGfF]?)', q.v) if isinstance(q, Const) and isinstance(q.v, str) else None
            if m:
                return int(m.group(1)) + (m.group(2) in 'eE' and m.group(2) != '')
    return None


# ------------------------------------------------------------------------------------------ C01
def constants(c):
    M = 'rsbeams.rsphysics.rsconst'
    ip = interp()
    st = ip.fresh(M)
    cl, q, me, mp = C_LIGHT, E_CHARGE, ME_KG, MP_KG
    mu0, eps0 = 1.25663706212e-06, 8.8541878128e-12
    want = {'c_SQ': cl ** 2, 'e': q, 'C_to_STATC': cl * 10, 'EV_to_ERG': q * 1e7, 'KG_to_EV': cl ** 2 / q, 'MKS_factor': 1 / (4 * PI * eps0), 'RT_2': 2 ** .5,
            'RT_2_OVER_PI': (2 / PI) ** .5, 'RT_TWO_PI': (2 * PI) ** .5, 'TWO_PI': 2 * PI, 'c': cl, 'c_CGS': cl * 100, 'c_INV': 1 / cl, 'e_CGS': q * cl * 10,
            'epsilon_0': eps0, 'm_e': me, 'm_e_CGS': me * 1e3, 'm_e_EV': me * cl ** 2 / q, 'm_p': mp, 'm_p_CGS': mp * 1e3, 'm_p_EV': mp * cl ** 2 / q, 'mu_0': mu0, 'pi': PI}
    s = st.fork()
    for k, w in want.items():
        v = ip.glob(s, M, k)
        if v is None or v in (UNBOUND, MISSING, BOT):
            c.violated('constant', 'rsconst.' + k, 'not defined')
        elif isinstance(v, Const) and isinstance(v.v, (int, float)):
            tol = 1e-3 if k == 'EV_to_ERG' else 1e-6
            c.ob('constant', 'rsconst.' + k, abs(v.v - w) <= tol * abs(w), 'rsconst.%s is %r, its definition gives %r' % (k, v.v, w))
        else:
            c.undecided('constant', 'rsconst.' + k, show(v))
    c.floor('constant', 20)
    c.visited(ip)
