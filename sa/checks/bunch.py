"""particle bunches: Twiss parameters, matched distributions, quiet start, validation"""
from .common import *

M = 'rsbeams.rsptcls.bunch'
NAMES = ('emitx', 'emity', 'betax', 'alphax', 'betay', 'alphay', 'stdz', 'dpop')
DOM = {'betax': (.3, 3), 'betay': (.3, 3), 'alphax': (-2, 2), 'alphay': (-2, 2), 'emitx': (.2, 2), 'emity': (.2, 2), 'npart': (3, 9),
       'newv': (.2, 3), 'ymax': (.3, 2), 'stdz': (.2, 2), 'dpop': (.2, 2), 't': (.05, .4), 'c': (.5, 2), 'cutoff': (1, 6)}


def args(cls, eq_emit=False, eq_beta=False):
    kw = {k: sym(k, 'num', 'notnone', *(('pos',) if k[:3] in ('emi', 'bet') else ())) for k in NAMES}
    if eq_emit:
        kw['emity'] = kw['emitx']
    if eq_beta:
        kw['betay'] = kw['betax']
    if cls == 'NonlinearBunch':
        kw.update({k: sym(k, 'num', 'notnone', 'pos') for k in ('t', 'c', 'cutoff')})
    return kw


def make(ip, st, cls, dist, quiet=FALSE, eq_emit=False, eq_beta=False, **over):
    s = st.fork()
    kw = args(cls, eq_emit, eq_beta)
    kw.update(over)
    b = ip.call(need(ip, st, M, cls), [sym('npart', 'num', 'int', 'pos', 'notnone')], dict(kw, dist=const(dist), quiet=quiet), s, None)
    return s, b, kw


def setter(ip, s, b, name, v):
    ip.setattr_(b, name, v, s, None)


def randoms(v):
    out = {}
    for i, l in enumerate(sorted(leaves_of(v, lambda x: isinstance(x, App) and x.op.startswith('impure:')), key=lambda x: x.n)):
        out[l] = i
    for l in leaves_of(v, lambda x: isinstance(x, App) and x.op == 'elem' and x.args[0] in out):
        out.pop(l.args[0], None)
        out[l] = len(out)
    return out


def is_normal(l):
    if l.op == 'elem':
        l = l.args[0]
    return l.op in ('impure:numpy.random.randn', 'impure:numpy.random.standard_normal')


def is_uniform(l):
    return l.op in ('impure:random.random', 'impure:numpy.random.random', 'impure:numpy.random.rand', 'impure:numpy.random.uniform')


# ------------------------------------------------------------------------------------------ B01
def observe(ip, s, b, cls):
    """(getter values, printed values, Gaussian column widths)"""
    out = {}
    for k in ('betax', 'alphax', 'betay', 'alphay', 'emitx', 'emity'):
        out[k] = ip.getattr_(b, k, s, None)
    s2 = s.fork()
    n0 = len(s2.events)
    ip.call(ip.getattr_(b, 'print_Twiss', s2, None), [], {}, s2, None)
    for e in flat(s2.events[n0:]):
        if e.name == 'print' and e.args:
            parts = text(e.args[0])
            if len(parts) >= 2 and isinstance(parts[0], str) and not isinstance(parts[-1], str):
                out['printed ' + parts[0].split(':')[0].strip()] = unstr(parts[-1])
    if cls == 'StandardBunch':
        s2 = s.fork()
        ip.call(ip.getattr_(b, 'distribute_Gaussian', s2, None), [], {}, s2, None)
        p = ip.getattr_(b, 'particles', s2, None)
        for i, k in enumerate(('x', 'xp', 'y', 'yp')):
            col = ip.getitem(p, tup([FULL, const(i)]), s2, None)
            r = randoms(col)
            out['rms ' + k] = col if not r else subst(col, {l: const(1.0) for l in r}) if len(r) == 1 and is_normal(next(iter(r))) else None
    return out


def unstr(v):
    return v.args[0] if isinstance(v, App) and v.op in ('str', 'format', 'fmt') and v.args else v


def spec(kw):
    bx, ax, by, ay, ex, ey = [E(kw[k]) for k in ('betax', 'alphax', 'betay', 'alphay', 'emitx', 'emity')]
    gx, gy = (1 + ax ** 2) / bx, (1 + ay ** 2) / by
    w = {k: E(kw[k]) for k in ('betax', 'alphax', 'betay', 'alphay', 'emitx', 'emity')}
    w.update({'printed ' + k: w[k] for k in ('betax', 'alphax', 'betay', 'alphay')})
    w.update({'printed gammax': gx, 'printed gammay': gy, 'rms x': (ex * bx).sqrt(), 'rms xp': (ex * gx).sqrt(), 'rms y': (ey * by).sqrt(),
              'rms yp': (ey * gy).sqrt()})
    return w


def compare(c, ip, s, b, cls, kw, where):
    got = observe(ip, s, b, cls)
    w = spec(kw)
    for k, v in got.items():
        if k not in w:
            continue
        rule = 'twiss-' + ('width' if k.startswith('rms') else 'print' if k.startswith('printed') else 'getter')
        if v is None:
            c.undecided(rule, where + ' ' + k, 'column is not a scaled normal variate')
            continue
        c.same(rule, '%s %s' % (where, k), v, w[k].v, DOM, what=k)


def objstate(s, b):
    return dict(s.heap[b.id].f)


def twiss(c):
    ip = interp()
    st = ip.fresh(M)
    for cls in ('StandardBunch', 'NonlinearBunch'):
        eqb = cls == 'NonlinearBunch'
        s, b, kw = make(ip, st, cls, 'Gaussian' if not eqb else 'KV', eq_beta=eqb)
        compare(c, ip, s, b, cls, kw, cls)
        setters = ['betax', 'alphax', 'betay', 'alphay']
        hist = [(k,) for k in setters]
        if c.thorough:
            hist += [(k, j) for k in setters for j in setters]
            hist += [(k, j, l) for k in setters for j in setters for l in setters]
        else:
            hist += [(k, j) for k in setters for j in setters if k[-1] == j[-1]]
        for h in hist:
            s2 = s.fork()
            cur = dict(kw)
            for i, k in enumerate(h):
                v = sym('newv%d' % i, 'num', 'notnone', *(('pos',) if k.startswith('beta') else ()))
                setter(ip, s2, b, k, v)
                cur[k] = v
                if eqb and k.startswith('beta'):
                    cur['betax'] = cur['betay'] = v
            where = '%s after setting %s' % (cls, ', '.join(h))
            compare(c, ip, s2, b, cls, cur, where)
            if len(h) == 1:
                # induction over histories: the object is the one that construction with the new values gives
                s3, b3, _ = make(ip, st, cls, 'Gaussian' if not eqb else 'KV', eq_beta=eqb, **{k: cur[k] for k in ('betax', 'betay', 'alphax', 'alphay')})
                f2, f3 = objstate(s2, b), objstate(s3, b3)
                diff = [k for k in sorted(set(f2) | set(f3)) if k != 'particles' and not (k in f2 and k in f3 and identity.agree(
                    ip.snap(f2[k], s2), ip.snap(f3[k], s3), DOM)[0] is True)]
                c.ob('history-step', where, True if not diff else None, 'state after the setter differs from the constructed state in %s' % diff)
        # the keyword arguments of set_transverse_coordinates are setters as well
        keys = ['emitx', 'emity', 'betax', 'alphax'] + (['betay', 'alphay'] if not eqb else [])
        for k in keys:
            for v in (sym('newv', 'num', 'notnone', 'pos'), const(0.0)) if not k.startswith('beta') else (sym('newv', 'num', 'notnone', 'pos'),):
                s2, b2, kw2 = make(ip, st, cls, 'no distribution', eq_beta=eqb)
                ip.call(ip.getattr_(b2, 'set_transverse_coordinates', s2, None), [], {k: v}, s2, None)
                cur = dict(kw2)
                cur[k] = v
                if eqb and k == 'betax':
                    cur['betay'] = v
                compare(c, ip, s2, b2, cls, cur, '%s.set_transverse_coordinates(%s=%s)' % (cls, k, 'v' if isinstance(v, Sym) else '0'))
    # standard Gaussian bunches: columns, independence, longitudinal coordinates
    s, b, kw = make(ip, st, 'StandardBunch', 'Gaussian')
    ip.call(ip.getattr_(b, 'set_transverse_coordinates', s, None), [], {}, s, None)
    ip.call(ip.getattr_(b, 'set_longitudinal_coordinates', s, None), [], {}, s, None)
    gaussian_columns(c, ip, s, b, kw, 'StandardBunch')
    for k, col in (('stdz', 4), ('dpop', 5)):
        for v in (sym('newv', 'num', 'notnone', 'pos'), const(0)):
            s2 = s.fork()
            ip.call(ip.getattr_(b, 'set_longitudinal_coordinates', s2, None), [], {k: v}, s2, None)
            other = {'stdz': ('dpop', 5), 'dpop': ('stdz', 4)}[k]
            for kk, cc, vv in ((k, col, v), (other[0], other[1], kw[other[0]])):
                cv = ip.getitem(ip.getattr_(b, 'particles', s2, None), tup([FULL, const(cc)]), s2, None)
                r = randoms(cv)
                c.same('longitudinal-width', 'set_longitudinal_coordinates(%s=%s) column %d' % (k, 'v' if isinstance(v, Sym) else 0, cc),
                       subst(cv, {l: const(1.0) for l in r}), vv, DOM, what=kk)
    c.floor('twiss-getter', 60)
    c.floor('twiss-width', 30)
    c.visited(ip)


def gaussian_columns(c, ip, s, b, kw, where):
    p = ip.getattr_(b, 'particles', s, None)
    w = spec(kw)
    want = [w['rms x'], w['rms xp'], w['rms y'], w['rms yp'], E(kw['stdz']), E(kw['dpop'])]
    used = []
    for i in range(6):
        col = ip.getitem(p, tup([FULL, const(i)]), s, None)
        r = list(randoms(col))
        if len(r) != 1 or leaves_of(col, lambda x: isinstance(x, App) and x.op == 'rows'):
            c.undecided('gaussian-column', '%s column %d' % (where, i), show(col))
            continue
        used.append(r[0])
        c.same('gaussian-column', '%s column %d' % (where, i), col, (want[i] * E(r[0])).v, DOM, what='column %d' % i)
    c.ob('gaussian-independent', where, len(set(used)) == len(used) if used else None, 'two coordinates share the same random numbers')


# ------------------------------------------------------------------------------------------ B02 / B03
def particle_items(ip, s, p, i):
    """the list of particle vectors that fills column i, as a Ref"""
    col = unshape(ip.getitem(p, tup([FULL, const(i)]), s, None))
    refs = leaves_of(col, lambda x: isinstance(x, Ref) and s.heap.get(x.id) is not None and s.heap[x.id].kind == 'list')
    if isinstance(col, App) and col.op == 'rows' and len(refs) == 1:
        return col.args[0], next(iter(refs)), col
    return None, None, col


def groups(ip, s, lst):
    """[(lits, [items appended per generic iteration])]"""
    out = []
    q = s.heap[lst.id].f['c']
    for lits, (l,) in V.paths(q):
        if not isinstance(l, Seq):
            return None
        items = []
        nrep = 0
        for g in l.segs:
            if g[0] == 'rep':
                nrep += 1
                for h in g[2]:
                    if h[0] != 'i':
                        return None
                    items.append(h[1])
            elif g[0] == 'i':
                return None
            else:
                return None
        out.append((lits, items))
    return out


def elliptic_potential(x, y, t, cc):
    import math
    xn, yn = x / cc, y / cc
    r1, r2 = ((xn + 1) ** 2 + yn ** 2).sqrt(), ((xn - 1) ** 2 + yn ** 2).sqrt()
    u, v = (r1 + r2) / 2, (r1 - r2) / 2
    f2 = u * (u ** 2 - 1).sqrt() * fn('arccosh', u)
    g2 = v * (1 - v ** 2).sqrt() * (fn('arccos', v) - math.pi / 2)
    return (x ** 2 + y ** 2) / 2 - t * cc ** 2 * (f2 + g2) / (u ** 2 - v ** 2)


def hamiltonian(comp, kw, cls):
    x, px, y, py = [E(v) for v in comp]
    bx, ax, by, ay = [E(kw[k]) for k in ('betax', 'alphax', 'betay', 'alphay')]
    xh, yh = x / bx.sqrt(), y / by.sqrt()
    pxh, pyh = px * bx.sqrt() + ax * xh, py * by.sqrt() + ay * yh
    kin = (pxh ** 2 + pyh ** 2) / 2
    if cls == 'NonlinearBunch':
        return kin + elliptic_potential(xh, yh, E(kw['t']), E(kw['c'])), (xh, pxh, yh, pyh)
    return kin + (xh ** 2 + yh ** 2) / 2, (xh, pxh, yh, pyh)


def named(v):
    """random draws and root finder results as named symbols"""
    m = {}
    un, others = [], []
    for l in sorted(leaves_of(v, lambda x: isinstance(x, App) and (x.op.startswith('impure:') or 'newton' in x.op or x.op in ('loopin',))), key=lambda x: x.n):
        if l.op.startswith('impure:'):
            m[l] = sym('U%d' % len(un), 'num', 'pos', 'unit')
            un.append(l)
        elif 'newton' in l.op or 'brent' in l.op or 'bisect' in l.op:
            m[l] = sym('ymax', 'num', 'pos')
            others.append(l)
    return m, un, others


PROBE = sym('yprobe', 'num', 'pos')


def bound(ip, st, a):
    """the root finder: what it is asked for is kept as the value of the function at a probe"""
    s2 = st.fork()
    return app('call:scipy.optimize.newton', ip.call(a[0], [PROBE], {}, s2, None))


CASES = [('StandardBunch', 'KV'), ('NonlinearBunch', 'KV'), ('NonlinearBunch', 'waterbag'), ('NonlinearBunch', 'Gaussian')]


def distributions(c):
    ip = interp(1500000)
    st = ip.fresh(M)
    for cls, dist in CASES:
        for quiet in (FALSE, TRUE):
            where = '%s %s%s' % (cls, dist, ' quiet' if quiet is TRUE else '')
            matched(c, ip, st, cls, dist, quiet, where)
        matched(c, ip, st, cls, dist, FALSE, '%s %s after new emittances' % (cls, dist), reset=('emitx', 'emity'))
        matched(c, ip, st, cls, dist, FALSE, '%s %s generated again' % (cls, dist), again=True)
        if dist != 'KV':
            for k in ('emitx', 'emity'):
                matched(c, ip, st, cls, dist, FALSE, '%s %s after a new %s' % (cls, dist, k), reset=(k,))
    # t = 0: the linear potential
    x, y = S('x'), S('y')
    for cls, t in (('StandardBunch', None), ('NonlinearBunch', 't'), ('NonlinearBunch', '0')):
        over = {'t': const(0.0)} if t == '0' else {}
        s, b, kw = make(ip, st, cls, 'KV', **over)
        px, py = S('px'), S('py')
        pot = ip.call(ip.getattr_(b, 'compute_potential', s, None), [x.v, y.v], {}, s, None)
        want = (x ** 2 + y ** 2) / 2 if t != 't' else elliptic_potential(x, y, E(kw['t']), E(kw['c']))
        dom = dict(DOM, x=(-.9, .9), y=(.1, 1), px=(-1, 1), py=(-1, 1))
        c.same('potential', '%s.compute_potential%s' % (cls, ' (t=0)' if t == '0' else ''), pot, want.v, dom, what='potential')
        h = ip.call(ip.getattr_(b, 'compute_Hamiltonian', s, None), [x.v, px.v, y.v, py.v], {}, s, None)
        c.same('potential', '%s.compute_Hamiltonian%s' % (cls, ' (t=0)' if t == '0' else ''), h, ((px ** 2 + py ** 2) / 2 + want).v, dom, what='invariant')
    c.floor('on-invariant', 6)
    c.floor('potential', 6)
    c.visited(ip)


def matched(c, ip, st, cls, dist, quiet, where, reset=(), again=False):
    s, b, kw = make(ip, st, cls, dist, quiet, eq_emit=dist == 'KV', eq_beta=cls == 'NonlinearBunch')
    e = sym('newv', 'num', 'notnone', 'pos')
    new = {k: e for k in reset}
    kw = dict(kw, **new)
    if again:
        ip.call(ip.getattr_(b, 'set_transverse_coordinates', s, None), [], {}, s, None)
    ip.models['scipy.optimize.newton'] = lambda ip, st, r, a, k, n: bound(ip, st, a)
    ip.loopinfo.clear()
    ip.call(ip.getattr_(b, 'set_transverse_coordinates', s, None), [], new, s, None)
    for k in sorted(kw):
        c.same('keeps-parameters', '%s %s' % (where, k), ip.getattr_(b, k, s, None), kw[k], DOM, what='%s after the distribution was generated' % k)
    p = ip.getattr_(b, 'particles', s, None)
    refs, ok = set(), True
    for i in range(4):
        k, ref_, col = particle_items(ip, s, p, i)
        if ref_ is None:
            if isinstance(col, Const) or col is const(0.0):
                c.violated('fills-particles', where, 'column %d is never filled: %s' % (i, show(col)))
            else:
                c.undecided('fills-particles', where, 'column %d is %s' % (i, clip(show(col))))
            return
        refs.add(ref_)
        ok = ok and k == i
    ids = ip.getitem(p, tup([FULL, const(6)]), s, None)
    c.ob('fills-particles', where, ok and len(refs) == 1, 'columns of the particle array are not x, px, y, py in order')
    want = ip.call(V.ext('numpy.arange'), [sym('npart', 'num', 'int', 'pos', 'notnone')], {}, s, None)
    c.ob('particle-ids', where, True if ids is want else False if isinstance(ids, Const) or isinstance(ids, Num) and all(q is want for mm, _ in ids.terms for q, _e in mm) else None,
         'identifier column is %s and not 0 ... npart-1' % show(ids))
    gr = groups(ip, s, next(iter(refs)))
    if gr is None:
        c.undecided('on-invariant', where, 'the particle list is not built by one loop')
        return
    k = 0
    for lits, items in gr:
        if not items:
            continue
        if not all(isinstance(x, Ref) and s.heap[x.id].kind in ('arr', 'list') or isinstance(x, (App, Tup)) for x in items):
            c.undecided('on-invariant', where, 'particle is %s' % [show(x) for x in items][:2])
            continue
        comps = [[under(ip.getitem(it, const(j), s, None), lits) for j in range(4)] for it in items]
        allv = tup([v for cc in comps for v in cc])
        conds = tup([q for i in lits for q in V.atom_of(i)[1:] if isinstance(q, (Leaf, Ite))])
        m, un, roots = named(tup([allv, conds]))
        dom = dict(DOM, **{'U%d' % i: (0.02, .98) for i in range(len(un))})
        care = TRUE
        for i, pol in lits.items():
            a = V.atom_of(i)
            if a[0] in ('lt', 'gt', 'eq') and not leaves_of(a[1], lambda x: isinstance(x, App) and x.op == 'loopin'):
                cnd = subst(ite_atom(i), m)
                care = band(care, cnd if pol else bnot(cnd))
        comps = [[subst(v, m) for v in cc] for cc in comps]
        if leaves_of(tup([v for cc in comps for v in cc]), lambda x: isinstance(x, App) and x.op == 'loopin'):
            continue  # a value of an earlier sample: only when nothing was sampled this time
        if not reachable(care, dom):
            continue
        k += 1
        emit = (E(kw['emitx']) + E(kw['emity'])) / 2
        if quiet is TRUE:
            c.ob('quiet-group', where, len(comps) == 4, '%d particles are added per sample of a quiet start' % len(comps))
            for j, nm in enumerate(('x', 'px', 'y', 'py')):
                tot = E(0)
                for cc in comps:
                    tot = tot + E(cc[j])
                c.same('quiet-centroid', '%s %s' % (where, nm), tot.v, const(0), dom, care, what='sum over the group')
        else:
            c.ob('one-per-sample', where, len(comps) == 1, '%d particles are added per sample' % len(comps))
        hs = [hamiltonian(cc, kw, cls) for cc in comps]
        for n, (h, hat) in enumerate(hs):
            w = '%s particle %d of the group' % (where, n) if len(hs) > 1 else where
            if dist == 'KV':
                c.same('on-invariant', w, h.v, (emit * (4 if cls == 'StandardBunch' else 1)).v, dom, care, what='invariant')
            elif n:
                c.same('on-invariant', w, h.v, hs[0][0].v, dom, care, what='invariant of the partner')
            else:
                level(c, w, dist, h, emit * 2, un, m, dom, care, ip, kw)
        # isotropic momentum, independent draws
        xh, pxh, yh, pyh = hs[0][1]
        unis = [sym('U%d' % i, 'num', 'pos', 'unit') for i in range(len(un)) if is_uniform(un[i])]
        import math
        hit = None
        for u in unis:
            if all(identity.agree((pxh * fn(b_, E(u) * 2 * math.pi)).v, (pyh * fn(a_, E(u) * 2 * math.pi)).v, dom, care)[0] is True
                   for a_, b_ in (('cos', 'sin'), ('sin', 'cos'))[:1]):
                hit = u
        if hit is not None:
            c.holds('isotropic', where, 'momentum direction is 2 pi times a uniform variate')
            inde = [u for u in unis if mentions(tup([xh.v, yh.v]), {u})]
            c.ob('independent-draws', where, hit not in inde and len(inde) >= 2, 'position and momentum direction share random numbers')
        else:
            c.ob('isotropic', where, False if unis and not identity.opaque(pxh.v) else None, 'momentum direction is not uniform over the full circle')
        region(c, where, cls, hs[0][0], xh, yh, unis, roots, m, kw, dom, care)
    if not k:
        c.violated('fills-particles', where, 'no particle is ever added')
    # the loop runs until at least npart particles were added
    for lid, inf in ip.loopinfo.items():
        tst = inf.get('test')
        if tst is None or inf.get('loc') is None:
            continue
        for nm, (old, sv, new) in inf.get('carried', {}).items():
            if new is None or not mentions_v(tst, sv) or not mentions_v(tst, sym('npart', 'num', 'int', 'pos', 'notnone')):
                continue
            q = s.heap[next(iter(refs)).id].f['c']
            bad, open_ = None, False
            for lits, (l, nv) in V.paths(q, new):
                if not isinstance(l, Seq):
                    continue
                if any(V.atom_of(i)[0] in ('lt', 'gt') and V.atom_of(i)[1] is not None and not mentions_v(V.atom_of(i)[1], sv) and
                       mentions_v(V.atom_of(i)[1], sym('npart', 'num', 'int', 'pos', 'notnone')) for i in lits) and not l.segs:
                    continue
                n = sum(len(g[2]) for g in l.segs if g[0] == 'rep')
                d = ap(lambda a, b_: nadd(a, b_, -1), nv, sv)
                if not isinstance(d, Const):
                    open_ = True
                elif d.v > n and l.segs:
                    bad = (n, d)
            c.ob('enough-particles', where, False if bad or old is not const(0) else None if open_ else True, 'counter grows by %s while %s particles are added' % (bad and show(bad[1]), bad and bad[0]))


def region(c, where, cls, h, xh, yh, unis, roots, m, kw, dom, care):
    """positions are uniform over a box that holds every point the value of the invariant allows"""
    ends = []
    for nm, q in (('x', xh), ('y', yh)):
        us = [u for u in unis if mentions(q.v, {u})]
        if len(us) != 1:
            c.undecided('whole-region', '%s %s' % (where, nm), 'position is made of %d uniform variates' % len(us))
            return
        u = us[0]
        at = [E(subst(q.v, {u: const(float(i))})) for i in (0, 1)]
        c.same('uniform-position', '%s %s' % (where, nm), q.v, (at[0] + (at[1] - at[0]) * E(u)).v, dom, care, what='position')
        c.same('uniform-position', '%s %s centre' % (where, nm), (-at[0]).v, at[1].v, dom, care, what='middle of the box of positions')
        ends.append(at[0] * at[0])
    c.ob('independent-draws', '%s position' % where, not [u for u in unis if mentions(xh.v, {u}) and mentions(yh.v, {u})], 'x and y share a random number')
    if len(roots) != 1:
        c.undecided('whole-region', where, '%d calls of the root finder' % len(roots))
        return
    root = roots[0]
    ym = E(m[root])
    f = E(subst(root.args[0], m))
    py = E(PROBE)
    pot = elliptic_potential(E(0), py, E(kw['t']), E(kw['c'])) if cls == 'NonlinearBunch' else py ** 2 / 2
    lvl = E(subst(f.v, {PROBE: const(0.0)}))
    dom = dict(dom, yprobe=(.2, 2))
    c.same('whole-region', '%s largest y' % where, f.v, (lvl - pot).v, dom, care, what='function whose root is the largest y')
    if leaves_of(lvl.v, lambda x: isinstance(x, App) and x.op == 'loopin'):
        c.undecided('whole-region', where, 'the level is that of an earlier sample')
        return

    def below(a, b):
        return ap(lambda p, q: ite(V.cmp_lt(p, q), const(1), const(0)), a.v, b.v)
    c.same('whole-region', '%s level' % where, below(lvl, h * (1 - 1e-3)), const(0), dom, care, what='level the largest y is computed for being below the invariant')
    c.same('whole-region', '%s y' % where, below(ends[1], ym * ym * (1 - 1e-3)), const(0), dom, care, what='box in y being smaller than the largest y')
    big = E(kw['c']) ** 2 if cls == 'NonlinearBunch' else ym * ym
    c.same('whole-region', '%s x' % where, below(ends[0], big * (1 - 1e-3)), const(0), dom, care, what='box in x being smaller than the largest x')


def ite_atom(i):
    return V.ite_of_atom(i) if hasattr(V, 'ite_of_atom') else V._node(i, TRUE, FALSE)


def under(v, lits):
    for i, pol in lits.items():
        v = V.cof(v, i, pol)
    return v


def mentions_v(v, t):
    return bool(leaves_of(v, lambda x: x is t))


def reachable(care, dom):
    for lits, (q,) in V.paths(care):
        if q is TRUE and identity.sampleable(lits, dom, 600):
            return True
    return False


def level(c, w, dist, h, emit, un, m, dom, care, ip, kw):
    """value of the invariant of a sampled particle in terms of the uniform draws"""
    rel = h / emit
    us = [(i, E(sym('U%d' % i, 'num', 'pos', 'unit'))) for i in range(len(un)) if is_uniform(un[i])]
    if dist == 'waterbag':
        for i, u in us:
            for form in (u.sqrt(), (1 - u).sqrt()):
                if identity.agree(rel.v, form.v, dom, care)[0] is True:
                    return c.holds('on-invariant', w, 'invariant over emittance is the square root of a uniform variate')
        return c.violated('on-invariant', w, 'invariant over total emittance is not the square root of a uniform variate')
    for i, u in us:
        for j, v in us:
            if i < j and identity.agree(rel.v, (-fn('log', u) - fn('log', v)).v, dom, care)[0] is True:
                inv = {mm: l for l, mm in m.items()}
                t = subst((-fn('log', u * v)).v, inv)
                cut = kw['cutoff']
                hit = None
                for lid, inf in ip.loopinfo.items():
                    if inf.get('test') is None:
                        continue
                    for nm, (old, sv, new) in inf.get('carried', {}).items():
                        if new is None or not mentions_v(inf['test'], sv):
                            continue
                        if identity.agree(new, t)[0] is True:
                            want = ap(lambda a, b_: V.cmp_lt(b_, a), t, cut)
                            got = subst(inf['test'], {sv: t})
                            r, *_ = identity.agree(ite(got, const(1), const(0)), ite(want, const(1), const(0)), dict(DOM, cutoff=(1, 6)))
                            hit = r if hit is not True else hit
                c.ob('cutoff', w, hit, 'levels above the cutoff are not rejected')
                return c.holds('on-invariant', w, 'invariant over emittance is minus the logarithm of the product of two uniform variates')
    c.violated('on-invariant', w, 'invariant over emittance is not minus the logarithm of a product of two uniform variates')


# ------------------------------------------------------------------------------------------ B04
def validation(c):
    ip = interp()
    NL = 'rsbeams.rslattice.nonlinear'
    st = ip.fresh(M, NL)
    jobs = [('StandardBunch', 'betax', 'pos'), ('StandardBunch', 'betay', 'pos'), ('NonlinearBunch', 'betax', 'pos'), ('NonlinearBunch', 'betay', 'pos'),
            ('NonlinearBunch', 'c', 'pos'), ('NonlinearBunch', 't', 'nonneg'), ('NonlinearBunch', 'cutoff', 'pos'), ('NonlinearInsert', 'c', 'pos')]
    for cls, name, rng in jobs:
        if cls == 'NonlinearInsert':
            s = st.fork()
            b = ip.call(need(ip, st, NL, cls), [sym('length', 'num', 'pos'), sym('phase', 'num', 'pos')], {}, s, None)
        else:
            s, b, kw = make(ip, st, cls, 'KV')
        before = objstate(s, b)
        v = sym('v', 'num', 'notnone')
        s2 = s.fork()
        npend = len(s2.pending)
        setter(ip, s2, b, name, v)
        w = '%s.%s' % (cls, name)
        want = ap(lambda a: V.cmp_lt(const(0), a) if rng == 'pos' else V.cmp_le(const(0), a), v)
        c.same('range-accepted', w, ite(s2.pc, const(1), const(0)), ite(want, const(1), const(0)), {'v': (-2, 2)}, what='acceptance of a value')
        z = s.fork()
        setter(ip, z, b, name, const(0))
        c.ob('range-zero', w, (z.pc is FALSE) == (rng == 'pos'), 'zero is %s' % ('rejected' if z.pc is FALSE else 'accepted'))
        pend = s2.pending[npend:]
        c.ob('error-kind', w, bool(pend) and all(exc(e) == 'ValueError' for _, e in pend), 'raises %s' % [exc(e) for _, e in pend])
        for sp, e in pend:
            after = objstate(sp, b)
            ch = [k for k in before if after.get(k) is not before[k]] + [k for k in after if k not in before]
            c.ob('unchanged-on-error', w, not ch, 'a rejected value changes %s' % ch)
        got = ip.getattr_(b, name, s2, None)
        c.same('reads-back', w, got, v, {'v': (.1, 2)}, s2.pc, what='value read back')
    # planar emittances of a KV bunch must be equal
    for cls in ('StandardBunch', 'NonlinearBunch'):
        s, b, kw = make(ip, st, cls, 'KV')
        before = s.heap[ip.getattr_(b, 'particles', s, None).id].y
        ip.call(ip.getattr_(b, 'set_transverse_coordinates', s, None), [], {}, s, None)
        care = ap(lambda a, q: bnot(V.cmp_eq(a, q)), kw['emitx'], kw['emity'])
        c.same('kv-equal-emittance', cls, ite(s.pc, const(1), const(0)), const(0), DOM, care, what='a KV bunch with different planar emittances')
    c.floor('range-accepted', 8)
    c.floor('reads-back', 8)
    c.visited(ip)


def exc(e):
    if isinstance(e, App) and e.op == 'exc' and e.args and isinstance(e.args[0], Ext):
        return e.args[0].name
    return show(e)
