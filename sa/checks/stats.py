"""statistics of six-dimensional distributions, sampling from a distribution"""
from .common import *
from .lists import segments, at, generic
from ..interp import Cell

M6 = 'rsbeams.rsstats.stats6d'
A = sym('A', 'num', 'mat', 'six', 'notnone')
DOM = {'A': (-2, 3)}


def row(i):
    return E(app('elem', A, const(i)))


def red(op, v):
    return E(app('r:' + op, leaf(v)))


def cov(i, j):
    return red('mean', (row(i) - red('mean', row(i))) * (row(j) - red('mean', row(j))))


def vec(f):
    return app('array', *[f(i).v for i in range(6)])


def array(ip, s):
    """a six by npoints array whose content is A and whose stores are tracked"""
    return ip.new(s, Cell('arr', {}, A, ()))


def content(ip, s, a):
    return ip.snap(a, s)


def stats(c):
    ip = interp(2000000)
    st = ip.fresh(M6)
    names = ('calc_avg6d', 'sub_avg6d', 'calc_variance6d', 'calc_rms6d', 'normalize_rms6d', 'calc_min6d', 'calc_max6d', 'calc_correlations6d')
    need(ip, st, M6, *names)
    want = {
        'calc_avg6d': vec(lambda i: red('mean', row(i))), 'calc_variance6d': vec(lambda i: cov(i, i)), 'calc_rms6d': vec(lambda i: cov(i, i).sqrt()),
        'calc_min6d': vec(lambda i: red('min', row(i))), 'calc_max6d': vec(lambda i: red('max', row(i))),
        'calc_correlations6d': app('array', *[app('array', *[cov(i, j).v for j in range(6)]) for i in range(6)]),
    }
    inplace = {'sub_avg6d': app('array', *[(row(i) - red('mean', row(i))).v for i in range(6)]),
               'normalize_rms6d': app('array', *[(row(i) / cov(i, i).sqrt()).v for i in range(6)])}
    for f in names:
        for pre in (None,) if not c.thorough else (None, 'sub_avg6d', 'normalize_rms6d'):
            s = st.fork()
            a = array(ip, s)
            if pre:
                ip.call(ip.glob(s, M6, pre), [a], {}, s, None)
                base = content(ip, s, a)
            r = ip.call(ip.glob(s, M6, f), [a], {}, s, None)
            where = 'stats6d.%s%s' % (f, ' after ' + pre if pre else '')
            if not result_ok(c, 'statistic', where, s, r):
                continue
            w = want.get(f, inplace.get(f))
            after = content(ip, s, a)
            if pre:
                w = subst(w, {A: base})
            if f in want:
                c.same('statistic', where, content(ip, s, r) if isinstance(r, (Ref, Ite)) else r, w, DOM, care=s.pc, what='the statistic')
                c.same('input-untouched', where, after, A if not pre else base, DOM, what='the array passed in')
            else:
                c.same('in-place', where, after, w, DOM, care=s.pc, what='the array afterwards')
    figures(c, ip, st)
    decorrelate(c, ip, st)
    eigen(c)
    c.floor('statistic', 6)
    c.floor('in-place', 2)
    c.visited(ip)
    c.assume += ['arrays are compared at random contents with six rows and %d columns: the loops are recurrences, their number of iterations is that of the sample' % identity.VN]


def decorrelate(c, ip, st):
    """rm_correlations6d applies the transposed eigenvector matrix of the sigma matrix to every particle"""
    if not isinstance(ip.glob(st, M6, 'rm_correlations6d'), Func) or not isinstance(ip.glob(st, M6, 'jacobi_eigen_solver6d'), Func):
        return
    vecs = sym('V', 'num', 'mat', 'square', 'notnone')
    seen = []

    def eigen(ip, st, r, a, kw, n):
        seen.append(ip.snap(a[0], st) if a else None)
        return tup([sym('lam', 'num', 'vec', 'notnone'), vecs])
    s = st.fork()
    fr = ip.modframes[M6]
    s.heap[fr] = ip.withvar(s.heap[fr], 'jacobi_eigen_solver6d', ext('stub.jacobi'))
    ip.models['stub.jacobi'] = eigen
    a = array(ip, s)
    where = 'stats6d.rm_correlations6d'
    r = ip.call(ip.glob(s, M6, 'rm_correlations6d'), [a], {}, s, None)
    if not result_ok(c, 'decorrelate', where, s, r):
        return
    if len(seen) != 1:
        c.undecided('decorrelate', where, 'the eigenvectors come from elsewhere')
        return
    sig = app('array', *[app('array', *[cov(i, j).v for j in range(6)]) for i in range(6)])
    c.same('decorrelate', where + ' matrix', seen[0], sig, DOM, what='matrix whose eigenvectors are used')
    w = app('call:numpy.dot', app('m:transpose', vecs), A)
    c.same('decorrelate', where, content(ip, s, a), w, DOM, care=s.pc, what='the array afterwards')


def eigen(c):
    """every sweep of the eigenvector iteration keeps V S V^T and V V^T: what it converges to are the eigenvectors of the matrix passed in"""
    sweeps = [([q], s) for q in [(0, 1), (2, 5), (3, 4), (0, 5)] for s in ([0, 1], [4, 5])]
    tri = [(i, j, k) for i in range(6) for j in range(i + 1, 6) for k in range(j + 1, 6)]
    for i, j, k in tri:
        for n, q in enumerate(([(i, j), (i, k)], [(i, j), (j, k)], [(i, k), (j, k)])):
            if c.thorough or n == (i + j + k) % 3:
                sweeps.append((q, [0]))
    for pairs, numbers in sweeps:
        ip = interp(3000000)
        st = ip.fresh(M6)
        f = ip.glob(st, M6, 'jacobi_eigen_solver6d')
        if not isinstance(f, Func):
            return
        plain = ip.models['range']

        def loop(ip, st, r, a, kw, n):
            # the limit of the number of sweeps: these sweeps
            if len(a) == 1 and isinstance(a[0], Const) and isinstance(a[0].v, int) and a[0].v > 36:
                return tup([const(k) for k in numbers])
            return plain(ip, st, r, a, kw, n)
        ip.models['range'] = loop
        ent = {(i, i): sym('s%d%d' % (i, i), 'num', 'notnone', 'pos') for i in range(6)}
        for i, j in pairs:
            ent[i, j] = ent[j, i] = sym('s%d%d' % (i, j), 'num', 'notnone', 'pos')
        m = [[E(ent.get((i, j), const(0.0))) for j in range(6)] for i in range(6)]
        s = st.fork()
        a = ip.new(s, Cell('arr', {}, app('array', *[app('array', *[x.v for x in r]) for r in m]), ()))
        before = set(s.heap)
        where = 'jacobi_eigen_solver6d with %s, %s' % (', '.join('sigma%d%d' % q for q in pairs), 'sweeps %s' % numbers)
        try:
            r = ip.call(f, [a], {}, s, None)
        except Exception as e:
            if type(e).__name__ not in ('Budget', 'TooBig', 'RecursionError'):
                raise
            c.undecided('eigenvectors', where, type(e).__name__)
            continue
        if s.pc is not FALSE and r is not BOT and isinstance(r, Tup) and len(r.items) == 2:
            # converged: nothing is left off the diagonal
            end, vals, vecs = s, [r.items[0]], r.items[1]
            if len(pairs) > 1:
                c.undecided('eigenvectors', where, 'returns in the first sweep')
                continue
        elif s.pending:
            end = s.pending[-1][0]
            new = [ref(k) for k in end.heap if k not in before and end.heap[k].kind in ('arr', 'list')]
            two = [x for x in new if shape(ip, end, x) == 2]
            vals, vecs = [x for x in new if shape(ip, end, x) == 1], two[0] if len(two) == 1 else None
        else:
            c.undecided('eigenvectors', where, 'the result is %s' % clip(show(r), 80))
            continue
        if vecs is None or not vals:
            c.undecided('eigenvectors', where, 'the eigenvectors are not found')
            continue
        get = lambda x, *k: ip.getitem(x, tup([const(i) for i in k]) if len(k) > 1 else const(k[0]), end, None)
        v = [[get(vecs, i, j) for j in range(6)] for i in range(6)]
        off = {(i, j): const(0) if len(pairs) == 1 else get(a, i, j) for i in range(6) for j in range(i + 1, 6)}
        d = [[get(x, i) for i in range(6)] for x in vals]
        c.ob('orthonormal', where, *at_points(lambda ev: product(ev(v), identity_matrix()), lambda ev: identity_matrix()))
        x = (None, '')
        for dd in d:
            full = [[dd[i] if i == j else off[min(i, j), max(i, j)] for j in range(6)] for i in range(6)]
            y = at_points(lambda ev: product(ev(v), ev(full)), lambda ev: ev([[e.v for e in r] for r in m]))
            if x[0] is None or y[0] is True:
                x = y
        c.ob('eigenvectors', where, *x)
        c.visited(ip)


def shape(ip, st, x):
    """2: matrix, 1: six numbers, 0: something else"""
    cell = st.heap[x.id]
    if cell.kind == 'arr':
        return 2 if any(isinstance(k, Tup) or isinstance(k, tuple) for k, _ in cell.y) else 1
    e = ip.elems(cell) if cell.kind == 'list' else None
    if e is None or len(e) != 6:
        return 0
    return 2 if all(isinstance(k, (Ref, Tup)) or isinstance(k, App) and k.op == 'array' for k in e) else 1


def identity_matrix():
    return [[1.0 if i == j else 0.0 for j in range(6)] for i in range(6)]


def product(v, q):
    """v q v^T"""
    n = range(6)
    w = [[sum(v[i][k] * q[k][l] for k in n) for l in n] for i in n]
    return [[sum(w[i][l] * v[j][l] for l in n) for j in n] for i in n]


def at_points(got, want, n=6):
    """two matrices of terms at random values of the inputs"""
    import random
    rnd = random.Random(3)
    good = 0
    for _ in range(4 * n):
        p = identity.Point(rnd, {})
        try:
            ev = lambda m: [[float(p.ev(x)) for x in r] for r in m]
            x, y = got(ev), want(ev)
        except (identity.Undef, RecursionError, TypeError, ValueError, OverflowError, ZeroDivisionError):
            continue
        if any(k.startswith(('call:', 'm:', 'f:')) for k in p.un):
            return None, 'computed with %s' % ', '.join(sorted(k for k in p.un if k.startswith(('call:', 'm:', 'f:'))))
        good += 1
        for i in range(6):
            for j in range(6):
                if not abs(x[i][j] - y[i][j]) < 1e-7 * (1 + max(abs(e) for r in y for e in r)):
                    return False, 'entry %d,%d of the matrix put together again from the eigenvectors is %g where it must be %g' % (i, j, x[i][j], y[i][j])
        if good == n:
            return True, ''
    return (True, '') if good > 2 else (None, 'the matrices cannot be evaluated')


def figures(c, ip, st):
    f = ip.glob(st, M6, 'specify_significant_figures')
    if f is None or f in (UNBOUND, MISSING):
        return
    x = S('x', 'notnone')
    for k in (1, 2, 3, 5):
        for dom in ((1.1, 9.7), (120., 99000.), (1e-5, 9e-3), (-950., -1.2)):
            s = st.fork()
            r = ip.call(f, [x.v, const(k)], {}, s, None)
            where = 'specify_significant_figures(x in %s, %d)' % (dom, k)
            # |x - result| <= half a unit of the k-th figure
            lg = fn('floor', fn('log10', fn('abs', x)))
            unit = E(app('pow', const(10.0), lg.v))
            w = E(app('f:round', (x / unit).v, const(k - 1))) * unit
            c.same('figures', where, r, w.v, {'x': dom}, care=s.pc, what='rounded value')


# ------------------------------------------------------------------------------------------ T02
MS = 'rsbeams.rsstats.sample'


def sampling(c):
    ip = interp()
    st = ip.fresh(MS)
    cdf, smp = need(ip, st, MS, 'cdf_on_grid', 'sample')
    w = sym('w', 'num', 'vec', 'pos', 'notnone')
    g = sym('g', 'num', 'vec', 'notnone')
    dist = sym('dist', 'callable', 'notnone')
    extra = sym('q', 'num', 'notnone')
    for nm, arg, passed in (('none', None, []), ('a tuple', tup([extra]), [extra]), ('two', tup([extra, const(2.0)]), [extra, const(2.0)]), ('an empty tuple', tup([]), []), ('the number 0', const(0), [const(0)]),
                            ('the number 0.0', const(0.0), [const(0.0)]), ('the number 2.5', const(2.5), [const(2.5)]), ('a list', [extra], [extra])):
        s = st.fork()
        arg = ip.newlist(s, arg) if isinstance(arg, list) else arg
        r = ip.call(cdf, [dist, g], {} if arg is None else {'args': arg}, s, None)
        where = 'cdf_on_grid with args %s' % nm
        if not result_ok(c, 'cdf', where, s, r):
            continue
        call = app('callv', dist, g, *passed)
        got = content(ip, s, r)
        bad = [x for x in identity.apps(got) if x.op == 'callv' and x is not call]
        if bad:
            c.violated('cdf', where, 'the distribution is evaluated as %s' % show(bad[0]))
            continue
        if not any(x is call for x in identity.apps(got)) and not identity.opaque(got):
            c.violated('cdf', where, 'the cumulative distribution %s does not come from the distribution' % show(got))
            continue
        c.same('cdf', where, got, (E(app('call:numpy.cumsum', call)) / red('sum', call)).v, {'$vec': {call}}, care=s.pc, what='cumulative distribution')
    # inverse transform sampling
    n, a, b, wn = sym('n', 'int', 'num', 'notnone'), sym('a', 'num', 'notnone'), sym('b', 'num', 'notnone'), sym('wn', 'int', 'num', 'pos', 'notnone')
    for method in (None, 'random', 'halton'):
        for inv in (None, 'interpolate', 'numeric'):
            for arg in (None, tup([extra])) + ((tup([]), const(0), const(0.0), const(2.5)) if method is None and inv is None else ()):
                kw = {k: v for k, v in (('method', method and const(method)), ('invert', inv and const(inv)), ('args', arg), ('wn', None if method is None else wn)) if v is not None}
                s = st.fork()
                r = ip.call(smp, [n, dist, a, b], kw, s, None)
                where = 'sample(%s)' % ', '.join('%s=%s' % (k, show(v)) for k, v in kw.items())
                if not result_ok(c, 'inverse-transform', where, s, r):
                    continue
                inverse(c, ip, s, r, where, n, dist, a, b, wn if 'wn' in kw else const(10000), [] if arg is None else list(arg.items) if isinstance(arg, Tup) else [arg], method or 'random', inv or 'interpolate')
    for kw in ({'method': const('sobol')}, {'invert': const('spline')}):
        s = st.fork()
        r = ip.call(smp, [n, dist, a, b], kw, s, None)
        c.ob('unsupported', 'sample(%s)' % kw, s.pc is FALSE or r is BOT, 'an unsupported option is accepted silently')
    c.floor('cdf', 4)
    c.floor('inverse-transform', 18)
    c.visited(ip)


def inverse(c, ip, s, r, where, n, dist, a, b, wn, extra, method, inv):
    """samples = inverse of the cumulative distribution, evaluated at the random numbers"""
    r = strip_shape(content(ip, s, unempty(r)))
    k = 0
    for lits, (pc, q) in V.paths(s.pc, unempty(r)):
        # every case is judged for itself
        if pc is not TRUE or q is BOT or not identity.sampleable(lits, {'a': lambda q: q.uniform(-2, -1), 'b': lambda q: q.uniform(1, 2)}):
            continue
        k += 1
        if k > 12:
            c.undecided('inverse-transform', where, 'more than 12 cases')
            break
        inverse_case(c, ip, s, q, where + (' when ' + V.show_lits(lits)[:80] if lits else ''), n, dist, a, b, wn, extra, method, inv)


def unempty(r):
    while isinstance(r, Ite) and V.atom_of(r.idx)[0] == 'nonempty':
        r = r.hi
    return r


ALTERED = ('call:numpy.sort', 'call:numpy.unique', 'call:numpy.flip', 'call:numpy.round', 'call:numpy.around', 'call:numpy.rint', 'call:numpy.floor', 'call:numpy.ceil',
           'f:abs', 'f:floor', 'f:ceil', 'f:rint', 'f:round', 'call:numpy.diff', 'call:numpy.cumsum', 'm:sorted', 'sorted', 'call:numpy.gradient')


def inverse_case(c, ip, s, r, where, n, dist, a, b, wn, extra, method, inv):
    r = unempty(strip_shape(r))
    if isinstance(r, App) and r.op in ALTERED and any(x.op in ('call:scipy.interpolate.interp1d', 'call:numpy.searchsorted', 'm:searchsorted', 'call:numpy.interp') for x in identity.apps(r)):
        c.violated('inverse-transform', where, 'the samples are changed by %s after the inversion' % r.op.split(':')[-1])
        return
    grid = app('call:numpy.linspace', a, b, wn)
    call = app('callv', dist, grid, *extra)
    want = (E(app('call:numpy.cumsum', call)) / red('sum', call)).v
    dom = {'$vec': {call}, 'wn': lambda rnd: float(identity.VN), 'a': lambda q: q.uniform(-2, -1), 'b': lambda q: q.uniform(1, 2)}
    if isinstance(r, App) and r.op == 'callv' and isinstance(r.args[0], App) and r.args[0].op == 'call:scipy.interpolate.interp1d' and len(r.args) == 2:
        q = [x for x in r.args[0].args if not (isinstance(x, App) and x.op == 'kw')]
        got = 'interpolate'
        cdf, xs, y = q[0], q[1], r.args[1]
        kw = {x.args[0].v if isinstance(x.args[0], Const) else x.args[0]: x.args[1] for x in r.args[0].args if isinstance(x, App) and x.op == 'kw'}
        kw.update(zip(('kind', 'axis', 'copy', 'bounds_error', 'fill_value', 'assume_sorted'), q[2:]))
        kind = kw.get('kind', const('linear'))
        fits = isinstance(kind, Const) and kind.v in ('linear', 'slinear', 'quadratic', 'cubic', 1, 2, 3)
        c.ob('inverse-transform', where + ' interpolation', fits if isinstance(kind, Const) else None, 'the inverse is interpolated with kind %s' % show(kind))
        # a random number may fall below the first value of the cumulative distribution
        fill = kw.get('fill_value')
        c.ob('inverse-transform', where + ' below the first value', True if fill is const('extrapolate') else False if fill is None or isinstance(fill, Const) else None,
             'random numbers below the first cumulative value are %s' % ('out of range' if fill is None else 'given the value %s' % show(fill)))
    elif isinstance(r, App) and r.op == 'elem' and len(r.args) == 2 and isinstance(r.args[1], Num) and shifted(r.args[1]):
        c.violated('inverse-transform', where, 'the sample is taken at the position %s of the grid' % show(r.args[1]))
        return
    elif isinstance(r, App) and r.op == 'elem' and len(r.args) == 2 and isinstance(r.args[1], App) and r.args[1].op in ('call:numpy.searchsorted', 'm:searchsorted'):
        got = 'numeric'
        xs, (cdf, y) = r.args[0], r.args[1].args[:2]
        for q in r.args[1].args[2:]:
            # the first point whose cumulative probability is at least the random number
            plain = q is const('left') or isinstance(q, App) and q.op == 'kw' and q.args[0] in ('side', const('side')) and q.args[1] is const('left')
            c.ob('inverse-transform', where + ' side', plain, 'searchsorted is called with %s' % show(q))
    elif isinstance(r, App) and r.op == 'call:numpy.interp' and len(r.args) == 3:
        got = 'interpolate'
        y, cdf, xs = r.args
    else:
        c.undecided('inverse-transform', where, show(r))
        return
    if got != inv:
        c.violated('inverse-transform', where + ' inversion', 'the distribution is inverted by %s' % got)
    bad = [x for x in identity.apps(cdf) if x.op == 'callv' and x.args[0] is dist and (len(x.args) != len(call.args) or x.args[2:] != call.args[2:])]
    if bad:
        c.violated('inverse-transform', where + ' cdf', 'the distribution is evaluated as %s' % show(bad[0]))
        return
    if wn is const(10000):
        dom.pop('wn')
        # evaluated with a grid of five points: the default number of points is compared as such
        m = {grid: app('call:numpy.linspace', a, b, const(identity.VN))}
        if leaves_of(app('list', cdf, xs), lambda x: x is grid):
            pass
        pos = [q for q in xs.args if not (isinstance(q, App) and q.op == 'kw')] if isinstance(xs, App) and xs.op == 'call:numpy.linspace' else []
        ends = [q for q in xs.args if isinstance(q, App) and q.op == 'kw'] if pos else []
        plain = all(q.args[0] in ('endpoint', const('endpoint')) and q.args[1] is const(True) for q in ends)
        if len(pos) == 3 and pos[2] is const(10000) and plain:
            for nm, got_, want_ in zip(('first', 'last'), pos, (a, b)):
                c.same('inverse-transform', where + ' %s grid point' % nm, got_, want_, dom, what=nm + ' point of the grid')
        else:
            c.ob('inverse-transform', where + ' grid', False if len(pos) == 3 and isinstance(pos[2], (Const, Num, Sym)) and pos[2] is not const(10000) else None, 'samples on %s' % show(xs))
        if len(pos) == 3 and plain:
            want = (E(app('call:numpy.cumsum', app('callv', dist, xs, *extra))) / red('sum', app('callv', dist, xs, *extra))).v
            dom['$vec'] = {app('callv', dist, xs, *extra)}
            c.same('inverse-transform', where + ' cdf', cdf, want, dom, what='cumulative distribution')
    else:
        c.same('inverse-transform', where + ' grid', xs, grid, dom, what='sample points')
        c.same('inverse-transform', where + ' cdf', cdf, want, dom, what='cumulative distribution')
    y = strip_shape(y)
    y = unscaled(c, y, where)
    if isinstance(y, App) and y.op.startswith('impure:'):
        u = y.op in ('impure:numpy.random.random', 'impure:numpy.random.rand', 'impure:numpy.random.random_sample', 'impure:random.random')
        k = [x for x in y.args[1:]]
        if y.op == 'impure:numpy.random.uniform':
            u = len(k) >= 2 and k[0] in (const(0), const(0.0)) and k[1] in (const(1), const(1.0))
            k = k[2:]
        known = u or y.op.startswith('impure:numpy.random.')
        c.ob('uniform', where, (u and method == 'random') if known else None, 'the inverse is evaluated at %s' % show(y))
        k = [x.args[1] if isinstance(x, App) and x.op == 'kw' else x for x in k]
        if u and len(k) == 1:
            k = k[0].items[0] if isinstance(k[0], Tup) and len(k[0].items) == 1 else k[0]
            c.same('uniform', where + ' count', k, n, what='number of samples')
        elif u:
            c.undecided('uniform', where + ' count', show(y))
    elif isinstance(y, App) and y.op == 'm:random' and isinstance(y.args[0], App) and y.args[0].op == 'call:scipy.stats.qmc.Halton':
        c.ob('uniform', where, method == 'halton', 'the inverse is evaluated at %s' % show(y))
        ev = [e for e in s.events if e.kind == 'method' and e.args and e.args[0] is y.args[0] and e.name != 'reset']
        moved = [e for e in ev if e.name == 'fast_forward'] or [e for e in ev if e.name == 'random'][1:]
        c.ob('deterministic', where + ' sequence', not moved, 'the sequence does not start at its first point: %s is called' % (moved[0].name if moved else ''))
        k = [x.args[1] if isinstance(x, App) and x.op == 'kw' else x for x in y.args[1:]]
        c.same('uniform', where + ' count', k[0] if k else const(1), n, what='number of samples')
        kw = {x.args[0].v if isinstance(x.args[0], Const) else x.args[0]: x.args[1] for x in y.args[0].args if isinstance(x, App) and x.op == 'kw'}
        scr = kw.get('scramble', const(True))
        det = scr is const(False) or isinstance(kw.get('seed', kw.get('rng')), Const) and kw.get('seed', kw.get('rng')) is not const(None)
        c.ob('deterministic', where, det, 'halton samples are documented to be deterministic, the sequence is scrambled with a random seed')
    else:
        c.undecided('uniform', where, show(y))


def shifted(v):
    """the position found in the cumulative distribution, plus a number"""
    t = [(m, cf) for m, cf in v.terms if m]
    k = [cf for m, cf in v.terms if not m]
    return len(t) == 1 and len(k) == 1 and t[0][1] == 1 and len(t[0][0]) == 1 and isinstance(t[0][0][0][0], App) and t[0][0][0][0].op in ('call:numpy.searchsorted', 'm:searchsorted')


def unscaled(c, y, where):
    """the uniform number an expression of one uniform number stands for: u itself or 1 - u"""
    if not isinstance(y, Num):
        return y
    us = {x for x in identity.apps(y) if x.op.startswith('impure:') or x.op == 'm:random'}
    if len(us) != 1:
        return y
    u = us.pop()
    v = sym('u_in', 'num', 'pos', 'notnone')
    z = rewrite(y, lambda x: v if x is u else None)
    dom = {'u_in': (.01, .99)}
    if identity.agree(z, (1 - E(v)).v, dom)[0] is True:
        return u
    if c.same('uniform', where + ' range', z, v, dom, what='random number'):
        return u
    return y
