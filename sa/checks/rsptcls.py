"""six-dimensional distributions, Twiss parameters, phase space container, particle beam"""
from .common import *
from .stats import cov, row, content, array, A, M6
from ..interp import Cell

D = 'rsbeams.rsptcls.RsDistrib6D'
PS = 'rsbeams.rsptcls.RsPhaseSpace6D'
TW = 'rsbeams.rsptcls.RsTwiss2D'
BM = 'rsbeams.rsptcls.RsPtclBeam6D'
PLANES = ('x', 'y', 'z')
NV = identity.VN


def tw(p):
    return {k: S('%s_%s' % (k, p), 'notnone', *(('pos',) if k != 'alpha' else ())) for k in ('alpha', 'beta', 'emit')}


def base(extra=()):
    ip = interp(2000000)
    return ip, ip.fresh(D, M6, PS, TW, BM, *extra)


def patch(ip, st, mod, name, f):
    """replace a module function by a model"""
    if not isinstance(ip.glob(st, mod, name), Func):
        return False
    fr = ip.modframes[mod]
    st.heap[fr] = ip.withvar(st.heap[fr], name, ext('stub.' + name))
    ip.models['stub.' + name] = f
    return True


def scenarios(c):
    """Twiss domains: the branches of the transformation"""
    out = [('alpha>0, beta>gamma', (.1, 1.), (3., 6.)), ('alpha<0, beta>gamma', (-1., -.1), (3., 6.)),
           ('alpha>0, gamma>beta', (.1, 2.), (.1, .9)), ('alpha<0, gamma>beta', (-2., -.1), (.1, .9))]
    return out


def mkdistrib(ip, st, kind='gaussian'):
    s = st.fork()
    d = ip.call(need(ip, s, D, 'RsDistrib6D'), [sym('n', 'num', 'int', 'pos', 'notnone'), const(kind), sym('fac', 'num', 'pos', 'notnone')], {}, s, None)
    return s, d


def setarray(ip, s, d):
    a = array(ip, s)
    ps = ip.call(ip.getattr_(d, 'get_phase_space_6d', s, None), [], {}, s, None)
    ip.call(ip.getattr_(ps, 'set_array_6d', s, None), [a], {}, s, None)
    return ps, a


def twissobj(ip, s, t):
    return ip.call(need(ip, s, TW, 'RsTwiss2D'), [], {'alpha_rms': t['alpha'].v, 'beta_rms': t['beta'].v, 'emit_rms': t['emit'].v}, s, None)


def quiet_clean(ip, st):
    """the clean-up of a fresh distribution, judged on its own"""
    def eigen(ip, st, r, a, kw, n):
        return tup([sym('lam', 'num', 'vec', 'notnone'), sym('V', 'num', 'mat', 'square', 'notnone')])
    patch(ip, st, M6, 'jacobi_eigen_solver6d', eigen)


def twiss(c):
    ip, st = base()
    quiet_clean(ip, st)
    NDOM = {'n': lambda r: float(NV), 'A': (-2, 2)}
    # the Twiss object
    for p in ('x',):
        s = st.fork()
        t = tw(p)
        o = twissobj(ip, s, t)
        for g, w in (('emit_rms', t['emit']), ('beta_rms', t['beta']), ('alpha_rms', t['alpha']), ('gamma_rms', (1 + t['alpha'] ** 2) / t['beta'])):
            c.same('twiss-object', 'RsTwiss2D.' + g, ip.getattr_(o, g, s, None), w.v, what=g)
            c.same('twiss-object', 'RsTwiss2D.get_' + g, ip.call(ip.getattr_(o, 'get_' + g, s, None), [], {}, s, None), w.v, what=g)
    # matched distribution: q^T Sigma^-1 q = |q_0|^2 for every particle and plane
    s0, d = mkdistrib(ip, st)
    if not result_ok(c, 'matched', 'RsDistrib6D', s0, d):
        return
    ts = {p: tw(p) for p in PLANES}
    s = s0.fork()
    ps, a = setarray(ip, s, d)
    dct = ip.call(ext('dict'), [], {'twiss_' + p: twissobj(ip, s, ts[p]) for p in PLANES}, s, None)
    ip.call(ip.getattr_(d, 'make_twiss_dist_6d', s, None), [dct, S('mean_p', 'notnone').v], {}, s, None)
    result_ok(c, 'matched', 'RsDistrib6D.make_twiss_dist_6d', s, NONE)
    got = ip.call(ip.getattr_(ps, 'get_array_6d', s, None), [], {}, s, None)
    for i, p in enumerate(PLANES):
        t = ts[p]
        q = [E(ip.getitem(got, tup([const(2 * i + k), FULL]), s, None)) for k in (0, 1)]
        inv = ((1 + t['alpha'] ** 2) / t['beta'] * q[0] ** 2 + 2 * t['alpha'] * q[0] * q[1] + t['beta'] * q[1] ** 2) / t['emit']
        w = row(2 * i) ** 2 + row(2 * i + 1) ** 2
        for nm, al, be in scenarios(c):
            dom = dict(NDOM, **{'alpha_' + p: al, 'beta_' + p: be, 'emit_' + p: (.2, 3)})
            c.same('matched', 'make_twiss_dist_6d plane %s, %s' % (p, nm), inv.v, w.v, dom, care=s.pc, what='invariant of a particle')
        for nm, al in (('alpha>0, beta=gamma', .75), ('alpha<0, beta=gamma', -.75)):
            z = {t['alpha'].v: const(al), t['beta'].v: const(1.25)}
            c.same('matched', 'make_twiss_dist_6d plane %s, %s' % (p, nm), subst(inv.v, z), w.v, dict(NDOM, **{'emit_' + p: (.2, 3)}),
                   care=subst(s.pc, z) if not isinstance(s.pc, Const) else s.pc, what='invariant of a particle')
        z = {t['alpha'].v: const(0.0)}
        for nm, be in (('beta>1', (1.5, 4)), ('beta<1', (.2, .8))):
            c.same('matched', 'make_twiss_dist_6d plane %s, alpha=0, %s' % (p, nm), subst(inv.v, z), w.v,
                   dict(NDOM, **{'beta_' + p: be, 'emit_' + p: (.2, 3)}), care=subst(s.pc, z) if not isinstance(s.pc, Const) else s.pc, what='invariant of a particle')
    # Twiss parameters of a distribution
    s = s0.fork()
    ps, a = setarray(ip, s, d)
    dct = ip.call(ext('dict'), [], {}, s, None)
    ip.call(ip.getattr_(d, 'calc_twiss6d', s, None), [dct], {}, s, None)
    result_ok(c, 'measured', 'RsDistrib6D.calc_twiss6d', s, NONE)
    for i, p in enumerate(PLANES):
        k = 2 * i
        em = (cov(k, k) * cov(k + 1, k + 1) - cov(k, k + 1) ** 2).sqrt()
        o = dget(ip, s, dct, 'twiss_' + p)
        for g, w in (('emit_rms', em), ('beta_rms', cov(k, k) / em), ('alpha_rms', -cov(k, k + 1) / em), ('gamma_rms', cov(k + 1, k + 1) / em)):
            c.same('measured', 'calc_twiss6d plane %s %s' % (p, g), ip.getattr_(o, g, s, None), w.v, NDOM, care=s.pc, what=g)
    c.same('measured', 'calc_twiss6d array', content(ip, s, a), A, NDOM, what='the array')
    for f, g in (('calc_averages_6d', 'calc_avg6d'), ('calc_rms_values_6d', 'calc_rms6d')):
        s = s0.fork()
        ps, a = setarray(ip, s, d)
        r = ip.call(ip.getattr_(d, f, s, None), [], {}, s, None)
        red = (lambda i: E(app('r:mean', row(i).v))) if g == 'calc_avg6d' else (lambda i: cov(i, i).sqrt())
        c.same('measured', 'RsDistrib6D.' + f, content(ip, s, r), app('array', *[red(i).v for i in range(6)]), NDOM, care=s.pc, what='statistics')
    beam(c, ip, st)
    c.floor('matched', 18)
    c.floor('measured', 12)
    c.floor('beam', 20)
    c.visited(ip)


def preset(ip, st, names=('sub_avg6d', 'rm_correlations6d', 'normalize_rms6d'), value=A, log=None):
    """the clean-up steps leave a normalised distribution: they are replaced by putting one in place"""
    def put(nm):
        def f(ip, st, r, a, kw, n):
            cell = ip.cellof(a[0], st) if a else None
            if log is not None:
                log.append(nm)
            if cell is not None and cell.kind == 'arr' and value is not None:
                st.heap[a[0].id] = Cell('arr', {}, value, ())
            return NONE
        return f
    return [patch(ip, st, M6, nm, put(nm)) for nm in names]


def beam(c, ip, st):
    st = st.fork()
    if not all(preset(ip, st)):
        c.undecided('beam', 'RsPtclBeam6D', 'the clean-up is done elsewhere')
        return
    s = st.fork()
    cls = need(ip, s, BM, 'RsPtclBeam6D')
    NM = ['num_ptcls', 'design_p_ev', 'total_charge_c', 'mass_ev', 'dist_type', 'max_rms_fac'] + ['%s_%s' % (k, p) for p in PLANES for k in ('alpha', 'beta', 'emit')]
    args = {k: sym(k, 'num', 'notnone', *(() if k.startswith('alpha') or k == 'total_charge_c' else ('pos',))) for k in NM}
    args['dist_type'] = const('gaussian')
    b = ip.call(cls, [args[k] for k in NM], {}, s, None)
    if not result_ok(c, 'beam', 'RsPtclBeam6D', s, b):
        return
    E_ = {k: E(v) for k, v in args.items()}
    bg = E_['design_p_ev'] / E_['mass_ev']
    for g, w in (('get_design_p_ev', E_['design_p_ev']), ('get_total_charge_c', E_['total_charge_c']), ('get_mass_ev', E_['mass_ev']), ('get_beta0_gamma0', bg),
                 ('get_gamma0', (1 + bg ** 2).sqrt()), ('get_beta0', bg / (1 + bg ** 2).sqrt())):
        s2 = s.fork()
        c.same('beam', 'RsPtclBeam6D.' + g, ip.call(ip.getattr_(b, g, s2, None), [], {}, s2, None), w.v, {}, care=s2.pc, what=g)
    for p in PLANES:
        o = ip.call(ip.getattr_(b, 'get_twiss2d_by_name', s, None), [const('twiss_' + p)], {}, s, None)
        for k in ('alpha', 'beta', 'emit'):
            c.same('beam', 'RsPtclBeam6D twiss_%s %s' % (p, k), ip.getattr_(o, k + '_rms', s, None), args['%s_%s' % (k, p)], {}, what=k)
    # the distribution was made with these Twiss parameters, count and type
    d = ip.call(ip.getattr_(b, 'get_distrib6d', s, None), [], {}, s, None)
    c.same('beam', 'RsPtclBeam6D distribution type', ip.call(ip.getattr_(d, 'get_distrib_type', s, None), [], {}, s, None), const('gaussian'), {}, what='type')
    c.same('beam', 'RsPtclBeam6D cut', ip.call(ip.getattr_(d, 'get_max_rms_fac', s, None), [], {}, s, None), args['max_rms_fac'], {}, what='cut')
    ps = ip.call(ip.getattr_(d, 'get_phase_space_6d', s, None), [], {}, s, None)
    c.same('beam', 'RsPtclBeam6D particles', ip.call(ip.getattr_(ps, 'get_num_ptcls', s, None), [], {}, s, None), args['num_ptcls'], {}, what='number of particles')
    got = ip.call(ip.getattr_(ps, 'get_array_6d', s, None), [], {}, s, None)
    for i, p in enumerate(PLANES):
        al, be, em = [E_['%s_%s' % (k, p)] for k in ('alpha', 'beta', 'emit')]
        q = [E(ip.getitem(got, tup([const(2 * i + k), FULL]), s, None)) for k in (0, 1)]
        inv = ((1 + al ** 2) / be * q[0] ** 2 + 2 * al * q[0] * q[1] + be * q[1] ** 2) / em
        c.same('beam', 'RsPtclBeam6D particles plane %s' % p, inv.v, (row(2 * i) ** 2 + row(2 * i + 1) ** 2).v,
               {'A': (-2, 2), 'num_ptcls': lambda r: float(NV), 'alpha_' + p: (.1, 1), 'beta_' + p: (3, 6)}, care=s.pc, what='invariant of a particle')
    # peak current of a known array; measured Twiss replace the nominal ones
    a = array(ip, s)
    ip.call(ip.getattr_(ps, 'set_array_6d', s, None), [a], {}, s, None)
    s2 = s.fork()
    r = ip.call(ip.getattr_(b, 'get_peak_current_rms', s2, None), [], {}, s2, None)
    c.same('beam', 'RsPtclBeam6D.get_peak_current_rms', r, (E_['total_charge_c'] / (cov(4, 4).sqrt() / (bg / (1 + bg ** 2).sqrt() * 299792458.0))).v,
           {'A': (-2, 2)}, care=s2.pc, what='peak current')
    s2 = s.fork()
    ip.call(ip.getattr_(b, 'calc_twiss6d', s2, None), [], {}, s2, None)
    for i, p in enumerate(PLANES):
        k = 2 * i
        em = (cov(k, k) * cov(k + 1, k + 1) - cov(k, k + 1) ** 2).sqrt()
        o = ip.call(ip.getattr_(b, 'get_twiss2d_by_name', s2, None), [const('twiss_' + p)], {}, s2, None)
        c.same('beam', 'RsPtclBeam6D.calc_twiss6d %s' % p, ip.getattr_(o, 'beta_rms', s2, None), (cov(k, k) / em).v, {'A': (-2, 2)}, care=s2.pc, what='beta')


# ------------------------------------------------------------------------------------------ R02
def containers(c):
    ip, st = base(('rsbeams.rsptcls.species',))
    n, n2 = sym('n', 'num', 'int', 'pos', 'notnone'), sym('n2', 'num', 'int', 'notnone')
    cls = need(ip, st, PS, 'RsPhaseSpace6D')
    s0 = st.fork()
    o = ip.call(cls, [n], {}, s0, None)
    m = lambda s, f, *a: ip.call(ip.getattr_(o, f, s, None), list(a), {}, s, None)
    zero = lambda k: app('filled', const(0.0), const(6), k)

    def shape_is(where, s, k):
        a = m(s, 'get_array_6d')
        cell = ip.cellof(a, s)
        sh = cell.f.get('shape') if cell is not None and cell.kind == 'arr' else None
        if not isinstance(sh, Tup) or not isinstance(cell.x, Const) or cell.y:
            c.undecided('allocated', where, show(content(ip, s, a)))
            return
        c.ob('allocated', where + ' content', cell.x.v == 0, 'new array holds %s' % show(cell.x))
        c.ob('allocated', where + ' rows', len(sh.items) == 2 and sh.items[0] is const(6), 'array of shape %s' % show(sh))
        c.same('allocated', where + ' columns', sh.items[-1], k, {'n2': (1, 9)}, care=s.pc, what='columns')
        c.same('allocated', where + ' count', m(s, 'get_num_ptcls'), k, {'n2': (1, 9)}, care=s.pc, what='number of particles')
    shape_is('RsPhaseSpace6D(n)', s0.fork(), n)
    s = s0.fork()
    before = snapobj(s, o)
    npend = len(s.pending)
    m(s, 'set_num_ptcls', n2)
    c.same('count-valid', 'set_num_ptcls', ite(s.pc, const(1), const(0)), ite(V.cmp_lt(const(0), n2), const(1), const(0)), {'n2': lambda r: float(r.randint(-3, 3))}, what='acceptance of a count')
    for sp, e in s.pending[npend:]:
        c.ob('count-valid', 'set_num_ptcls rejected', snapobj(sp, o) == before, 'a rejected count changes the container')
    shape_is('set_num_ptcls(n2)', s, n2)
    # the count it has already: a new array all the same
    s = s0.fork()
    m(s, 'set_array_6d', array(ip, s))
    m(s, 'set_num_ptcls', n)
    if m(s, 'get_array_6d') is not None and content(ip, s, m(s, 'get_array_6d')) is A:
        c.violated('allocated', 'set_num_ptcls(n) again', 'the old array is kept when the count is set')
    else:
        shape_is('set_num_ptcls(n) again', s, n)
    # file
    c.ob('file', 'default name', isstr_(m(s0, 'get_file_name')), 'no usable default file name: %s' % show(m(s0, 'get_file_name')))
    s = s0.fork()
    fname = sym('fname', 'str', 'notnone')
    m(s, 'set_file_name', fname)
    ok = s.pc
    c.same('file', 'set_file_name', m(s, 'get_file_name'), fname, {}, care=s.pc, what='file name')
    e0 = s0.fork()
    before = snapobj(e0, o)
    npend = len(e0.pending)
    m(e0, 'set_file_name', const(''))
    c.ob('file', 'set_file_name empty', e0.pc is FALSE, 'an empty file name is accepted')
    for sp, e in e0.pending[npend:]:
        c.ob('file', 'set_file_name rejected', snapobj(sp, o) == before, 'a rejected name changes the container')
    for nm in ('a', 'beam.npz'):
        s2 = s0.fork()
        m(s2, 'set_file_name', const(nm))
        c.ob('file', 'set_file_name %r' % nm, s2.pc is TRUE and m(s2, 'get_file_name') is const(nm), 'the file name %r is not taken: %s' % (nm, show(m(s2, 'get_file_name'))))
        n0 = len(list(flat(s2.events)))
        m(s2, 'write_array')
        m(s2, 'read_array')
        ev = [e for e in list(flat(s2.events))[n0:] if e.name and ('savez' in e.name or e.name.endswith('numpy.load'))]
        fs = [e.args[0] if e.args else e.kw.get('file') for e in ev]
        if len(fs) == 2 and all(f is not None for f in fs):
            c.same('file', 'read_array of %r' % nm, fs[1], suffixed(fs[0]), {}, care=TRUE, what='file that is read')
    a = array(ip, s)
    m(s, 'set_array_6d', a)
    n0 = len(list(flat(s.events)))
    s2 = s.fork()
    m(s2, 'write_array')
    ev = [e for e in list(flat(s2.events))[n0:] if e.name and ('savez' in e.name or e.name.endswith('.save'))]
    wrote = None
    if len(ev) != 1 or 'savez' not in ev[0].name:
        other = [e.name for e in list(flat(s2.events))[n0:]]
        c.ob('file', 'write_array', None if other else False, 'nothing is written' if not other else str(other))
    else:
        wrote = (ev[0].args[0] if ev[0].args else ev[0].kw.get('file'), {**{'arr_%d' % i: v for i, v in enumerate(ev[0].args[1:])}, **{k: v for k, v in ev[0].kw.items() if k != 'file'}})
        keys = [k for k, v in wrote[1].items() if (content(ip, s2, v) if isinstance(v, (Ref, Ite)) else v) is A]
        c.ob('file', 'write_array content', len(keys) >= 1, 'write_array stores %s' % {k: show(v)[:60] for k, v in wrote[1].items()})
        s3 = s2.fork()
        n1 = len(list(flat(s3.events)))
        m(s3, 'read_array')
        lo = [e for e in list(flat(s3.events))[n1:] if e.name and e.name.endswith('numpy.load')]
        if len(lo) != 1:
            other = [e.name for e in list(flat(s3.events))[n1:]]
            c.ob('file', 'read_array', None if other else False, 'nothing is read' if not other else str(other))
        else:
            f = lo[0].args[0] if lo[0].args else lo[0].kw.get('file')
            c.same('file', 'read_array name', f, suffixed(wrote[0]), {}, care=TRUE, what='file that is read')
            got = content(ip, s3, m(s3, 'get_array_6d'))
            used = {x.args[1].v for x in identity.apps(got) if x.op in ('elem', 'getitem') and len(x.args) == 2 and isinstance(x.args[1], Const) and isinstance(x.args[1].v, str)}
            c.ob('file', 'read_array entry', (None if identity.opaque(got) else False) if not used else used <= set(keys), 'read_array takes %s, write_array stores the array as %s' % (sorted(used), keys))
            # a file without a valid array leaves the container as it was
            for sp, e in s3.pending:
                c.ob('file', 'read_array rejected', snapobj(sp, o) == snapobj(s2, o), 'a rejected file changes the container')
            c.ob('file', 'read_array validated', s3.pc is not s2.pc, 'the content of the file is not checked')
            c.same('file', 'read_array count', m(s3, 'get_num_ptcls'), app('elem', app('attr', got, const('shape')), const(1)), {}, care=s3.pc, what='number of particles')
    # validation of an array of any shape
    r, k = sym('rows', 'num', 'int', 'notnone'), sym('cols', 'num', 'int', 'notnone')
    for sh in ((k,), (r, k), (r, k, k)):
        s = s0.fork()
        a = ip.new(s, Cell('arr', {'shape': tup(list(sh))}, A, ()))
        m(s, 'set_array_6d', a)
        s2 = s.fork()
        m(s2, 'check_array')
        w = 'check_array of %d dimensions' % len(sh)
        if len(sh) != 2:
            c.ob('array-valid', w, s2.pc is FALSE, 'an array of %d dimensions is accepted' % len(sh))
            continue
        dom = {'rows': lambda q: float(q.randint(4, 7)), 'cols': lambda q: float(q.randint(-1, 3))}
        want = ite(V.cmp_eq(r, const(6)), ite(V.cmp_lt(const(0), k), const(1), const(0)), const(0))
        c.same('array-valid', w, ite(s2.pc, const(1), const(0)), want, dom, what='acceptance of an array')
        c.same('array-valid', w + ', count', m(s2, 'get_num_ptcls'), k, dom, care=s2.pc, what='number of particles')
    # getters
    s = s0.fork()
    a = array(ip, s)
    m(s, 'set_array_6d', a)
    c.ob('getter', 'get_array_6d', m(s, 'get_array_6d') is a or None, 'another array is returned')
    for i, f in enumerate(('x', 'xp', 'y', 'yp', 's', 'dp')):
        c.same('getter', 'get_array_' + f, m(s, 'get_array_' + f), row(i).v, {'A': (-2, 2)}, care=s.pc, what='row')
    sp = need(ip, st, 'rsbeams.rsptcls.species', 'Species')
    s = st.fork()
    B = sym('B', 'num', 'mat', 'square', 'cols6', 'notnone')
    arrb = ip.new(s, Cell('arr', {}, B, ()))
    vals = {k: sym(k, 'num', 'notnone') for k in ('charge', 'mass', 'total_charge')}
    q = ip.call(sp, [arrb], dict(vals), s, None)
    for i, f in enumerate(('x', 'ux', 'y', 'uy', 'ct', 'pt')):
        c.same('getter', 'Species.' + f, ip.getattr_(q, f, s, None), app('elem', B, FULL, const(i)), {'B': (-2, 2)}, care=s.pc, what='column')
    c.ob('getter', 'Species.coordinates', ip.getattr_(q, 'coordinates', s, None) is arrb or None, 'another array is returned')
    q2 = ip.call(sp, [ip.new(s, Cell('arr', {}, A, ()))], {}, s, None)
    c.same('getter', 'Species.macroparticle_count', ip.getattr_(q2, 'macroparticle_count', s, None), app('elem', app('attr', A, const('shape')), const(0)), {}, care=s.pc, what='count')
    for k, v in vals.items():
        c.same('getter', 'Species.' + k, ip.getattr_(q, k, s, None), v, {}, care=s.pc, what=k)
    # components
    st2 = st.fork()
    preset(ip, st2)
    s0, d = mkdistrib(ip, st2)
    for f, op in (('offset_component', lambda x, y: x + y), ('multiply_component', lambda x, y: x * y)):
        for i in range(6):
            s = s0.fork()
            ps, a = setarray(ip, s, d)
            v = S('v', 'notnone')
            ip.call(ip.getattr_(d, f, s, None), [v.v, const(i)], {}, s, None)
            result_ok(c, 'component', '%s(%d)' % (f, i), s, NONE)
            c.same('component', '%s(%d)' % (f, i), content(ip, s, a), app('array', *[(op(row(k), v) if k == i else row(k)).v for k in range(6)]), {'A': (-2, 2)}, care=s.pc, what='the array afterwards')
        s = s0.fork()
        ps, a = setarray(ip, s, d)
        ip.call(ip.getattr_(d, f, s, None), [const(0.0), const(2)], {}, s, None)
        for k in range(6):
            c.same('component', '%s(2) by nothing, row %d' % (f, k), ip.getitem(a, tup([const(k), FULL]), s, None), (op(row(k), E(0)) if k == 2 else row(k)).v, {'A': (-2, 2)}, care=s.pc, what='the array afterwards')
        for i in (-1, 6, 17):
            s = s0.fork()
            ps, a = setarray(ip, s, d)
            ip.call(ip.getattr_(d, f, s, None), [S('v', 'notnone').v, const(i)], {}, s, None)
            c.ob('component', '%s(%d)' % (f, i), s.pc is FALSE, 'a component that does not exist is accepted')
    c.floor('getter', 15)
    c.floor('component', 18)
    c.floor('allocated', 4)
    c.visited(ip)


def suffixed(f):
    """the name numpy.savez writes to"""
    p = text(f)
    return f if isinstance(p[-1], str) and p[-1].endswith('.npz') else strv_(p + ['.npz'])


def isstr_(v):
    return isinstance(v, Const) and isinstance(v.v, str) and bool(v.v)


def strv_(parts):
    return strv([const(p) if isinstance(p, str) else p for p in parts])


def snapobj(s, o):
    """the fields of an object and the content of its arrays"""
    cell = s.heap[o.id]
    out = {}
    for k, v in cell.f.items():
        q = s.heap.get(v.id) if isinstance(v, Ref) else None
        out[k] = (v, q.x, q.y) if q is not None and q.kind == 'arr' else v
    return out


# ------------------------------------------------------------------------------------------ R03
def generation(c):
    ip, st = base()
    # unsupported requests are refused
    n, fac = sym('n', 'num', 'int', 'notnone'), sym('fac', 'num', 'notnone')
    cls = need(ip, st, D, 'RsDistrib6D')
    st0 = st.fork()
    quiet_clean(ip, st0)
    for kind, ok in (('uniform', True), ('gaussian', True), ('kv', False), ('Gaussian', False), ('', False)):
        s = st0.fork()
        ip.call(cls, [n, const(kind), fac], {}, s, None)
        if not ok:
            c.ob('request-valid', 'RsDistrib6D(%r)' % kind, s.pc is FALSE, 'distribution type %r is accepted' % kind)
            continue
        want = ite(V.cmp_lt(const(0), n), ite(V.cmp_lt(const(0), fac), const(1), const(0)), const(0))
        c.same('request-valid', 'RsDistrib6D(%r)' % kind, ite(s.pc, const(1), const(0)), want, {'n': lambda q: float(q.randint(-2, 3)), 'fac': (-2, 2)}, what='acceptance of a request')
    # clean-up: what is left has zero mean and unit rms in every coordinate, and was decorrelated
    B = sym('B', 'num', 'mat', 'notnone')
    log = []
    st1 = st.fork()
    if not preset(ip, st1, ('rm_correlations6d',), value=B, log=log)[0]:
        c.undecided('clean', 'RsDistrib6D.clean_phase_space_6d', 'the correlations are removed elsewhere')
    else:
        st2 = st1.fork()
        preset(ip, st2, ('sub_avg6d', 'normalize_rms6d'), value=None)
        for kind in ('uniform', 'gaussian'):
            s = st1.fork()
            del log[:]
            d = ip.call(cls, [sym('n', 'num', 'int', 'pos', 'notnone'), const(kind), sym('fac', 'num', 'pos', 'notnone')], {}, s, None)
            if not result_ok(c, 'clean', 'RsDistrib6D(%r)' % kind, s, d):
                continue
            c.ob('clean', 'RsDistrib6D(%r) decorrelated' % kind, bool(log), 'the correlations of the coordinates are not removed')
            ps = ip.call(ip.getattr_(d, 'get_phase_space_6d', s, None), [], {}, s, None)
            got = content(ip, s, ip.call(ip.getattr_(ps, 'get_array_6d', s, None), [], {}, s, None))
            for i in range(6):
                r = E(app('elem', got, const(i)))
                mean = E(app('r:mean', r.v))
                c.same('clean', 'RsDistrib6D(%r) mean of coordinate %d' % (kind, i), (1 + mean).v, const(1.0), {'B': (-2, 2)}, care=s.pc, what='1 + mean')
                c.same('clean', 'RsDistrib6D(%r) rms of coordinate %d' % (kind, i), app('r:mean', ((r - mean) ** 2).v), const(1.0), {'B': (-2, 2)}, care=s.pc, what='variance')
    # particles are accepted inside the unit sphere (uniform) and below the cut (Gaussian)
    st3 = st.fork()
    preset(ip, st3, value=None)
    for kind in ('uniform', 'gaussian'):
        s = st3.fork()
        d = ip.call(cls, [sym('n', 'num', 'int', 'pos', 'notnone'), const(kind), sym('fac', 'num', 'pos', 'notnone')], {}, s, None)
        if not result_ok(c, 'drawn', 'RsDistrib6D(%r)' % kind, s, d):
            continue
        crashes(c, 'drawn', 'RsDistrib6D(%r)' % kind, s)
        ps = ip.call(ip.getattr_(d, 'get_phase_space_6d', s, None), [], {}, s, None)
        a = ip.cellof(ip.call(ip.getattr_(ps, 'get_array_6d', s, None), [], {}, s, None), s)
        if any(e.name == 'setitem' and not isinstance(e.args[0], Ref) for e in flat(s.events)):
            c.undecided('drawn', 'RsDistrib6D(%r)' % kind, 'values are stored through a part of the array')
            continue
        rejection(c, ip, kind, a)
    c.floor('request-valid', 5)
    c.visited(ip)


def rejection(c, ip, kind, cell):
    where = 'RsDistrib6D(%r) ' % kind
    rows = {}
    if cell is None or cell.kind != 'arr':
        c.undecided('drawn', where + 'coordinates', 'no array')
        return
    for k, v in cell.y:
        if len(k) == 2 and isinstance(k[0], Const) and isinstance(k[1], App) and k[1].op == 'loopin':
            rows.setdefault(k[0].v, []).append((k[1], v))
        elif len(k) == 2 and isinstance(k[1], Const):
            c.violated('drawn', where + 'coordinates', 'only particle %s is drawn' % show(k[1]))
            return
        else:
            c.undecided('drawn', where + 'coordinates', 'stored at %s' % show(tup(k)))
            return
    for i in range(6):
        if i not in rows:
            c.violated('drawn', where + 'coordinate %d' % i, 'no value is drawn')
            return
        if len(rows[i]) != 1:
            c.undecided('drawn', where + 'coordinate %d' % i, 'drawn in several places')
            return
    info = {}
    for i in range(6):
        idx, v = rows[i][0]
        while isinstance(v, Ite) and v.lo is const(0.0) and not any(randoms_of(q) for q in V.atom_of(v.idx)[1:] if isinstance(q, (Leaf, Ite))):
            v = v.hi                # the loop is entered
        w = where + 'coordinate %d' % i
        loop = identity.LOOPS.get(idx.args[0])
        car = [q for q in (loop or {}).get('carried', {}).values() if q[1] is idx]
        if isinstance(v, Ite):
            hi, lo, cond = v.hi, v.lo, v
            acc = v.hi
            if isinstance(v.lo, App) and v.lo.op == 'loopread' or v.lo is const(0.0):
                cond = ite_cond(v)
            elif isinstance(v.hi, App) and v.hi.op == 'loopread' or v.hi is const(0.0):
                acc, cond = v.lo, bnot(ite_cond(v))
            else:
                odd_draw(c, kind, w, v, car)
                return
        else:
            acc, cond = v, None
        if len(car) != 1 or isinstance(acc, Ite):
            odd_draw(c, kind, w, v, car)
            return
        info[i] = (acc, cond, car[0], loop)
    for i in range(6):
        acc, cond, (i0, sv, nxt), loop = info[i]
        w = where + 'coordinate %d' % i
        group = [i] if kind == 'gaussian' else [k for k in range(i % 2, 6, 2)]
        draws = list(randoms_of(acc))
        if kind == 'gaussian':
            crit = E(acc) ** 2 - E(sym('fac', 'num', 'pos', 'notnone'))
            v = None if len(draws) != 1 else is_std_normal(acc, draws[0])
            if v is None and len(draws) == 1 and is_std_normal(draws[0], draws[0]):
                # some other function of one draw
                z = sym('z', 'num', 'notnone')
                c.same('drawn', w + ' value', subst(acc, {draws[0]: z}), z, {'fac': (.5, 2)}, what='drawn value')
            else:
                c.ob('drawn', w + ' value', v, 'drawn as %s' % show(acc))
        else:
            crit = sum((E(info[k][0]) ** 2 for k in group), E(-1))
            rng = unif(draws[0]) if len(draws) == 1 else None
            if rng is None:
                c.undecided('drawn', w + ' range', 'drawn as %s' % show(acc))
            else:
                u = S('U', 'notnone')
                c.same('drawn', w + ' range', subst(acc, {draws[0]: (E(rng[0]) + (E(rng[1]) - E(rng[0])) * u).v}), (2 * u - 1).v, {'U': (0, 1)}, what='coordinate')
            others = [x for k in range(6) if k != i for x in randoms_of(info[k][0])]
            c.ob('drawn', w + ' independent', not set(draws) & set(others), 'drawn from the same random number as another coordinate')
        want = ap(lambda l: ite(V.cmp_lt(l, const(0)), const(1), const(0)), crit.v)
        k = sym('k', 'num', 'int', 'notnone')
        c.same('accepted', w + ' counted', (E(subst(nxt, {sv: k})) - E(k)).v, want, {'fac': (.5, 2)}, what='step of the index after a draw')
        if cond is not None:
            c.same('accepted', w + ' stored', ite(cond, const(1), const(0)), want, {'fac': (.5, 2)}, what='acceptance of a draw')
        c.same('filled', w + ' first', i0, const(0), {}, what='first index')
        t = loop.get('test')
        tv = ite(V.truth(t), const(1), const(0)) if t is not None else None
        if tv is None:
            c.undecided('filled', w + ' last', 'not a while loop')
        else:
            c.same('filled', w + ' last', subst(tv, {sv: sym('k', 'num', 'int', 'notnone')}), ite(V.cmp_lt(sym('k', 'num', 'int', 'notnone'), sym('n', 'num', 'int', 'pos', 'notnone')), const(1), const(0)),
                   {'k': lambda q: float(q.randint(0, 6)), 'n': lambda q: float(q.randint(1, 6))}, what='drawing goes on')


def odd_draw(c, kind, w, v, steps=None):
    """what one pass of the loop stores, written in some other way"""
    draws = list(randoms_of(v))
    old = leaves_of(v, lambda x: isinstance(x, App) and x.op == 'loopread')
    if kind == 'gaussian' and len(draws) == 1 and is_std_normal(draws[0], draws[0]):
        z = sym('z', 'num', 'notnone')
        inside = V.cmp_lt((E(z) ** 2 - E(sym('fac', 'num', 'pos', 'notnone'))).v, const(0))
        rep = {x: const(0.0) for x in old}
        rep[draws[0]] = z
        c.same('accepted', w + ' stored', subst(v, rep), z, {'fac': (.5, 2)}, care=inside, what='value kept of a draw')
        k = sym('k', 'num', 'int', 'notnone')
        for i0, sv, nxt in steps or []:
            rep = {sv: k, draws[0]: z}
            c.same('accepted', w + ' counted', (E(subst(nxt, rep)) - E(k)).v, ite(inside, const(1), const(0)), {'fac': (.5, 2)}, what='step of the index after a draw')
    else:
        c.undecided('drawn', w, show(v))


def ite_cond(v):
    return V.atom(*V.atom_of(v.idx))


def randoms_of(v):
    return leaves_of(v, lambda x: isinstance(x, App) and x.op.startswith('impure:'))


def unif(l):
    """(lower, upper) of a uniform random number"""
    a = [x for x in l.args[1:] if not (isinstance(x, App) and x.op == 'kw')]
    kw = {x.args[0] if isinstance(x.args[0], str) else x.args[0].v: x.args[1] for x in l.args[1:] if isinstance(x, App) and x.op == 'kw'}
    if l.op == 'impure:numpy.random.uniform' or l.op == 'impure:random.uniform':
        return kw.get('low', a[0] if a else const(0.0)), kw.get('high', a[1] if len(a) > 1 else const(1.0))
    return (const(0.0), const(1.0)) if l.op in ('impure:random.random', 'impure:numpy.random.random', 'impure:numpy.random.rand') else None


def is_std_normal(v, l):
    if v is not l:
        return None
    a = [x for x in l.args[1:] if not (isinstance(x, App) and x.op == 'kw')]
    if l.op == 'impure:numpy.random.normal':
        return (len(a) < 1 or a[0] in (const(0), const(0.0))) and (len(a) < 2 or a[1] in (const(1), const(1.0)))
    return True if l.op in ('impure:numpy.random.randn', 'impure:numpy.random.standard_normal') else None
