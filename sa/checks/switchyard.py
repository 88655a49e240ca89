"""Switchyard: coordinates and units of every reader and writer, dispatch."""
from .common import *
from .. import stubs

SW = 'rsbeams.rsdata.switchyard'
SP = 'rsbeams.rsptcls.species'
SD = 'rsbeams.rsdata.SDDS'
ATTRS = ['x', 'ux', 'y', 'uy', 'ct', 'pt']


def setup(readers=False):
    ip = interp()
    stubs.files(ip)
    stub(ip, SD, 'readSDDS', sym('readSDDS', 'obj', 'callable', 'notnone'))
    stub(ip, SD, 'writeSDDS', sym('writeSDDS', 'obj', 'callable', 'notnone'))
    st = ip.fresh(SP, SW)
    return ip, st


SAME_ROWS = ('call:numpy.atleast_1d', 'call:numpy.array', 'call:numpy.asarray', 'call:numpy.squeeze', 'call:numpy.ravel', 'call:numpy.concatenate', 'call:numpy.hstack',
             'call:numpy.copy', 'array')


OTHER_ROWS = {'numpy.unique', 'numpy.sort', 'numpy.flip', 'numpy.flipud', 'numpy.roll', 'numpy.random.permutation', 'numpy.delete', 'numpy.compress', 'drop_duplicates',
              'sort_values', 'sort_index', 'dropna', 'head', 'tail', 'sample', 'query', 'nlargest', 'nsmallest', 'sort', 'iloc', 'loc', 'reindex', 'truncate'}


def other_rows(v):
    """an operation that drops or reorders rows"""
    for x in leaves_of(v, lambda x: isinstance(x, App) and x.op.split(':')[-1] in OTHER_ROWS):
        return x.op.split(':')[-1]
    return None


def rows_of_reader(v):
    """None, or what is done to the rows of the columns read: selections of rows, innermost first"""
    v = strip_shape(v)
    if isinstance(v, App):
        if v.op == 'attr' and v.args[1] is const('columns') and 'readSDDS' in show(v.args[0]):
            return ()
        if v.op in SAME_ROWS and len(v.args) == 1:
            return rows_of_reader(v.args[0])
        if v.op in ('elem', 'getitem') and len(v.args) == 2:
            r = rows_of_reader(v.args[0])
            if r is not None:
                return r if v.args[1] in (const(0), FULL) else r + (v.args[1],)
    return None


def elegant_cols(v):
    """name the columns read from the SDDS file"""
    def f(x):
        if isinstance(x, App) and x.op == 'getitem' and isinstance(x.args[1], Const) and isinstance(x.args[1].v, str):
            r = rows_of_reader(x.args[0])
            if r is not None:
                v = sym('col:' + x.args[1].v, 'num', 'vec', 'pos')
                for k in r:
                    v = app('elem', v, k)
                return v
    return rewrite(unshape(v), f)


def h5path(x):
    """path of an hdf5 access: list of string parts, or None"""
    if isinstance(x, App) and x.op in ('getitem', 'dictget') and len(x.args) >= 2:
        p = h5path(x.args[0])
        if p is None:
            return None
        return p + ['/'] + text(x.args[1])
    if isinstance(x, App) and x.op == 'call:h5py.File':
        return []
    return None


def opal_cols(v):
    def f(x):
        p = h5path(x)
        if p and isinstance(p[-1], str):
            name = p[-1].rsplit('/', 1)[-1] if '/' in p[-1] else p[-1]
            if name:
                return sym('h5:' + name, 'num', 'vec', 'pos')
    return rewrite(unshape(v), f)


def readers(c):
    ip, st = setup()
    V_ = lambda n: S(n, 'vec', 'pos')
    # ---------------- elegant
    f = need(ip, st, SW, 'read_elegant')
    s = st.fork()
    r = ip.call(f, [sym('fname', 'str', 'notnone')], {}, s, None)
    if result_ok(c, 'returns', 'read_elegant', s, r):
        want = {'x': V_('col:x'), 'ux': V_('col:xp') * V_('col:p'), 'y': V_('col:y'), 'uy': V_('col:yp') * V_('col:p'),
                'ct': V_('col:t') * C_LIGHT, 'pt': V_('col:p')}
        for a in ATTRS:
            got = elegant_cols(ip.snap(ip.getattr_(r, a, s, None), s))
            o = other_rows(got)
            if o:
                c.violated('reader-coordinate', 'read_elegant.' + a, 'particles are dropped or reordered by %s' % o)
                continue
            c.same('reader-coordinate', 'read_elegant.' + a, got, want[a].v, care=TRUE, what=a)
        tot = unshape(ip.snap(ip.getattr_(r, 'total_charge', s, None), s))
        species(c, ip, s, r, 'read_elegant')
        q = [l for _, l in cases(tot) if l is not const(0.0)]
        okq = bool(q) and all(isinstance(l, App) and l.op == 'getitem' and l.args[1] is const('Charge') and 'parameters' in show(l.args[0]) for l in q)
        c.ob('reader-charge', 'read_elegant.total_charge', okq, 'total charge is %s' % show(tot))
    no_charge(c)
    opal(c)
    c.floor('reader-coordinate', 10)
    c.visited(ip)
    c.assume += ['readSDDS(...).columns/parameters and h5py datasets are the data of the file (D-properties)']


DUMPS = {'steps 0, 1, 2 and 10': (('0', '1', '10', '2'), 'CHARGE', 10), 'steps 4, 30 and 100': (('100', '30', '4'), 'CHARGE', 100),
         'one step': (('0',), 'TotalCharge', 0), 'steps 8, 9 and other groups': (('8', '9', None), 'CHARGE', 9),
         'steps 3 and 12, total charge': (('12', '3'), 'TotalCharge', 12)}
DATA = ('id', 'px', 'py', 'pz', 'x', 'y', 'z')


def opal(c):
    """every coordinate from the dataset of its name, of the step asked for"""
    seen = set()
    for name, (steps, attr, last) in DUMPS.items():
        for step in [None] + [int(q) for q in steps if q is not None]:
            for charge in ((sym('Q', 'num', 'notnone'), const(0.0)) if step is None else (sym('Q', 'num', 'notnone'),)):
                ip = interp()
                g = stubs.hdf(ip)
                st = ip.fresh(SP, SW)
                s = st.fork()
                D = lambda n, q: sym('%s of step %s' % (n, q), 'num', 'vec', 'pos', 'notnone')
                group = lambda m, a: ip.call(g('Group'), [ip.newdict(s, m), ip.newdict(s, a)], {}, s, None)
                top = []
                for q in steps:
                    m = [(const(n), D(n, q)) for n in DATA]
                    top.append((const('Step#' + q if q is not None else 'Parameters'), group(m, [(const(attr), charge if q == str(step if step is not None else last) else sym('Q of %s' % q, 'num', 'notnone')),
                                                                                              (const('SPOS'), sym('spos', 'num', 'notnone'))])))
                ip.call(g('put'), [group(top, [])], {}, s, None)
                f = need(ip, s, SW, 'read_opal')
                where = 'read_opal of %s, %s%s' % (name, 'no step given' if step is None else 'step %d' % step, '' if isinstance(charge, Sym) else ', charge 0')
                n0 = len(s.pending)
                r = ip.call(f, [sym('fname', 'str', 'notnone')], {} if step is None else {'step_number': const(step)}, s, None)
                if not result_ok(c, 'returns', where, s, r):
                    continue
                bad = [e for p, e in s.pending[n0:] if p.pc is not FALSE]
                if bad:
                    c.undecided('returns', where, 'may raise %s' % clip(show(bad[0])))
                k = last if step is None else step
                V_ = lambda n: E(D(n, k))
                for a, n in (('x', 'x'), ('ux', 'px'), ('y', 'y'), ('uy', 'py')):
                    got = unshape(ip.snap(ip.getattr_(r, a, s, None), s))
                    c.same('reader-coordinate', '%s: %s' % (where, a), got, V_(n).v, what=a)
                got = unshape(ip.snap(ip.getattr_(r, 'pt', s, None), s))
                if got is V_('pz').v:
                    'pz' in seen or c.violated('opal-longitudinal', 'read_opal.pt=pz', 'the longitudinal momentum pz is stored as total momentum')
                else:
                    c.same('reader-coordinate', where + ': pt', got, (V_('px') ** 2 + V_('py') ** 2 + V_('pz') ** 2).sqrt().v, what='pt')
                got = unshape(ip.snap(ip.getattr_(r, 'ct', s, None), s))
                if got is V_('z').v:
                    'z' in seen or c.violated('opal-longitudinal', 'read_opal.ct=z', 'the position z is stored as time of flight')
                elif not mentions(got, {V_('z').v}):
                    c.violated('reader-coordinate', where + ': ct', 'the longitudinal coordinate is %s' % clip(show(got)))
                else:
                    c.undecided('reader-coordinate', where + ': ct', 'longitudinal position of an OPAL file: %s' % clip(show(got)))
                seen |= {'z', 'pz'}
                c.same('reader-charge', where + ': total charge', ip.snap(ip.getattr_(r, 'total_charge', s, None), s), charge, what='total charge')
                species(c, ip, s, r, where)
                c.visited(ip)


def no_charge(c):
    """files without a Charge parameter or without any parameter hold particles all the same"""
    for what in ('no parameter at all', 'other parameters only'):
        ip = interp()
        st = ip.fresh(SP, SW)
        cls = need(ip, st, SP, 'Species')    # only a carrier of the three attributes
        pars = sym('pars', 'obj', 'notnone')

        def reader(ip, st, r, a, kw, n):
            return ip.new(st, Cell('obj', {'columns': sym('cols', 'obj', 'notnone'), 'read': sym('rd', 'callable', 'notnone'),
                                           'parameters': NONE if what.startswith('no') else pars}, cls))
        ip.models['stub.reader'] = reader
        s = st.fork()
        stub(ip, SD, 'readSDDS', ext('stub.reader'))
        fr = ip.modframes[SW]
        s.heap[fr] = ip.withvar(s.heap[fr], 'readSDDS', ext('stub.reader'))
        r = ip.call(need(ip, s, SW, 'read_elegant'), [sym('fname', 'str', 'notnone')], {}, s, None)
        where = 'read_elegant of a file with ' + what
        if s.pc is FALSE or r is BOT:
            c.violated('returns', where, 'raises %s' % (show(s.pending[-1][1]) if s.pending else ''))
            continue
        if what.startswith('no'):
            q = unshape(ip.snap(ip.getattr_(r, 'total_charge', s, None), s))
            q = next((l for k, l in cases(q)), None) if len(cases(q)) == 1 else q
            c.ob('returns', where, q in (const(0), const(0.0), NONE) or None, 'the total charge is %s' % clip(show(q)))
        else:
            # the parameters are a structured array: a field that is not there is a ValueError
            bad = [e for p, e in s.pending if isinstance(e, App) and e.op == 'exc' and p.pc is not FALSE and 'ValueError' in show(e.args[0])]
            c.ob('returns', where, not bad, 'raises %s' % (show(bad[0]) if bad else ''))


def show_full(v):
    return str(leaves_of(v, lambda x: isinstance(x, App)) and ' '.join(x.op + ' ' + ' '.join(str(a.v) for a in x.args if isinstance(a, Const)) for x in leaves_of(v, lambda x: isinstance(x, App))))


def species(c, ip, s, r, where):
    q = ip.getattr_(r, 'charge', s, None)
    m = ip.getattr_(r, 'mass', s, None)
    c.ob('reader-species', where + '.charge', isinstance(q, Const) and q.v == -1, 'electron charge sign is %s' % show(q))
    c.ob('reader-species', where + '.mass', isinstance(m, Const) and isinstance(m.v, (int, float)) and abs(m.v - ME_EV) < 2e2, 'electron mass is %s eV' % show(m))


def holder(ip, s, name='beam'):
    """a switchyard holding one species with generic coordinates"""
    sw = ip.call(need(ip, s, SW, 'Switchyard'), [], {}, s, None)
    X = sym('X', 'num', 'mat', 'square', 'cols6', 'notnone')
    sp = ip.call(need(ip, s, SP, 'Species'), [X], {'charge': const(-1), 'mass': const(511000.0), 'total_charge': sym('Q', 'num')}, s, None)
    d = ip.getattr_(sw, 'species', s, None)
    ip.setitem(d, const(name), sp, s, None)
    return sw, sp, X


def coord(X, i):
    return E(app('elem', X, FULL, const(i)))


def written_elegant(c, ip, s, sw):
    out = ip.call(ip.getattr_(sw, 'write', s, None), [sym('fname', 'str', 'notnone'), const('elegant')], {'species_name': const('beam')}, s, None)
    cols, pars, save = {}, {}, []
    for e in flat(s.events):
        if e.kind != 'method' or not e.args or 'writeSDDS' not in show(e.args[0]):
            continue
        if e.name == 'create_column':
            cols[arg(e, 1, 'colName')] = (arg(e, 2, 'colData'), arg(e, 3, 'colType'), e.kw, e)
        elif e.name == 'create_parameter':
            pars[arg(e, 1, 'parName')] = (arg(e, 2, 'parData'), arg(e, 3, 'parType'), e.kw, e)
        elif e.name == 'save_sdds':
            save.append(e)
    return out, cols, pars, save


def writers(c):
    ip, st = setup()
    need(ip, st, SW, 'Switchyard')
    # ---------------- elegant
    s = st.fork()
    sw, sp, X = holder(ip, s)
    x, ux, y, uy, ct, pt = [coord(X, i) for i in range(6)]
    fname = sym('fname', 'str', 'notnone')
    out, cols, pars, save = written_elegant(c, ip, s, sw)
    c.ob('writer-returns', 'write(elegant)', out is fname, 'write returns %s instead of the file name' % show(out))
    want = {'x': (x, 'm'), 'xp': (ux / pt, ''), 'y': (y, 'm'), 'yp': (uy / pt, ''), 't': (ct / C_LIGHT, 's'), 'p': (pt, 'm$be$nc')}
    if not cols:
        raise AnalysisBroken('no create_column call found in the elegant writer')
    for k, (w, unit) in want.items():
        got = cols.get(const(k))
        if got is None:
            c.violated('writer-column', 'write_elegant.' + k, 'column %s is not written (columns: %s)' % (k, [show(q) for q in cols]))
            continue
        c.same('writer-column', 'write_elegant.' + k, unshape(got[0]), w.v, what='column ' + k, loc=got[3].loc)
        u = got[2].get('colUnits')
        c.ob('writer-unit', 'write_elegant.' + k, u is const(unit) or (unit == '' and (u is None or u in (const(''), const('rad')))),
             'column %s is declared in units %s' % (k, show(u) if u is not None else None), got[3].loc)
        c.ob('writer-type', 'write_elegant.' + k, got[1] is const('double'), 'column %s is declared %s' % (k, show(got[1])), got[3].loc)
    extra = [show(k) for k in cols if not (isinstance(k, Const) and k.v in want)]
    p = pars.get(const('Charge'))
    c.ob('writer-charge', 'write_elegant.Charge', p is not None and p[0] is sym('Q', 'num'), 'parameter Charge is %s' % (show(p[0]) if p else None))
    if p:
        c.ob('writer-unit', 'write_elegant.Charge', p[2].get('parUnits') is const('C'), 'charge is declared in %s' % (show(p[2].get('parUnits')) if p[2].get('parUnits') is not None else None))
    c.ob('writer-target', 'write_elegant', len(save) == 1 and arg(save[0], 1, 'outputfilename', arg(save[0], 1, 'filename')) is fname,
         'the data is saved to the requested file')
    # ---------------- round trip: reader after writer is the identity
    ip2, st2 = setup()
    s2 = st2.fork()
    r = ip2.call(need(ip2, st2, SW, 'read_elegant'), [fname], {}, s2, None)
    for i, a in enumerate(ATTRS):
        t = elegant_cols(ip2.snap(ip2.getattr_(r, a, s2, None), s2))
        m = {sym('col:' + k, 'num', 'vec', 'pos'): unshape(cols[const(k)][0]) for k in want if const(k) in cols}
        c.same('writer-reader-inverse', 'elegant.' + a, subst(t, m), coord(X, i).v, what='%s after write and read' % a)
    # ---------------- genesis
    s = st.fork()
    sw, sp, X = holder(ip, s)
    out = ip.call(ip.getattr_(sw, 'write', s, None), [fname, const('genesis')], {'species_name': const('beam')}, s, None)
    c.ob('writer-returns', 'write(genesis)', out is fname, 'write returns %s' % show(out))
    genesis(c, ip, s, X, fname)
    # ---------------- opal
    s = st.fork()
    sw, sp, X = holder(ip, s)
    out = ip.call(ip.getattr_(sw, 'write', s, None), [fname, const('opal')], {'species_name': const('beam')}, s, None)
    c.ob('writer-returns', 'write(opal)', out is fname, 'write returns %s' % show(out))
    table, head = body(c, ip, s, fname, 'write_opal')
    if table is not None:
        precise(c, 'write_opal', table)
        cols = columns(ip, table, 6)
        o = other_rows(table)
        if o and cols is None:
            c.violated('writer-column', 'write_opal', 'particles are dropped or reordered by %s' % o)
        elif cols is None:
            c.undecided('writer-column', 'write_opal', 'table is %s' % clip(show(table)))
        for i in range(4 if cols else 0):
            c.same('writer-column', 'write_opal.%s' % ATTRS[i], unshape(cols[i]), coord(X, i).v, what='column %d' % i)
        for i, nm in ((4, 'z=ct'), (5, 'pz=pt')) if cols else ():
            got = unshape(cols[i])
            if got is coord(X, i).v:
                c.violated('opal-longitudinal', 'write_opal.' + nm, 'column %d of the OPAL file holds %s' % (i, ATTRS[i]))
            elif i == 5:
                w = (coord(X, 5) ** 2 - coord(X, 1) ** 2 - coord(X, 3) ** 2).sqrt()
                c.same('writer-column', 'write_opal.pz', got, w.v, {'X': (1.0, 2.0)}, what='column pz')
            else:
                c.undecided('writer-column', 'write_opal.z', show(got))
        leaves = [p for p in head if not isinstance(p, str)]
        hs = ''.join(p if isinstance(p, str) else '\x00' for p in head)
        if len(leaves) != 1 or hs.strip(' ') != '\x00\n':
            c.violated('writer-header', 'write_opal', 'first line is %s instead of the particle count' % clip(repr(hs)))
        else:
            number(c, 'write_opal count', leaves[0], X)
    c.floor('writer-column', 12)
    c.visited(ip)


def digits(f):
    """significant digits a format keeps; None when it is not a format of floating point numbers"""
    import re
    f = f.strip('{}').replace(':', '%')
    m = re.fullmatch(r'%[-+ 0#]*\d*(?:\.(\d+))?l?([eEgGfFrs])', f)
    if not m:
        return None
    if m.group(2) in 'rs':
        return 17
    n = int(m.group(1)) if m.group(1) is not None else 6
    return n + 1 if m.group(2) in 'eE' else n if m.group(2) in 'gG' else 0


def contents(ip, s):
    """{path: parts written, in order}, in the order of the files"""
    out = {}
    for e in flat(s.events):
        if e.kind == 'note' and e.name == 'open':
            path, mode, t = e.args
            c = s.heap.get(t.id) if isinstance(t, Ref) else None
            parts = s.heap[c.f['_parts'].id].f['c'] if c is not None and isinstance(c.f.get('_parts'), Ref) else None
            parts = [p[1] for p in parts.segs] if isinstance(parts, Seq) and all(p[0] == 'i' for p in parts.segs) else [None]
            m = mode.v if isinstance(mode, Const) else '?'
            if m.startswith('r'):
                continue
            out[path] = (out.get(path, []) if m.startswith('a') else []) + parts
    return out


def body(c, ip, s, fname, where):
    """table and what stands in front of it in the one file written"""
    fs = contents(ip, s)
    if not fs:
        c.violated('writer-target', where, 'nothing is written')
        return None, []
    c.ob('writer-target', where, set(fs) == {fname}, 'written to %s' % [show(k) for k in fs])
    parts = fs.get(fname)
    if parts is None:
        return None, []
    if None in parts:
        c.undecided('writer-column', where, 'what is written is not understood')
        return None, []
    head, table = [], None
    for p in parts:
        if isinstance(p, App) and p.op in ('csv', 'savetxt'):
            if table is not None:
                c.violated('writer-column', where, 'several tables are written')
                return None, []
            table = p
            if p.op == 'savetxt':
                d, fmt, sep, nl, h, foot, com = p.args
                if h is not const(''):
                    head += text(com) + text(h) + text(nl)
                ok = sep is const(' ') and nl is const('\n') and foot is const('')
            else:
                d, t, sep, fmt, h, index, dt = p.args
                ok = sep is const(' ') and h in (FALSE, const(False), NONE) and index in (FALSE, const(False))
            c.ob('writer-format', where, ok, 'rows are not plain numbers separated by blanks: %s' % [show(q) for q in p.args[1:]])
        elif table is not None:
            if p is not const(''):
                c.violated('writer-format', where, 'something is written behind the particles: %s' % clip(show(p)))
                return None, []
        else:
            head += text(p)
    if table is None:
        c.undecided('writer-column', where, 'no table is written')
    return table, [p for p in head if p != '']


def columns(ip, table, n):
    if table.op == 'csv':
        d, t = table.args[0], table.args[1]
        if t in (TRUE, const(True)):
            d = app('T', d)
        return frame_rows(app('call:pandas.DataFrame', d)) or matrix(ip, d, n)
    d = table.args[0]
    return frame_rows(app('call:pandas.DataFrame', d)) or matrix(ip, d, n)


def matrix(ip, d, n):
    d = unshape(d)
    if isinstance(d, Sym):
        return [ip.elemread(d, (FULL, const(i))) for i in range(n)]
    return None


def precise(c, where, table):
    """numbers are written with their full precision"""
    f = table.args[3] if table.op == 'csv' else table.args[1]
    if f is not NONE:
        n = digits(f.v) if isinstance(f, Const) and isinstance(f.v, str) else None
        c.ob('writer-format', where + ' precision', None if n is None else n >= 15, 'numbers are written as %s' % show(f))
    t = table.args[6] if table.op == 'csv' else NONE
    tab = app('astype', table.args[0], t) if t is not NONE else table
    low = leaves_of(tab, lambda x: isinstance(x, App) and (x.op == 'kw' and x.args[0] in ('dtype', const('dtype')) or x.op in ('astype', 'm:astype', 'm:round', 'call:numpy.round', 'f:round')))
    for x in low:
        t = x.args[1] if len(x.args) > 1 else None
        nm = t.name if isinstance(t, Ext) else t.v if isinstance(t, Const) else '?'
        if x.op in ('m:round', 'call:numpy.round', 'f:round'):
            c.violated('writer-format', where + ' precision', 'numbers are rounded')
        elif str(nm).split('.')[-1] in ('float32', 'f4', '<f4', 'float16', 'single', 'half', 'int', 'int32', 'int64', 'f2', '<f2'):
            c.violated('writer-format', where + ' precision', 'numbers are stored as %s' % nm)


def genesis(c, ip, s, X, fname):
    x, ux, y, uy, ct, pt = [coord(X, i) for i in range(6)]
    t = ct / C_LIGHT
    want = {'X': x, 'PX': ux, 'Y': y, 'PY': uy, 'T': t - E(app('r:mean', t.v)), 'P': pt, 'XPRIME': ux / pt, 'YPRIME': uy / pt}
    table, head = body(c, ip, s, fname, 'write_genesis')
    if table is None:
        return
    hs = ''.join(p if isinstance(p, str) else '\x00' for p in head)
    leaves = [p for p in head if not isinstance(p, str)]
    colline = [ln for ln in hs.split('\n') if 'COLUMNS' in ln]
    if not colline:
        c.violated('writer-column', 'write_genesis', 'no COLUMNS header found')
        return
    names = colline[0].split('COLUMNS', 1)[1].split()
    c.ob('writer-header', 'write_genesis columns', names in (['X', 'PX', 'Y', 'PY', 'T', 'P'],) or set(names) <= set(want) and len(names) == 6, 'columns %s' % names)
    c.ob('writer-header', 'write_genesis lines', all(l.startswith('?') for l in hs.split('\n')[:-1]) and hs.endswith('\n'), 'header is %s' % clip(repr(hs)))
    rows = columns(ip, table, len(names))
    o = other_rows(table)
    if rows is None and o:
        c.violated('writer-column', 'write_genesis', 'particles are dropped or reordered by %s' % o)
        return
    precise(c, 'write_genesis', table)
    if rows is None or len(rows) != len(names):
        c.ob('writer-column', 'write_genesis', None if rows is None else False, 'table %s does not match columns %s' % (clip(show(table)), names))
        return
    for n, r in zip(names, rows):
        if n in want:
            c.same('writer-column', 'write_genesis.' + n, unshape(r), want[n].v, what='column ' + n)
        else:
            c.violated('writer-column', 'write_genesis.' + n, 'unknown column')
    for key, ok in (('CHARGE', lambda p: mentions(p, {sym('Q', 'num')})), ('SIZE', lambda p: mentions(p, {X}))):
        ln = [i for i, l in enumerate(hs.split('\n')) if l.startswith('? ' + key)]
        if not ln:
            c.violated('writer-header', 'write_genesis ' + key, 'header line is missing')
            continue
        k = hs.split('\n')
        idx = sum(l.count('\x00') for l in k[:ln[0]])
        n = k[ln[0]].count('\x00')
        if n != 1 or not ok(leaves[idx]):
            c.violated('writer-header', 'write_genesis ' + key, 'header value %s' % [show(q) for q in leaves[idx:idx + n]])
        elif key == 'SIZE':
            number(c, 'write_genesis SIZE', leaves[idx], X)
        else:
            c.same('writer-header', 'write_genesis CHARGE', plain(leaves[idx]), sym('Q', 'num'), what='total charge')


def plain(p):
    """the number a text is made of"""
    while isinstance(p, App) and p.op in ('str', 'repr', 'fmt', 'format', 'int', 'f:int') and p.args:
        q = [a for a in p.args if isinstance(a, Leaf) and not (isinstance(a, Const) and isinstance(a.v, str))]
        if len(q) != 1:
            break
        f = [a.v for a in p.args if isinstance(a, Const) and isinstance(a.v, str)]
        n = digits('%' + f[0].lstrip('%{:').rstrip('}')) if p.op in ('fmt', 'format') and f and f[0] else None
        if n is not None and n < 15:
            return app('f:round', q[0], const(n))
        p = q[0]
    if isinstance(p, StrV) and len(p.parts) == 1:
        return plain(p.parts[0])
    return p


def number(c, where, p, X):
    """the number of particles"""
    n = sym('n', 'num', 'int', 'pos', 'notnone')

    def f(x):
        if isinstance(x, App) and x.op in ('len', 'shape0', 'm:__len__') and x.args and (x.args[0] is X or rowof(x.args[0], X)):
            return n
        if isinstance(x, App) and x.op == 'elem' and len(x.args) == 2 and x.args[1] is const(0) and isinstance(x.args[0], App) and x.args[0].op in ('attr', 'shape') and \
                (x.args[0].args[0] is X or rowof(x.args[0].args[0], X)) and (x.args[0].op == 'shape' or x.args[0].args[1] is const('shape')):
            return n
        if isinstance(x, App) and x.op in ('attr', 'size') and rowof(x.args[0], X) and (x.op == 'size' or x.args[1] is const('size')):
            return n
    c.same('writer-header', where, rewrite(plain(p), f), n, what='number of particles')


def rowof(v, X):
    """a column of the particles, or the same particles"""
    while isinstance(v, App) and v.op == 'elem' and v.args[1] is FULL:
        if len(v.args) == 3 and isinstance(v.args[2], Const) and v.args[0] is X:
            return True
        v = v.args[0]
    return False


def frame_rows(v):
    """columns of a DataFrame built from rows and transposed, of a dict, or of a stacked array"""
    v = unshape(v)
    t = False
    if isinstance(v, App) and v.op == 'T':
        t = True
        v = v.args[0]
    if isinstance(v, App) and v.op == 'attr' and v.args[1] is const('T'):
        t = True
        v = v.args[0]
    if isinstance(v, App) and v.op == 'call:pandas.DataFrame':
        d = v.args[0]
        if isinstance(d, App) and d.op == 'T':
            t = not t
            d = d.args[0]
        if isinstance(d, App) and d.op == 'kw' and d.args[0] in ('data', const('data')):
            d = d.args[1]
        if isinstance(d, App) and d.op in ('list', 'array', 'tuple') and t:
            return list(d.args)
        if isinstance(d, App) and d.op == 'dict' and not t:
            return [p.args[1] for p in d.args]
        if isinstance(d, App) and d.op == 'arr':
            v, t = d, t
    if isinstance(v, App) and v.op == 'arr' and not t:
        cols = []
        for stq in v.args[1:]:
            if stq.op != 'store':
                return None
            cols.append(stq.args[1])
        return cols
    if isinstance(v, App) and v.op in ('list', 'array') and t:
        return list(v.args)
    return None


def dispatch(c):
    ip, st = setup()
    need(ip, st, SW, 'Switchyard')
    stub(ip, SW, 'read_elegant', sym('rd_elegant', 'obj', 'callable', 'notnone'))
    stub(ip, SW, 'read_opal', sym('rd_opal', 'obj', 'callable', 'notnone'))
    st = ip.base.fork()
    fname = sym('fname', 'str', 'notnone')
    # supported codes
    s = st.fork()
    sw = ip.call(ip.glob(s, SW, 'Switchyard'), [], {}, s, None)
    codes = ip.call(ip.getattr_(sw, 'supported_codes', s, None), [], {}, s, None)
    lst = [x[1].v for x in ip.iterate(codes, s, None) if x[0] == 'i' and isinstance(x[1], Const)]
    if not lst:
        raise AnalysisBroken('supported_codes() gives no constant list')
    for code in lst:
        v = ip.call(ip.getattr_(sw, 'is_supported', s, None), [const(code)], {}, s, None)
        c.ob('supported', 'is_supported(%s)' % code, v is TRUE, 'is %s' % show(v))
    v = ip.call(ip.getattr_(sw, 'is_supported', s, None), [const('no_such_code')], {}, s, None)
    c.ob('supported', 'is_supported(unknown)', v is FALSE, 'is %s' % show(v))
    old = sym('old_species', 'obj', 'notnone')
    other = sym('other_species', 'obj', 'notnone')
    defaults = {}
    for code in lst + ['no_such_code', 'ELEGANT', 'opal2']:
        for nm in ('beam', None):
            for present in (False, True):
                s = st.fork()
                sw = ip.call(ip.glob(s, SW, 'Switchyard'), [], {}, s, None)
                d = ip.getattr_(sw, 'species', s, None)
                ip.setitem(d, const('another'), other, s, None)
                key = nm or defaults.get('read')
                if present and key:
                    ip.setitem(d, const(key), old, s, None)
                elif present:
                    continue
                kw = {'opt': sym('opt')}
                if nm:
                    kw['species_name'] = const(nm)
                w = 'read(%s, species_name=%s%s)' % (code, nm, ', name taken' if present else '')
                r = ip.call(ip.getattr_(sw, 'read', s, None), [fname, const(code)], kw, s, None)
                d = ip.getattr_(sw, 'species', s, None)
                after = {k.v: v for k, v in st_dict(s, d).items() if isinstance(k, Const)} if r is not BOT else None
                if code not in lst:
                    c.ob('unknown-format', w, r is BOT and any(exc_name(e) in ('LookupError', 'KeyError') for _, e in s.pending),
                         'must raise LookupError, raises %s' % [exc_name(e) for _, e in s.pending])
                    continue
                if r is BOT:
                    if [exc_name(e) for _, e in s.pending] == ['LookupError']:
                        c.violated('reader-for-supported-code', 'read(%s)' % code, 'a supported code cannot be read')
                    else:
                        c.violated('registers', w, 'reading raises %s' % [exc_name(e) for _, e in s.pending])
                    continue
                keys = [k for k in after if k != 'another']
                c.ob('leaves-others', w, after.get('another') is other, 'an unrelated species became %s' % show(after.get('another')))
                if len(keys) != 1:
                    c.violated('registers', w, 'registered names %s' % keys)
                    continue
                if nm is None:
                    defaults.setdefault('read', keys[0])
                val = after[keys[0]]
                if present:
                    c.ob('no-overwrite', w, val is old, 'the registered species became %s' % show(val))
                else:
                    rd = sym('rd_' + code, 'obj', 'callable', 'notnone')
                    ok = isinstance(val, App) and val.op == 'callv' and val.args[0] is rd and fname in val.args
                    c.ob('registers', w, ok and keys[0] == (nm or defaults['read']), '%s -> %s' % (keys[0], show(val)))
                    c.ob('forwards-arguments', w, mentions(val, {sym('opt')}), 'reader is called as %s' % show(val))
    # writers: every supported code dispatches to the method that writes that format
    meth = {'elegant': 'write_elegant', 'genesis': 'write_genesis', 'opal': 'write_opal'}
    for code in lst:
        for nm in ('beam', None):
            s = st.fork()
            sw = ip.call(ip.glob(s, SW, 'Switchyard'), [], {}, s, None)
            d = ip.getattr_(sw, 'species', s, None)
            key = nm or defaults.get('read', 'species_0')
            X = sym('X', 'num', 'mat', 'square', 'cols6', 'notnone')
            sp = ip.call(need(ip, s, SP, 'Species'), [X], {'total_charge': sym('Q', 'num')}, s, None)
            other_sp = ip.call(need(ip, s, SP, 'Species'), [sym('X2', 'num', 'mat', 'square', 'notnone')], {'total_charge': sym('Q2', 'num')}, s, None)
            for k, v in sorted([(key, sp), ('another', other_sp), ('z_last', other_sp)], key=lambda q: (q[0] != key, q[0]) if nm is None else q[0]):
                ip.setitem(d, const(k), v, s, None)
            kw = {'species_name': const(nm)} if nm else {}
            r = ip.call(ip.getattr_(sw, 'write', s, None), [fname, const(code)], kw, s, None)
            hit = {'elegant'} if any(e.name == 'create_column' for e in flat(s.events)) else set()
            got = []
            for q in contents(ip, s).values():
                hit.add('genesis' if any('VERSION' in p for l in q if l is not None for p in text(l) if isinstance(p, str)) else 'opal')
                got += [l for l in q if l is not None]
            c.ob('writes-format', 'write(%s, species_name=%s)' % (code, nm), r is not BOT and (hit == {code} or (None if not hit else False)),
                 'formats written: %s%s' % (sorted(hit), '' if r is not BOT else ', raises %s' % [exc_name(e) for _, e in s.pending]))
            got += [a for e in flat(s.events) for a in list(e.args) + list(e.kw.values()) if isinstance(a, (Leaf, Ite))]
            if any(mentions(a, {X, sym('Q', 'num'), sym('X2', 'num', 'mat', 'square', 'notnone')}) for a in got):
                c.ob('writes-format', 'write(%s, species_name=%s): species' % (code, nm),
                     any(mentions(a, {X}) for a in got) and not any(mentions(a, {sym('X2', 'num', 'mat', 'square', 'notnone'), sym('Q2', 'num')}) for a in got),
                     'another species is written')
    # genesis takes an option
    s = st.fork()
    sw, sp, X = holder(ip, s)
    ip.call(ip.getattr_(sw, 'write', s, None), [fname, const('genesis')], {'species_name': const('beam'), 'version': sym('ver', 'str')}, s, None)
    c.ob('forwards-arguments', 'write(genesis, version=v)', any(mentions(a, {sym('ver', 'str')}) for q in contents(ip, s).values() for a in q if isinstance(a, (Leaf, Ite))),
         'the option does not reach the file')
    s = st.fork()
    sw, sp, X = holder(ip, s)
    n0 = len(s.events)
    r = ip.call(ip.getattr_(sw, 'write', s, None), [fname, const('no_such_code')], {'species_name': const('beam')}, s, None)
    c.ob('unknown-format', 'write(unknown)', r is BOT and not contents(ip, s) and not [e for e in flat(s.events[n0:]) if e.name == 'save_sdds'],
         'writing an unknown format must raise and write nothing')
    c.floor('registers', 4)
    c.floor('writes-format', 6)
    c.visited(ip)


def st_dict(s, d):
    c = s.heap[d.id]
    if c.kind == 'obj':
        c = s.heap[c.f['$dict'].id]
    return {k: c.f[k] for k in c.x if k in c.f and c.f[k] is not MISSING}


def exc_name(e):
    if isinstance(e, App) and e.op == 'exc' and e.args and isinstance(e.args[0], Ext):
        return e.args[0].name
    return show(e)
