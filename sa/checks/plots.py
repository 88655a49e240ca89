"""plots: what is drawn where, in which units, under which label"""
from .common import *
from .. import stubs
from ..check import foreign
from ..interp import Cell

U = 'rsbeams.rsplot.util'
BP = 'rsbeams.rsplot.beam_plots'
SC = 'rsbeams.rsplot.RsScatterPS6D'
PP = 'rsbeams.rsplot.plot_ptcls'
COLOURS = {'tab:green': ('KQUAD', 'QUAD'), 'tab:red': ('SBEND', 'CSBEND', 'CSRCSBEND', 'RBEND', 'SBEN'), 'tab:blue': ('SEXT',),
           'tab:orange': ('RFCW', 'RFCA'), 'tab:purple': ('OCTU', 'KOCT')}
OTHER = ('DRIF', 'MARK', 'WATCH', 'CSRDRIFT', 'MONI', 'HKICK')
GREEK = dict(a='alpha', b='beta', g='gamma', d='delta', e='varepsilon', z='zeta', c='eta', G='Gamma', D='Delta', Q='Theta', q='theta', i='iota',
             k='kappa', l='lambda', m='mu', n='nu', x='xi', L='Lambda', X='Xi', P='Pi', p='pi', r='rho', s='sigma', t='tau', S='Sigma', U='Upsilon',
             F='Phi', u='upsilon', f='phi', v='chi', y='psi', w='omega', Y='Psi', W='Omega')


def setup(*mods):
    ip = interp(4000000)
    g, t = stubs.plots(ip), stubs.table_(ip)
    st = ip.fresh(*mods)
    return ip, st, g, t


def items(ip, s, v):
    if isinstance(v, Tup):
        return list(v.items)
    if isinstance(v, App) and v.op in ('list', 'array', 'tuple'):
        return list(v.args)
    if isinstance(v, Ref):
        c = s.heap[v.id]
        if c.kind == 'arr':
            return items(ip, s, ip.snap(v, s))
        if c.kind == 'list':
            return ip.elems(c)
    return None


def arr(ip, s, xs):
    return ip.newlist(s, list(xs), True)


class Drawn:
    """one artist as it is at the end"""

    def __init__(self, ip, s, v):
        g = lambda nm: ip.getattr_(v, nm, s, None)
        self.v = v
        self.kind, self.args, self.kw, self.gone = '?', [], {}, False
        k = g('_kind') if isinstance(v, Ref) else None
        if not isinstance(k, Const):
            return
        self.kind = k.v
        self.args = items(ip, s, g('_args')) or []
        d = g('_kw')
        c = s.heap[d.id]
        for k in c.x or ():
            self.kw[k.v if isinstance(k, Const) else k] = c.f[k]
        self.gone = g('_removed') is not FALSE and g('_removed') != const(False)

    def arg(self, i, *names, default=None):
        for nm in names:
            if nm in self.kw:
                return self.kw[nm]
        return self.args[i] if i is not None and i < len(self.args) else default


def panel(ip, s, ax):
    calls = items(ip, s, ip.getattr_(ax, '_calls', s, None))
    return None if calls is None else [d for d in (Drawn(ip, s, v) for v in calls) if not d.gone]


def panels(ip, s, g):
    out = items(ip, s, ip.base.heap and s.heap[ip.modframes['$plots']].f['_axes'])
    return [] if out is None else [panel(ip, s, a) for a in out]


def log(ip, s, name):
    return items(ip, s, s.heap[ip.modframes['$plots']].f[name])


def kinds(p, kind):
    return [d for d in p if d.kind == kind]


def setting(p, name):
    """the last value given to a property of the axes"""
    v = None
    for d in p:
        if d.kind == 'set_' + name:
            v = d.arg(0, name)
        elif d.kind == 'set' and name in d.kw:
            v = d.kw[name]
    return v


def agree(v, w, dom=None):
    return identity.agree(v, w, dom, TRUE, n=8)[0] is True


def snap(ip, s, v):
    return ip.snap(v, s) if isinstance(v, Ref) else ap(lambda l: ip.snap(l, s) if isinstance(l, Ref) else l, v) if isinstance(v, Ite) else v


# ------------------------------------------------------------------------ the magnet profile

def profile(c):
    every = [t for ts in COLOURS.values() for t in ts]
    lines = {'every type': [x for i, t in enumerate(every) for x in (OTHER[i % len(OTHER)], t)] + ['DRIF'],
             'magnets first and next to each other': ['QUAD', 'SBEN', 'SBEN', 'DRIF', 'DRIF', 'SEXT'],
             'one magnet': ['KQUAD'], 'one drift': ['DRIF']}
    colour = {t: k for k, ts in COLOURS.items() for t in ts}
    sc, h = sym('scale', 'num', 'notnone', 'pos'), sym('height', 'num', 'notnone', 'pos')
    for name, types in lines.items():
        for opts, (k, hh) in (({}, (E(const(1)), E(const(0.25)))), ({'scale': sc, 'height': h}, (E(sc), E(h)))):
            ip, st, g, t = setup(U)
            f = need(ip, st, U, 'plot_profile')
            s = st.fork()
            pos = [S('s%d' % i, 'notnone', 'pos') for i in range(len(types))]
            d = ip.newdict(s, [(const('ElementName'), arr(ip, s, [const('E%d' % i) for i in range(len(types))])), (const('s'), arr(ip, s, [p.v for p in pos])),
                               (const('ElementType'), arr(ip, s, [const(x) for x in types]))])
            tab = ip.call(t('Table'), [d, const(len(types))], {}, s, None)
            ax = ip.call(g('Axes'), [], {}, s, None)
            where = 'plot_profile of %s%s' % (name, ', scaled' if opts else '')
            r = ip.call(f, [tab, ax], dict(opts), s, None)
            if not result_ok(c, 'profile', where, s, r):
                continue
            crashes(c, 'profile', where, s)
            p = panel(ip, s, ax)
            if p is None:
                c.undecided('profile', where, 'what is drawn is not one sequence')
                continue
            want = [(pos[i - 1] * k if i else E(const(0)), (pos[i] - (pos[i - 1] if i else E(const(0)))) * k, colour[x]) for i, x in enumerate(types) if x in colour]
            check_profile(c, ip, s, where, p, r, want, pos[-1] * k, hh)
            c.visited(ip)
    quantities(c)
    symbols(c)
    c.floor('profile', 8)
    c.assume += ['matplotlib: Rectangle((x, y), width, height), PatchCollection(patches, facecolor=...), plot(x, y) and imshow(data, extent, origin) draw what they are documented to draw']


def check_profile(c, ip, s, where, p, r, want, end, h):
    added = kinds(p, 'add_collection')
    got = None
    loose = kinds(p, 'add_patch')
    if len(added) == 1 and not loose:
        v = added[0].arg(0, 'collection')
        c.ob('profile', where + ' returns', r is v if isinstance(v, Ref) and isinstance(r, (Ref, Const, Num, Sym, Tup)) else None, 'the collection returned is not the one on the axes')
        if isinstance(v, Ref):
            col = Drawn(ip, s, v)
            if col.kind == 'PatchCollection':
                got = [Drawn(ip, s, x) for x in items(ip, s, col.args[0]) or []] if items(ip, s, col.args[0]) is not None else None
    elif not added and not loose:
        c.violated('profile', where, 'no elements are added to the axes')
        return
    if got is None or any(x.kind != 'Rectangle' for x in got):
        c.undecided('profile', where, 'elements are drawn in another way')
        return
    if len(got) != len(want):
        c.violated('profile', where, '%d elements are drawn where the beamline has %d' % (len(got), len(want)))
        return
    fc = None
    for nm in ('facecolor', 'facecolors', 'fc', 'color'):
        fc = fc or col.kw.get(nm)
    fcs = items(ip, s, fc) if fc is not None else None
    for i, (x, w, colour) in enumerate(want):
        b = got[i]
        xy = items(ip, s, b.arg(0, 'xy'))
        one = '%s: element %d (%s)' % (where, i, colour)
        if xy is None or len(xy) != 2 or b.arg(1, 'width') is None or b.arg(2, 'height') is None:
            c.undecided('profile', one, 'rectangle is not understood')
            continue
        c.same('profile', one + ' start', xy[0], x.v, care=s.pc, what='start of the element')
        c.same('profile', one + ' length', b.arg(1, 'width'), w.v, care=s.pc, what='length of the element')
        c.same('profile', one + ' height', b.arg(2, 'height'), h.v, care=s.pc, what='height of the element')
        c.same('profile', one + ' centre', (E(xy[1]) + E(b.arg(2, 'height')) / 2).v, const(0), care=s.pc, what='vertical centre of the element')
        own = b.arg(None, 'facecolor', 'fc', 'color')
        v = fcs[i] if fcs is not None and len(fcs) == len(got) else own
        if v is None and fc is None and 'match_original' not in col.kw and col.arg(1) in (None, const(False), FALSE):
            c.violated('profile', one + ' colour', 'the elements have no colour of their type')
            continue
        c.ob('profile', one + ' colour', None if not isinstance(v, Const) else v.v == colour, 'an element of this type is drawn in %s' % show(v) if v is not None else 'colour is not understood')
    ends = [const(0), end.v] + [v for x, w, colour in want for v in (x.v, (x + w).v)]
    lines = [(items(ip, s, d.arg(0, 'x')), items(ip, s, d.arg(1, 'y'))) for d in kinds(p, 'plot')]
    lines += [([d.arg(1, 'xmin'), d.arg(2, 'xmax')], [d.arg(0, 'y')]) for d in kinds(p, 'hlines')]
    ok = any(x and y and agree(x[0], const(0)) and agree(x[-1], end.v) and all(agree(q, const(0)) for q in y) for x, y in lines)
    for i, (x, y) in enumerate(lines):
        for j, q in enumerate(x or ()):
            if q is None or any(agree(q, w) for w in ends):
                continue
            c.same('profile', '%s line %d, point %d' % (where, i, j), q, end.v, care=s.pc, what='lines are drawn between ends of elements; a point of a line')
    c.ob('profile', where + ' line', True if ok else None if any(x is None or y is None for x, y in lines) else False, 'no line from the start to the end of the beamline')


# ------------------------------------------------------------------------ text of labels

def formatted(text, tex=True):
    out, mode, special = '', None, False
    it = iter(text)
    for ch in it:
        if ch == '$':
            ch = next(it, '')
            if ch in 'anb':
                out += {'a': '^{', 'n': '}', 'b': '_{'}.get(ch, '')
            else:
                mode = ch
        elif mode == 'g' and ch in GREEK:
            out += '\\' + GREEK[ch]
        elif mode == 's' and ch == 'a':
            out += '\\pm'
        else:
            out += ch
    return '$' + out + '$' if tex else out


def symbols(c):
    """the text is translated one character at a time: every state of the translation, every character"""
    ip, st, g, t = setup(U)
    f = need(ip, st, U, 'format_symbol')
    chars = [chr(i) for i in range(32, 127) if chr(i) != '$']
    texts = [pre + ch + post for pre, post in (('', ''), ('$g', '$r'), ('$s', ''), ('$ga$r', 'g'), ('$gs$sa$e', 'a'), ('x$a', '$n'), ('$b', '$nz')) for ch in
             (chars if c.thorough or pre in ('$g', '$s') else 'azgGx012 {}')]
    texts += ['', '$gs$r$bx$n', '$ge$r$bx$n (m$a2$n)', '$gb$bx$n', '$gDg$r/$gg', 'x$gabc', '$gs$bx$n', 'm$be$nc', '$gb$by$n$r (m)']
    for tex in (True, False):
        bad = []
        und = []
        for x in texts:
            s = st.fork()
            r = ip.call(f, [const(x)], {} if tex else {'matplotlib': const(False)}, s, None)
            if r is BOT or isinstance(r, Const) and r.v != formatted(x, tex):
                bad.append((x, show(r)))
            elif not isinstance(r, Const):
                und.append(x)
        v = False if bad else None if und else True
        c.ob('symbol', 'format_symbol%s: %d texts' % ('' if tex else ' without mathtext', len(texts)), v,
             'text %r becomes %s where %r is meant' % (bad[0][0], bad[0][1], formatted(bad[0][0], tex)) if bad else 'text %r' % und[0] if und else '')
    c.visited(ip)


def sdds(ip, s, t, pages, parameters, texts):
    """pages: list of {name: value}"""
    tabs = []
    for cols in pages:
        n = cols.pop('#', None)
        d = ip.newdict(s, [(const(k), v) for k, v in cols.items()])
        tabs.append(ip.call(t('Table'), [d, n if n is not None else sym('nrows', 'num', 'int', 'pos', 'notnone')], {}, s, None))
    if parameters is None:
        par = NONE
    else:
        par = ip.newlist(s, [ip.call(t('Record'), [ip.newdict(s, [(const(k), v) for k, v in q.items()])], {}, s, None) for q in parameters])
    tx = ip.newdict(s, [(const(k), tup([const(x) for x in v])) for k, v in texts.items()])
    return ip.call(t('Sdds'), [ip.newlist(s, tabs), par, tx], {}, s, None)


TEXTS = {'s': ('', 'position', 'm'), 'Sx': ('$gs$r$bx$n', 'beam size', 'm'), 'Sy': ('$gs$r$by$n', 'vertical beam size', 'm'),
         'enx': ('', 'normalized emittance', 'm$be$nc'), 'ratio': ('R', 'some ratio', ''), 'alpha': ('', 'a slope', '')}


def quantities(c):
    cases_ = [('the default quantities', None, 0), ('three quantities', ['enx', 'ratio', 'Sx'], 0), ('one quantity of the second page', ['alpha'], 1), ('no quantity named', [], 0)]
    for name, qs, page in cases_:
        for xlim, ylim, save in ((None, None, None), (('x0', 'x1'), ('y0', 'y1'), 'plot.png')):
            ip, st, g, t = setup(U, BP)
            f = need(ip, st, BP, 'beamline_profile')
            s = st.fork()
            pages = []
            for p in range(2):
                n = 4
                cols = {k: arr(ip, s, [sym('%s%d_%d' % (k, p, i), 'num', 'notnone', 'pos') for i in range(n)]) for k in TEXTS}
                cols['ElementType'] = arr(ip, s, [const(x) for x in ('DRIF', 'QUAD', 'DRIF', 'SBEN')])
                cols['#'] = const(n)
                pages.append(cols)
            o = sdds(ip, s, t, pages, [{}, {}], TEXTS)
            kw = {}
            if qs is not None:
                kw['quantities'] = ip.newlist(s, [const(q) for q in qs])
            if page:
                kw['page'] = const(page)
            lim = {}
            for nm, v in (('xlim', xlim), ('ylim', ylim)):
                if v:
                    lim[nm] = [sym(q, 'num', 'notnone') for q in v]
                    kw[nm] = tup(lim[nm])
            if save:
                kw['save'] = const(save)
            where = 'beamline_profile of %s%s' % (name, ' with limits, saved' if save else '')
            r = ip.call(f, [o], kw, s, None)
            if not result_ok(c, 'quantities', where, s, r):
                continue
            crashes(c, 'quantities', where, s)
            ps = panels(ip, s, g)
            if any(p is None for p in ps):
                c.undecided('quantities', where, 'what is drawn is not one sequence')
                continue
            names = qs or ['Sx', 'Sy']
            col = lambda k: [sym('%s%d_%d' % (k, page, i), 'num', 'notnone', 'pos') for i in range(4)]
            curves = [(p, d) for p in ps for d in kinds(p, 'plot') if d.kw.get('label') is not None]
            labels = [formatted(TEXTS[q][0]) if TEXTS[q][0] else TEXTS[q][1] for q in names]
            got = {}
            for p, d in curves:
                if isinstance(d.kw['label'], Const):
                    got.setdefault(d.kw['label'].v, []).append((p, d))
            home = None
            for q, lb in zip(names, labels):
                if len(got.get(lb, ())) != 1:
                    c.violated('quantities', '%s: %s' % (where, q), 'no single curve is labelled %r (labels: %s)' % (lb, sorted(got)))
                    continue
                home, d = got[lb][0]
                x, y = (snap(ip, s, d.arg(i, nm)) for i, nm in ((0, 'x'), (1, 'y')))
                c.same('quantities', '%s: position of %s' % (where, q), x, app('array', *col('s')), care=s.pc, what='horizontal axis')
                c.same('quantities', '%s: values of %s' % (where, q), y, app('array', *col(q)), care=s.pc, what='vertical axis')
            if home is None:
                continue
            c.ob('quantities', where + ': number of curves', len(curves) == len(names), '%d curves' % len(curves))
            c.ob('quantities', where + ': legend', bool(kinds(home, 'legend')), 'the curves are not named in a legend')
            xl, yl = setting(home, 'xlabel'), setting(home, 'ylabel')
            c.ob('quantities', where + ': horizontal label', xl is const('s (m)'), 'label is %s' % show(xl) if xl is not None else 'no label')
            w = ','.join(labels) + ' (' + ','.join(formatted(TEXTS[q][2]) if TEXTS[q][2] else '$-$' for q in names) + ')'
            c.ob('quantities', where + ': vertical label', None if yl is not None and not isinstance(yl, Const) else yl is const(w), 'label is %s' % show(yl) if yl is not None else 'no label')
            for nm in ('xlim', 'ylim'):
                last = [d for d in home if d.kind == 'set_' + nm]
                if nm in lim:
                    v = items(ip, s, last[-1].args[0]) if last and len(last[-1].args) == 1 else last[-1].args if last else None
                    c.ob('quantities', '%s: %s' % (where, nm), bool(last) and v == lim[nm], 'the range asked for is not used')
                else:
                    c.ob('quantities', '%s: %s' % (where, nm), not last, 'a range is set that was not asked for')
            saved(c, ip, s, 'quantities', where, save)
            if page == 0:
                prof = [p for p in ps if kinds(p, 'add_collection')]
                c.ob('quantities', where + ': magnets', len(prof) == 1, 'the magnet profile is not drawn')
                if len(prof) == 1:
                    pos = [E(x) for x in col('s')]
                    check_profile_of(c, ip, s, where, prof[0], pos)
    c.floor('quantities', 10)


def check_profile_of(c, ip, s, where, p, pos):
    v = kinds(p, 'add_collection')[0].arg(0, 'collection')
    if isinstance(v, Ref):
        check_profile(c, ip, s, where + ', magnets', p, v, [(pos[0], pos[1] - pos[0], 'tab:green'), (pos[2], pos[3] - pos[2], 'tab:red')], pos[3], E(const(0.25)))


def saved(c, ip, s, rule, where, save):
    got = log(ip, s, '_saved')
    if save is None:
        c.ob(rule, where + ': nothing saved', got == [], 'a file is written that was not asked for')
    else:
        names = [items(ip, s, x.items[1])[0] if isinstance(x, Tup) else None for x in got or []]
        c.ob(rule, where + ': saved', names == [const(save)], 'the plot is not saved under the name given')


# ------------------------------------------------------------------------ phase space

def centres(name, f=None):
    v = [(S(name + ':0', 'notnone', 'pos') + (i + E(const(0.5))) * S(name + ':w', 'notnone', 'pos')) for i in range(4)]
    return [(x if f is None else x * f).v for x in v]


def counts(k):
    return [S('h%d:n%d' % (k, i), 'notnone', 'pos') for i in range(4)]


def plainhist(h, n):
    return all(x is NONE or x is None for x in h[n:])


def image(c, ip, s, rule, where, p, x, y, bins=None):
    """one image of the density in the plane (x, y): the histogram is that of the data, the counts and the extent are its own"""
    im = kinds(p, 'imshow')
    if not im:
        if kinds(p, 'pcolormesh') or kinds(p, 'hist2d'):
            return c.undecided(rule, where, 'density is drawn in another way')
        return c.violated(rule, where, 'no density is drawn')
    d = im[-1]
    hs = [items(ip, s, h) for h in log(ip, s, '_hist2d') or []]
    v = snap(ip, s, d.arg(0, 'X'))
    k = None
    flipped = False
    for i in range(len(hs)):
        n = sym('g%d:n' % i, 'num', 'mat', 'notnone')
        if mentions(v, {n}):
            k = i
            if v is n:
                flipped = True
            elif not (isinstance(v, App) and v.op in ('m:transpose', 'attr', 'call:numpy.transpose', 'T') and v.args[0] is n):
                return c.undecided(rule, where, 'image is %s' % show(v))
    if k is None:
        return c.undecided(rule, where, 'image is %s' % clip(show(v)))
    h = hs[k]
    if not plainhist(h, 3):
        c.violated(rule, where + ' histogram', 'the histogram is weighted, normalised or limited to a range')
    a, b = (x, y) if not flipped else (y, x)
    c.same(rule, where + ' horizontal data', snap(ip, s, h[0]), a.v, DOM, care=s.pc, what='data of the first axis of the histogram')
    c.same(rule, where + ' vertical data', snap(ip, s, h[1]), b.v, DOM, care=s.pc, what='data of the second axis of the histogram')
    if bins is not None:
        c.same(rule, where + ' bins', h[2], bins, care=s.pc, what='number of bins')
    e = items(ip, s, d.arg(None, 'extent'))
    first, last = ('g%dx' % k, 'g%dy' % k) if not flipped else ('g%dy' % k, 'g%dx' % k)
    lo = lambda q: S(q + ':0', 'notnone', 'pos').v
    hi = lambda q: (S(q + ':0', 'notnone', 'pos') + 4 * S(q + ':w', 'notnone', 'pos')).v
    want = [lo(first), hi(first), lo(last), hi(last)]
    if e is None or len(e) != 4:
        c.ob(rule, where + ' extent', False if d.kw.get('extent') is None else None, 'the extent of the image is not that of the data')
    else:
        for nm, q, w in zip(('left', 'right', 'bottom', 'top'), e, want):
            c.same(rule, where + ' ' + nm, q, w, care=s.pc, what='edge of the image')
    o = d.kw.get('origin')
    c.ob(rule, where + ' origin', None if o is not None and not isinstance(o, Const) else o is const('lower'), 'the image is drawn upside down')
    return True


def labelled(ps, x, y):
    """panels with these labels (None: any)"""
    return [p for p in ps if (x is None or setting(p, 'xlabel') is const(x)) and (y is None or setting(p, 'ylabel') is const(y))]


DOM = {}


def projection(c, ip, s, rule, where, p, data, scale, swap, yw=None):
    """a curve of the histogram of data (in plotted units): centres of the bins against counts, or the reverse"""
    ds = kinds(p, 'plot')
    if len(ds) != 1:
        return c.ob(rule, where, False if not ds else None, '%d curves' % len(ds))
    d = ds[0]
    x, y = (items(ip, s, snap(ip, s, V.restrict(d.arg(i, nm), s.pc))) for i, nm in ((0, 'x'), (1, 'y')))
    if swap:
        x, y = y, x
    if x is None or y is None or len(x) != 4 or len(y) != 4:
        xs = [snap(ip, s, d.arg(i, nm)) for i, nm in ((0, 'x'), (1, 'y'))]
        plain = [q for q in xs if q is None or isinstance(q, (Const, Sym, Num)) or q is NONE or isinstance(q, App) and q.op == 'array']
        return c.ob(rule, where, False if plain and not any(isinstance(q, Leaf) and foreign(q, NONE) for q in xs) and any(items(ip, s, q) is None or len(items(ip, s, q)) != 4 for q in plain) else None,
                    'curve is %s' % ' against '.join(clip(show(q), 100) for q in xs))
    hs = [items(ip, s, h) for h in log(ip, s, '_hist') or []]
    ks = [k for k in range(len(hs)) if any(mentions(q, {S('h%d:0' % k, 'notnone', 'pos').v, S('h%d:w' % k, 'notnone', 'pos').v}) for q in x)]
    if len(ks) != 1:
        return c.violated(rule, where, 'the horizontal values are not the bins of one histogram')
    k = ks[0]
    h = hs[k]
    if not plainhist(h, 2):
        c.violated(rule, where + ' histogram', 'the histogram is weighted, normalised or limited to a range')
    base = snap(ip, s, h[0])
    f = None
    for cand in (E(const(1)), scale):
        if identity.agree((E(base) * cand).v, data.v, DOM, s.pc, n=8)[0] is True:
            f = cand
            break
    if f is None:
        return c.same(rule, where + ' data', base, (data / scale).v if identity.agree(x[0], centres('h%d' % k, scale)[0], DOM, s.pc, n=8)[0] is True else data.v, DOM, care=s.pc, what='data of the histogram')
    c.holds(rule, where + ' data')
    for i, (q, w) in enumerate(zip(x, centres('h%d' % k, f))):
        c.same(rule, where + ' bin %d' % i, edge(q, k, h[1], w, s.pc), w, DOM, care=s.pc, what='centre of the bin')
    n = counts(k)
    wy = n if yw is None else yw(k, n, f)
    for i, (q, w) in enumerate(zip(y, wy)):
        c.same(rule, where + ' value %d' % i, edge(q, k, h[1], w.v, s.pc), w.v, DOM, care=s.pc, what='value of the bin')


def edge(x, k, bins, want, care):
    """the last edge of a histogram is the number of bins away from the first, or the number of bins that are shown"""
    m = S('h%d:m' % k, 'notnone', 'pos').v
    shown = subst(x, {m: const(4)})
    if shown is x or not isinstance(bins, (Const, Sym, Num)):
        return shown
    if identity.agree(shown, want, DOM, care, n=8)[0] is not True and identity.agree(subst(x, {m: bins}), want, DOM, care, n=8)[0] is True:
        return subst(x, {m: bins})
    return shown


def beam(ip, s, t, pages=2, parameters=({}, {})):
    cols = [{k: sym('%s_%d' % (k, p), 'num', 'vec', 'pos', 'notnone') for k in ('x', 'xp', 'y', 'yp', 't', 'p')} for p in range(pages)]
    return sdds(ip, s, t, cols, parameters, {}), lambda k, p: S('%s_%d' % (k, p), 'vec', 'pos', 'notnone')


def mean(x):
    return E(app('r:mean', leaf(x.v)))


def phase(c):
    for page in (None, 1):
        for par in (({}, {}), None):
            for save in (None, 'a.png'):
                ip, st, g, t = setup(U, BP)
                f = need(ip, st, BP, 'phase_space')
                s = st.fork()
                o, col = beam(ip, s, t, parameters=par)
                kw = {'bins': sym('bins', 'num', 'int', 'pos', 'notnone')} if page else {}
                if page is not None:
                    kw['page'] = const(page)
                if save:
                    kw['save'] = const(save)
                where = 'phase_space%s%s' % (' of page 1' if page else '', ' without parameters' if par is None else '')
                r = ip.call(f, [o], kw, s, None)
                if not result_ok(c, 'density', where, s, r):
                    continue
                crashes(c, 'density', where, s)
                ps = panels(ip, s, g)
                if any(p is None for p in ps):
                    c.undecided('density', where, 'what is drawn is not one sequence')
                    continue
                v = lambda k: col(k, page or 0)
                mm = E(const(1000))
                want = {('x (mm)', "x' (mrad)"): (v('x') * mm, v('xp') * mm), ('y (mm)', "y' (mrad)"): (v('y') * mm, v('yp') * mm),
                        ('x (mm)', 'y (mm)'): (v('x') * mm, v('y') * mm),
                        ('t (ps)', r'$\delta$ ( )'): ((v('t') - mean(v('t'))) * 10 ** 12, (v('p') - mean(v('p'))) / mean(v('p')))}
                for (xl, yl), (a, b) in want.items():
                    one = labelled(ps, xl, yl)
                    if len(one) != 1:
                        c.violated('density', '%s: %s, %s' % (where, xl, yl), '%d panels have these labels' % len(one))
                        continue
                    image(c, ip, s, 'density', '%s: %s, %s' % (where, xl, yl), one[0], a, b, kw.get('bins', const(128)))
                saved(c, ip, s, 'density', where, save)
                c.visited(ip)
    longitudinal(c)
    projections(c)
    c.floor('density', 12)
    c.floor('projection', 6)
    c.assume += ['numpy.histogram and numpy.histogram2d return counts and equally spaced edges (stand-ins with four bins)']


def longitudinal(c):
    q = sym('Q', 'num', 'notnone')
    runs = [('Charge in the file', ({'Charge': q, 'Step': const(1)}, {'Charge': sym('Q1', 'num', 'notnone'), 'Step': const(2)}), {}, 'file'),
            ('charge 0 in the file', ({'Charge': const(0.0)}, {'Charge': const(0.0)}), {}, None),
            ('no Charge in the file', ({'Step': const(1)}, {'Step': const(1)}), {}, None), ('no parameters in the file', None, {}, None),
            ('charge given', ({'Charge': sym('Q2', 'num', 'notnone')}, {'Charge': sym('Q3', 'num', 'notnone')}), {'charge': q}, q),
            ('charge given, no parameters', None, {'charge': q}, q)]
    for name, par, kw0, charge in runs:
        for page in (0, 1):
            ip, st, g, t = setup(U, BP)
            f = need(ip, st, BP, 'longitudinal_phase_space')
            s = st.fork()
            o, col = beam(ip, s, t, parameters=par)
            kw = dict(kw0)
            if page:
                kw['page'] = const(page)
                kw['save'] = const('b.pdf')
            where = 'longitudinal_phase_space, %s, page %d' % (name, page)
            r = ip.call(f, [o], kw, s, None)
            if not result_ok(c, 'projection', where, s, r):
                continue
            crashes(c, 'projection', where, s)
            ps = panels(ip, s, g)
            if any(p is None for p in ps):
                c.undecided('projection', where, 'what is drawn is not one sequence')
                continue
            ps_ = E(const(10 ** 12))
            v = lambda k: col(k, page)
            dt = v('t') - mean(v('t'))
            one = labelled(ps, None, 'p ($m_e c$)')
            if len(one) != 1:
                c.violated('density', where, '%d panels have the vertical label of the momentum' % len(one))
            else:
                image(c, ip, s, 'density', where, one[0], dt * ps_, v('p'))
            one = labelled(ps, 't (ps)', None)
            if len(one) != 1:
                c.violated('projection', where, '%d panels have the horizontal label t (ps)' % len(one))
            else:
                amount = charge if charge != 'file' else sym('Q%s' % (page or ''), 'num', 'notnone')
                n_ = E(app('attr', v('t').v, const('size')))

                def current(k, n, f):
                    """counts times charge per particle over the length of a bin in seconds, or counts relative to the largest"""
                    top = E(app('r:max', app('array', *[x.v for x in n])))
                    rel = [x / top for x in n]
                    if amount is None:
                        return rel
                    w = S('h%d:w' % k, 'notnone', 'pos') * f / ps_
                    cur = [x * amount / n_ / w for x in n]
                    return cur
                keep = s.pc
                if charge == 'file':
                    # the case of a charge that is not zero: the other one is a run of its own
                    s.pc = V.band(s.pc, V.bnot(iszero(ip, s, amount)))
                projection(c, ip, s, 'projection', where + ': current', one[0], dt * ps_, ps_, False, current)
                yl = setting(one[0], 'ylabel')
                wl = 'Counts ()' if amount is None else 'Current (A)'
                c.same('projection', where + ': label of the current', yl, const(wl), care=s.pc, what='label')
                s.pc = keep
            one = [p for p in labelled(ps, 'Counts ()', None) if kinds(p, 'plot')]
            if len(one) != 1:
                c.violated('projection', where + ': momentum', '%d panels show counts horizontally' % len(one))
            else:
                projection(c, ip, s, 'projection', where + ': momentum', one[0], v('p'), E(const(1)), True)
            saved(c, ip, s, 'density', where, 'b.pdf' if page else None)
            c.visited(ip)


def iszero(ip, s, v):
    import ast as A
    return V.truth(ip.compare(A.Eq(), v, const(0.0), s, None))


def projections(c):
    runs = [('horizontal_phase_space', (), 'x', 'xp', 'x (mm)', "x' (mrad)"), ('vertical_phase_space', (), 'y', 'yp', 'y (mm)', "y' (mrad)"),
            ('phase_space_projection', ('x', 'yp'), 'x', 'yp', 'a', 'b')]
    for fn, pos, a, b, xl, yl in runs:
        for page in (0, 1):
            ip, st, g, t = setup(U, BP)
            f = need(ip, st, BP, fn)
            s = st.fork()
            o, col = beam(ip, s, t, parameters=None)
            kw = {'x_label': const('a'), 'y_label': const('b')} if pos else {}
            if page:
                kw['page'] = const(page)
                kw['save'] = const('c.png')
            where = '%s, page %d' % (fn, page)
            r = ip.call(f, [o] + [const(x) for x in pos], kw, s, None)
            if not result_ok(c, 'projection', where, s, r):
                continue
            crashes(c, 'projection', where, s)
            ps = panels(ip, s, g)
            if any(p is None for p in ps):
                c.undecided('projection', where, 'what is drawn is not one sequence')
                continue
            mm = E(const(1000))
            x, y = col(a, page) * mm, col(b, page) * mm
            dens = [p for p in ps if kinds(p, 'imshow') or kinds(p, 'pcolormesh')]
            one = labelled(dens, None, yl)
            if len(one) != 1:
                c.violated('density', where, '%d densities have the vertical label %s' % (len(one), yl))
            else:
                image(c, ip, s, 'density', where, one[0], x, y)
            for lab, sw, d, what in ((xl, False, x, 'horizontal'), ('Counts ()', True, y, 'vertical')):
                one = [p for p in labelled(ps, lab, None) if kinds(p, 'plot')]
                if len(one) != 1:
                    c.violated('projection', '%s: %s' % (where, what), '%d panels have the horizontal label %s' % (len(one), lab))
                else:
                    projection(c, ip, s, 'projection', '%s: %s' % (where, what), one[0], d, mm, sw)
            saved(c, ip, s, 'density', where, 'c.png' if page else None)
            c.visited(ip)


# ------------------------------------------------------------------------ helpers of plots, scatter and contour plots

A = sym('A', 'num', 'mat', 'notnone')
B = sym('B', 'num', 'mat', 'notnone')
MAT = {'A': (-2, 3), 'B': (-3, 1)}


def red(op, v):
    return E(app('r:' + op, leaf(v)))


def helpers(c):
    ip, st, g, t = setup(U)
    f, f2 = need(ip, st, U, 'get_histogram_points', 'get_current_from_t')
    d, q, n = sym('data', 'num', 'vec', 'notnone'), sym('charge', 'num', 'notnone'), sym('bins', 'num', 'int', 'pos', 'notnone')
    for where, fn, args, kw, data, bins in (
            ('get_histogram_points', f, [d, n], {}, E(d), n), ('get_current_from_t', f2, [d, q], {}, E(d) - red('mean', E(d)), const(256)),
            ('get_current_from_t with bins', f2, [d, q], {'bin_number': n}, E(d) - red('mean', E(d)), n)):
        s = st.fork()
        r = ip.call(fn, args, kw, s, None)
        if not result_ok(c, 'histogram', where, s, r):
            continue
        crashes(c, 'histogram', where, s)
        hs = [items(ip, s, h) for h in log(ip, s, '_hist') or []]
        xy = items(ip, s, r)
        if len(hs) != 1 or xy is None or len(xy) != 2:
            c.undecided('histogram', where, '%d histograms' % len(hs))
            continue
        h = hs[0]
        c.ob('histogram', where + ' kind', plainhist(h, 2), 'the histogram is weighted, normalised or limited to a range')
        c.same('histogram', where + ' data', snap(ip, s, h[0]), data.v, DOM, care=s.pc, what='data of the histogram')
        c.same('histogram', where + ' number of bins', h[1], bins, care=s.pc, what='number of bins')
        want = app('array', *centres('h0'))
        c.same('histogram', where + ' bins', edge(snap(ip, s, xy[0]), 0, bins, want, s.pc), want, care=s.pc, what='centres of the bins')
        w = counts(0)
        if fn is f2:
            w = [x * q / E(app('attr', d, const('size'))) / S('h0:w', 'notnone', 'pos') for x in w]
        want = app('array', *[x.v for x in w])
        c.same('histogram', where + ' values', edge(snap(ip, s, xy[1]), 0, bins, want, s.pc), want, care=s.pc, what='values of the bins')
    c.visited(ip)
    scatter6d(c)
    levels(c)
    contours(c)
    c.floor('histogram', 10)


def scatter6d(c):
    stub_ip = lambda ip: stubs.load(ip, stubs.SPACE, '$space')
    for h in range(6):
        for v in range(6):
            if not c.thorough and (v - h) % 6 not in (1, 3) and (h, v) != (2, 2):
                continue
            ip, st, g, t = setup()
            stub_ip(ip)
            st = ip.fresh(SC)
            cls = need(ip, st, SC, 'RsScatterPS6D')
            for replaced in (False, True):
                s = st.fork()
                space = ip.call(ip.base.heap[ip.modframes['$space']].f['Space'], [ip.new(s, Cell('arr', {}, A, ())), const(9)], {}, s, None)
                o = ip.call(cls, [space], {}, s, None)
                where = 'plot_data6d(%d, %d)%s' % (h, v, ' of replaced data' if replaced else '')
                if o is BOT:
                    c.violated('scatter', where, 'no plot of nine particles')
                    continue
                m = A
                call = lambda nm, *a: ip.call(ip.getattr_(o, nm, s, None), list(a), {}, s, None)
                labels = ['x [m]', 'px/p0', 'y [m]', 'py/p0', 's [m]', 'dp/p0']
                title = 'no plot title specified'
                if replaced:
                    m = B
                    call('set_data6d', ip.new(s, Cell('arr', {}, B, ())))
                    labels[v] = 'a label'
                    title = 'a title'
                    call('set_label', const(v), const('a label'))
                    call('set_title', const('a title'))
                r = call('plot_data6d', const(h), const(v))
                if not result_ok(c, 'scatter', where, s, r):
                    continue
                crashes(c, 'scatter', where, s)
                ps = [p for p in panels(ip, s, g) if p is None or p]
                if len(ps) != 1 or ps[0] is None:
                    c.undecided('scatter', where, '%d panels' % len(ps))
                    continue
                p = ps[0]
                ds = kinds(p, 'scatter') + kinds(p, 'plot')
                if len(ds) != 1:
                    c.ob('scatter', where, False if not ds else None, '%d sets of points' % len(ds))
                    continue
                row = lambda i: E(app('elem', m, const(i)))
                for i, (nm, k) in enumerate((('x', h), ('y', v))):
                    c.same('scatter', '%s: %s' % (where, nm), snap(ip, s, ds[0].arg(i, nm)), row(k).v, MAT, care=s.pc, what='coordinate of the points')
                lim = kinds(p, 'axis')
                if lim:
                    e = items(ip, s, lim[-1].arg(0, 'arg'))
                else:
                    e = [x for nm in ('xlim', 'ylim') for x in (lambda a: (items(ip, s, a[0]) if len(a) == 1 else a) or [None, None])([d for d in p if d.kind == 'set_' + nm][-1].args if kinds(p, 'set_' + nm) else ())]
                if not lim and not kinds(p, 'set_xlim') and not kinds(p, 'set_ylim'):
                    c.violated('scatter', where + ' limits', 'the limits of the axes are not set')
                elif e is None or len(e) != 4 or None in e:
                    c.undecided('scatter', where + ' limits', 'limits are not understood')
                else:
                    far = lambda k: red('max', E(ap(V.nabs, row(k).v)))
                    for nm, q, w in zip(('left', 'right', 'bottom', 'top'), e, (-far(h), far(h), -far(v), far(v))):
                        c.same('scatter', '%s: %s limit' % (where, nm), q, w.v, MAT, care=s.pc, what='limit of the axes')
                for nm, args, w in [('get_label', [const(i)], const(x)) for i, x in enumerate(labels)] + [('get_title', [], const(title))]:
                    x = call(nm, *args)
                    c.ob('scatter', '%s: %s %s' % (where, nm, args[0].v if args else ''), x is w, 'is %s' % show(x))
                x = snap(ip, s, call('get_data6d'))
                c.same('scatter', where + ': get_data6d', x, m, MAT, what='the data')
                call('save_plots', const('file.png'))
                c.ob('scatter', where + ': save_plots', [items(ip, s, q.items[1])[0] for q in log(ip, s, '_saved') or []] == [const('file.png')], 'the plot is not saved under the name given')
                for nm, w in (('xlabel', labels[h]), ('ylabel', labels[v]), ('title', title)):
                    x = setting(p, nm)
                    c.ob('scatter', '%s: %s' % (where, nm), x is const(w), 'is %s' % show(x) if x is not None else 'none')
                c.visited(ip)
    several(c)
    # fewer than two particles
    for n, fine in ((0, False), (1, False), (2, True)):
        ip, st, g, t = setup()
        stub_ip(ip)
        st = ip.fresh(SC)
        s = st.fork()
        space = ip.call(ip.base.heap[ip.modframes['$space']].f['Space'], [ip.new(s, Cell('arr', {}, A, ())), const(n)], {}, s, None)
        o = ip.call(need(ip, st, SC, 'RsScatterPS6D'), [space], {}, s, None)
        c.ob('scatter', 'phase space of %d particles' % n, (o is not BOT and s.pc is not FALSE) == fine, 'is refused' if fine else 'is accepted')


def several(c):
    """every plot is a figure of its own"""
    ip, st, g, t = setup()
    stubs.load(ip, stubs.SPACE, '$space')
    st = ip.fresh(SC)
    s = st.fork()
    space = ip.call(ip.base.heap[ip.modframes['$space']].f['Space'], [ip.new(s, Cell('arr', {}, A, ())), const(9)], {}, s, None)
    o = ip.call(need(ip, st, SC, 'RsScatterPS6D'), [space], {}, s, None)
    for h, v in ((0, 1), (2, 3), (0, 1)):
        ip.call(ip.getattr_(o, 'plot_data6d', s, None), [const(h), const(v)], {}, s, None)
    ps = [p for p in panels(ip, s, g) if p is None or p]
    n = [len(kinds(p, 'scatter') + kinds(p, 'plot')) for p in ps if p is not None]
    c.ob('scatter', 'three plots in a row', None if None in ps or not n else n == [1, 1, 1], 'three plots are drawn on %d figures' % len(n))


def levels(c):
    f_, k = sym('field', 'num', 'vec', 'notnone'), sym('mult', 'num', 'pos', 'notnone')
    dom = {'field': (-3, 3), 'mult': (1, 3)}
    for n, given in ((40, False), (4, True), (7, True)):
        for lo, hi in ((-3, 3), (1, 3), (-3, -1)):
            ip, st, g, t = setup()
            st = ip.fresh(PP)
            f = need(ip, st, PP, 'gen_contour_levels')
            s = st.fork()
            dom = {'field': (lo, hi), 'mult': (1, 3)}
            r = ip.call(f, [f_], {'nLevels': const(n), 'multiplier': k} if given else {}, s, None)
            where = 'gen_contour_levels, %d levels, field between %d and %d' % (n, lo, hi)
            if not result_ok(c, 'levels', where, s, r):
                continue
            e = items(ip, s, snap(ip, s, r) if not isinstance(r, Ref) else r)
            if e is None:
                c.undecided('levels', where, 'levels are %s' % clip(show(snap(ip, s, r))))
                continue
            c.ob('levels', where + ' number', len(e) == n, '%d levels' % len(e))
            m = (E(k) if given else E(const(1.1)))
            top = red('max', E(ap(V.nabs, f_))) * m
            top = E(app('f:round', top.v, const(3)))
            for i in range(0, min(n, len(e)), 1 if c.thorough else 3):
                got = e[i]
                c.same('levels', '%s: level %d' % (where, i), got, (top * (2 * i - n) / n).v, dom, care=s.pc, what='level')
            c.visited(ip)


def contours(c):
    x, y = sym('X', 'num', 'vec', 'notnone'), sym('Y', 'num', 'vec', 'notnone')
    poly = sym('polygon', 'num', 'mat', 'notnone')
    lev = app('array', *[sym('l%d' % i, 'num', 'pos', 'notnone') for i in range(3)])
    for flag in ('contour', 'combo', 'scatter', 'line', 'scatter-line'):
        density = flag in ('contour', 'combo')
        for ptype in ('linear', 'log-log', 'semi-logx', 'semi-logy'):
            if density and ptype != 'linear' and not c.thorough:
                continue
            for given in ((None, const(6), lev) if density else (None,)):
                for closed in ((True, False) if flag == 'combo' else (True,)):
                    ip, st, g, t = setup()
                    q = stubs.points(ip)
                    st = ip.fresh(PP)
                    f = need(ip, st, PP, 'scatter_contour')
                    s = st.fork()
                    ax = ip.call(g('Axes'), [], {}, s, None)
                    if closed:
                        segs = s.heap[ip.modframes['$plots']].f['_segs']
                        ip.call(ip.getattr_(segs, 'append', s, None), [poly], {}, s, None)
                    kw = {}
                    if given is not None:
                        kw['levels'] = given if isinstance(given, Const) else ip.new(s, Cell('arr', {'shape': tup([const(3)])}, given, ()))
                        kw['divs'] = sym('divs', 'num', 'int', 'pos', 'notnone')
                    where = 'scatter_contour %s, %s%s%s' % (flag, ptype, '' if given is None else ', levels given' if given is lev else ', 6 levels', '' if closed else ', no region of high density')
                    r = ip.call(f, [const(flag), const(ptype), *[ip.new(s, Cell('arr', {}, v, ())) for v in (x, y)], ax], kw, s, None)
                    if not result_ok(c, 'contour', where, s, r):
                        continue
                    crashes(c, 'contour', where, s)
                    p = panel(ip, s, ax)
                    if p is None:
                        c.undecided('contour', where, 'what is drawn is not one sequence')
                        continue
                    if density:
                        regions(c, ip, s, where, p, r, x, y, flag, given, kw.get('divs', const(10)))
                    else:
                        c.ob('contour', where + ' returns', r is NONE, 'a plot without contours returns %s' % show(r))
                        c.ob('contour', where + ' contours', not kinds(p, 'contourf') and not kinds(p, 'contour'), 'contours are drawn')
                    inside = app('inside', poly, x, y)
                    for kind, on in (('scatter', flag != 'line' and flag != 'contour'), ('plot', flag.endswith('line'))):
                        ds = kinds(p, kind)
                        if len(ds) != (1 if on else 0):
                            c.violated('contour', '%s: %s' % (where, kind), '%d sets of points' % len(ds))
                            continue
                        for d in ds:
                            for i, (nm, v) in enumerate((('x', x), ('y', y))):
                                got = snap(ip, s, d.arg(i, nm))
                                if flag == 'combo' and closed:
                                    ok = isinstance(got, App) and got.op == 'masked' and got.args[0] is v and outside(got.args[1], inside)
                                    c.ob('contour', '%s: %s of %s' % (where, nm, kind), True if ok else False if got is v or isinstance(got, App) and got.op == 'masked' and
                                         (got.args[0] is not v or got.args[1] is inside) else None, 'points drawn are %s' % clip(show(got)))
                                else:
                                    c.same('contour', '%s: %s of %s' % (where, nm, kind), got, v, care=s.pc, what='points drawn')
                    for nm, on in (('xscale', ptype in ('log-log', 'semi-logx')), ('yscale', ptype in ('log-log', 'semi-logy'))):
                        v = setting(p, nm)
                        if density:
                            c.ob('contour', '%s: %s' % (where, nm), v is None, 'the scale is changed')
                        else:
                            ok = v is const('log') if on else v in (None, const('linear'))
                            c.ob('contour', '%s: %s' % (where, nm), ok, 'the scale is %s' % (show(v) if v is not None else 'not set'))
                    c.visited(ip)


def outside(mask, inside):
    return isinstance(mask, App) and (mask.op in ('invert', 'not', 'call:numpy.logical_not', 'call:numpy.invert', 'f:logical_not') and mask.args[0] is inside) or \
        isinstance(mask, Ite) and mask is bnot(inside)


def lowest(v):
    """is this the lowest of the levels (in increasing order)?"""
    text_ = show(v)
    if isinstance(v, App) and v.op in ('elem', 'getitem') and len(v.args) == 2:
        q = v.args[1]
        lo = q.lo if isinstance(q, SliceV) else q
        if lo in (NONE, const(0)) or isinstance(lo, App) and lo.op == 'call:numpy.argmin' and lo.args[0] is v.args[0]:
            return not isinstance(q, SliceV) or isinstance(q.hi, Const) and q.hi.v == 1 or identity.agree(q.hi, nadd(lo, const(1)))[0] is True
        if isinstance(lo, (Const, Num)) or 'argmax' in text_:
            return False
    if 'r:max' in text_ and 'linspace' not in text_:
        return False
    return None if 'r:min' not in text_ else True


def regions(c, ip, s, where, p, r, x, y, flag, given, divs):
    fill = kinds(p, 'contourf')
    hs = [items(ip, s, h) for h in log(ip, s, '_hist2d') or []]
    if len(fill) != 1 or len(hs) != 1:
        c.ob('contour', where, False if not fill else None, '%d regions, %d histograms' % (len(fill), len(hs)))
        return
    d, h = fill[0], hs[0]
    c.ob('contour', where + ' returns', r is d.v, 'the contours are not returned')
    n = sym('g0:n', 'num', 'mat', 'notnone')
    v = snap(ip, s, d.arg(0, 'Z'))
    ok = isinstance(v, App) and v.op in ('T', 'm:transpose', 'call:numpy.transpose') and v.args[0] is n
    c.ob('contour', where + ' density', True if ok else False if v is n else None, 'density is %s' % clip(show(v)))
    for nm, got, w in (('x', h[0], x), ('y', h[1], y), ('divisions', h[2], divs)):
        c.same('contour', '%s: %s of the histogram' % (where, nm), snap(ip, s, got), w, care=s.pc, what=nm)
    c.ob('contour', where + ' histogram', plainhist(h, 3), 'the histogram is weighted, normalised or limited to a range')
    e = items(ip, s, d.arg(None, 'extent')) if 'extent' in d.kw else None
    if e is None or len(e) != 4:
        c.ob('contour', where + ' extent', False if 'extent' not in d.kw else None, 'the extent of the contours is not that of the data')
    else:
        edge = lambda q, i: (S('g0%s:0' % q, 'notnone', 'pos') + i * S('g0%s:w' % q, 'notnone', 'pos')).v
        for nm, got, w in zip(('left', 'right', 'bottom', 'top'), e, (edge('x', 0), edge('x', 4), edge('y', 0), edge('y', 4))):
            c.same('contour', '%s: %s' % (where, nm), got, w, care=s.pc, what='extent')
    for o in kinds(p, 'contour')[:1] if flag == 'combo' else ():
        v = snap(ip, s, o.arg(1, 'levels'))
        e2 = items(ip, s, o.arg(None, 'extent')) if 'extent' in o.kw else None
        c.ob('contour', where + ' outline', None if e2 is None else all(agree(a, b) for a, b in zip(e2, e or ())) and snap(ip, s, o.arg(0, 'Z')) is snap(ip, s, d.arg(0, 'Z')),
             'the outline is not that of the region of high density')
        c.ob('contour', where + ' outline level', lowest(v), 'the outline is drawn at %s' % clip(show(v)))
    got = snap(ip, s, d.arg(1, 'levels'))
    if given is not None and not isinstance(given, Const):
        c.same('contour', where + ' levels', got, given, care=s.pc, what='levels')
    else:
        w = app('call:numpy.linspace', const(8 if flag == 'combo' else 1), app('r:max', n), given or const(10))
        known = isinstance(got, App) and got.op == 'call:numpy.linspace' and len(got.args) == 3
        if not known:
            c.undecided('contour', where + ' levels', 'levels are %s' % clip(show(got)))
        else:
            for nm, a, b in zip(('first', 'last', 'number of levels'), got.args, w.args):
                c.same('contour', '%s: %s' % (where, nm), a, b, care=s.pc, what='levels')
