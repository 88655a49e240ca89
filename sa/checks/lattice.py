"""lattices: elements, beamlines, their files and the translations between codes"""
import math

from .common import *
from .. import stubs

BL = 'rsbeams.rslattice.Beamline'
EL = 'rsbeams.rslattice.Element'
LTE_ = 'rsbeams.rslattice.lte_parser'
T3D = 'rsbeams.rslattice.trace3d_parser'
IMP = 'rsbeams.rslattice.templates.lattice_importer'
FW = 'rsbeams.rslattice.formatted_writer'
PKL = 'rsbeams.pkcli.lattice'


def spellings(k):
    """the ways a name can be written"""
    if isinstance(k, Const):
        t = k.v
        return [const(x) for x in dict.fromkeys((t, t.lower(), t.upper(), t.title(), t.swapcase()))]
    return [k, app('strmeth', 'lower', k), app('strmeth', 'upper', k)]


def elements(c):
    """element parameters do not depend on the case of their names, through every access"""
    ip = interp(1000000)
    st = ip.fresh(EL)
    cls = need(ip, st, EL, 'Element')
    v, w = sym('v', 'num', 'notnone'), sym('w', 'num', 'notnone')
    other = sym('other', 'num', 'notnone')
    s0 = st.fork()
    for key in (sym('K', 'str', 'notnone'), const('L'), const('k1'), const('Fint_1')):
        for at in spellings(key):
            kt = show(at)
            for how in ('item', 'constructor', 'update', 'update keyword', 'setdefault', 'edit twice'):
                if how in ('constructor', 'update keyword') and not isinstance(at, Const):
                    continue
                s = s0.fork()
                e = ip.call(cls, [sym('name', 'str', 'notnone'), const('Quad')], {at.v: v} if how == 'constructor' else {}, s, None)
                d = ip.getattr_(e, 'parameters', s, None)
                m = lambda nm, *a, **k: ip.call(ip.getattr_(d, nm, s, None), list(a), k, s, None)
                if how == 'item':
                    ip.setitem(d, at, v, s, None)
                elif how == 'update':
                    m('update', ip.newdict(s, [(at, v)]))
                elif how == 'update keyword':
                    m('update', **{at.v: v})
                elif how == 'setdefault':
                    m('setdefault', at, v)
                elif how == 'edit twice':
                    ip.setitem(d, spellings(key)[-1], w, s, None)
                    ip.setitem(d, at, v, s, None)
                for r in spellings(key):
                    where = 'Element.parameters[%s] set by %s, read as %s' % (kt, how, show(r))
                    got = {}
                    s1 = s.fork()
                    mm = lambda nm, *a: ip.call(ip.getattr_(d, nm, s1, None), list(a), {}, s1, None)
                    got['[]'] = ip.getitem(d, r, s1, None)
                    s1 = s.fork()
                    got['get'] = mm('get', r)
                    got['get default'] = mm('get', r, other)
                    got['in'] = ip.contains(d, r, s1, None)
                    got['setdefault'] = mm('setdefault', r, other)
                    got['len'] = ip.models['len'](ip, s1, None, [d], {}, None)
                    s2 = s.fork()
                    s1 = s2
                    got['pop'] = mm('pop', r, other)
                    got['after pop'] = ip.contains(d, at, s2, None)
                    s2 = s.fork()
                    ip.delitem(d, r, s2, None)
                    got['after del'] = ip.contains(d, at, s2, None)
                    for k, x in got.items():
                        want = {'in': TRUE, 'len': const(1), 'after pop': FALSE, 'after del': FALSE}.get(k, v)
                        x = restrict(x, s2.pc) if isinstance(x, Ite) and s2.pc is not FALSE else x
                        ok = x is want
                        if not ok and not settled(x):
                            ok = None
                        c.ob('case', '%s, %s' % (where, k), ok, '' if ok else '%s of a parameter stored as %s gives %s' % (k, kt, clip(show(x), 120)))
    # a value is kept whatever it is
    for x in (NONE, const(''), const(0), const(0.0), const('1'), const('on'), FALSE, TRUE, const('0.5'), const(-2)):
        for how in ('item', 'constructor', 'update', 'setdefault'):
            s = s0.fork()
            e = ip.call(cls, [const('n'), const('Quad')], {'L': x} if how == 'constructor' else {}, s, None)
            d = ip.getattr_(e, 'parameters', s, None)
            if how == 'item':
                ip.setitem(d, const('L'), x, s, None)
            elif how == 'update':
                ip.call(ip.getattr_(d, 'update', s, None), [ip.newdict(s, [(const('L'), x)])], {}, s, None)
            elif how == 'setdefault':
                ip.call(ip.getattr_(d, 'setdefault', s, None), [const('L'), x], {}, s, None)
            for r, g in (('[]', ip.getitem(d, const('l'), s.fork(), None)), ('get', ip.call(ip.getattr_(d, 'get', s, None), [const('l'), other], {}, s.fork(), None))):
                c.ob('case', 'Element.parameters[L] = %s by %s, %s' % (show(x), how, r), g is x or (False if settled(g) else None), 'it is read as %s' % clip(show(g), 100))
    # name and type
    for t, want in (('QUAD', 'quad'), (' Drift ', 'drift'), ('kquad', 'kquad')):
        s = s0.fork()
        nm = sym('name', 'str', 'notnone')
        e = ip.call(cls, [nm, const(t)], {}, s, None)
        g = ip.getattr_(e, 'type', s, None)
        c.ob('type', 'Element(type=%r)' % t, g is const(want), 'the type is %s' % show(g))
        g = ip.getattr_(e, 'name', s, None)
        c.ob('type', 'Element name with type %r' % t, g is nm, 'the name is %s' % show(g))
    # two elements do not share their parameters
    s = s0.fork()
    a = ip.call(cls, [const('a'), const('Quad')], {'L': v}, s, None)
    b = ip.call(cls, [const('b'), const('Quad')], {'L': w}, s, None)
    ip.setitem(ip.getattr_(b, 'parameters', s, None), const('l'), other, s, None)
    g = ip.getitem(ip.getattr_(a, 'parameters', s, None), const('l'), s, None)
    c.ob('own', 'Element.parameters', g is v, 'changing one element changes another: %s' % show(g))
    c.floor('case', 200)
    c.visited(ip)


def settled(x):
    """a value the analysis knows"""
    if isinstance(x, Ite):
        return all(settled(l) for _, l in cases(x))
    return x in (TRUE, FALSE, NONE, BOT) or isinstance(x, (Const, Sym, Num)) or isinstance(x, Tup) and all(settled(q) for q in x.items)


# ------------------------------------------------------------------ beamlines

class Line:
    """the specification of a beamline: what was inserted, in order"""
    def __init__(self, name, top=None):
        self.name, self.items, self.lines, self.names = name, [], {}, {}
        self.top = top or self

    def element(self, name, type_, pars, sub=False):
        e = self.names.get(name)
        if e is None:
            e = self.names[name] = dict(name=name, type=type_, pars={k.lower(): v for k, v in pars.items()})
        (self.items[-1].items if sub else self.items).append(e)

    def line(self, name):
        if name not in self.lines:
            self.lines[name] = Line(name, self.top)
        self.items.append(self.lines[name])

    def flat(self):
        for i in self.items:
            if isinstance(i, Line):
                yield from i.flat()
            else:
                yield i


def total(elements):
    r = ZERO_
    for e in elements:
        r = nadd(r, e['pars'].get('l', ZERO_))
    return r


ZERO_ = const(0)

SCENARIOS = {
    'elements in a row': [('e', '', 'd1', 'Drift', 'L'), ('e', '', 'q1', 'QUAD', 'L K1'), ('e', '', 'd2', 'drift', 'l'), ('e', '', 'm', 'Marker', '')],
    'an element that occurs again': [('e', '', 'd', 'Drift', 'l'), ('e', '', 'q', 'Quad', 'l k1'), ('e', '', 'd', 'Quad', 'l k1 tilt'), ('e', '', 'q2', 'Quad', 'L k1')],
    'a line inside a line': [('e', '', 'd1', 'Drift', 'l'), ('l', '', 'cell'), ('e', 'cell', 'q1', 'Quad', 'l k1'), ('e', 'cell', 'd2', 'Drift', 'L'),
                             ('e', '', 'd3', 'Drift', 'l')],
    'a line that occurs again': [('l', '', 'cell'), ('e', 'cell', 'q1', 'Quad', 'l k1'), ('e', '', 'd', 'Drift', 'l'), ('l', '', 'cell'), ('e', '', 'w', 'Watch', ''),
                                 ('l', '', 'other'), ('e', 'other', 'b', 'Sbend', 'l angle'), ('l', '', 'cell')],
    'a line that is extended after it was inserted again': [('l', '', 'cell'), ('e', 'cell', 'a', 'Drift', 'l'), ('l', '', 'cell'), ('e', 'cell', 'b', 'Quad', 'l')],
    'lines three levels deep': [('l', '', 'A'), ('e', 'A', 'a1', 'Drift', 'l'), ('l', 'A', 'B'), ('e', 'A.B', 'b1', 'Quad', 'l'), ('l', 'A.B', 'C'),
                                ('e', 'A.B.C', 'c1', 'Drift', 'L'), ('e', 'A.B', 'b2', 'Quad', 'l'), ('e', 'A', 'a2', 'Drift', 'l'), ('e', '', 'z', 'Drift', 'l')],
    'elements appended to the last line': [('e', '', 'd', 'Drift', 'l'), ('l', '', 'cell'), ('s', '', 'q', 'Quad', 'l k1'), ('s', '', 'd', 'Drift', 'l'), ('e', '', 'q', 'Quad', ''),
                                           ('l', '', 'cell2'), ('s', '', 'q2', 'Quad', 'l')],
    'the same names in two lines': [('l', '', 'A'), ('e', 'A', 'd', 'Drift', 'l'), ('l', '', 'B'), ('e', 'B', 'd', 'Drift', 'l'), ('e', '', 'd', 'Drift', 'l')],
    'an empty line': [('l', '', 'A'), ('e', '', 'd', 'Drift', 'l'), ('l', '', 'B')],
    'nothing': [],
}


def random_scenario(seed):
    import random
    r = random.Random(seed)
    ops, lines = [], {'': set()}
    for i in range(r.randrange(3, 9)):
        at = r.choice(list(lines))
        k = r.random()
        if k < 0.3:
            nm = r.choice('ABC')
            ops.append(('l', at, nm))
            lines.setdefault((at + '.' + nm).strip('.'), set())
        else:
            ops.append(('e', at, r.choice('pqrs'), r.choice(['Drift', 'Quad']), r.choice(['l', 'L', 'L k1', '', 'l angle'])))
    return ops


class Bed:
    """a beamline built through the public methods, next to its specification"""
    def __init__(self, ip, st, cls, ops, name='line'):
        self.ip = ip
        self.s = s = st.fork()
        self.o = ip.call(cls, [const(name)], {}, s, None)
        self.spec = Line(name)
        k = 0
        for op in ops:
            o, sp = self.o, self.spec
            for part in [x for x in op[1].split('.') if x]:
                o = ip.getitem(ip.getattr_(o, 'lines', s, None), const(part), s, None)
                sp = sp.lines[part]
            if op[0] == 'l':
                self.m(o, 'add_beamline', const(op[2]))
                sp.line(op[2])
            else:
                pars = {}
                for p in op[4].split():
                    k += 1
                    pars[p] = sym('%s%d' % (p, k), 'num', 'notnone')
                kw = {'subline': TRUE} if op[0] == 's' else {}
                self.m(o, 'add_element', const(op[2]), const(op[3]), ip.newdict(s, [(const(a), b) for a, b in pars.items()]), **kw)
                sp.element(op[2], op[3].lower(), pars, op[0] == 's')

    def m(self, o, nm, *a, **k):
        return self.ip.call(self.ip.getattr_(o, nm, self.s, None), list(a), k, self.s, None)

    def get(self, o, nm):
        return self.ip.getattr_(o, nm, self.s, None)

    def elements(self, o=None):
        q = self.get(o or self.o, 'sequence') if hasattr(self, 'o') else None
        if q is not None and elems_of(self.ip, q, self.s) is None:
            return None
        r = self.ip.models['list'](self.ip, self.s, None, [self.m(o or self.o, 'get_beamline_elements')], {}, None)
        return elems_of(self.ip, r, self.s)


def elems_of(ip, r, s):
    if isinstance(r, Tup):
        return list(r.items)
    c = s.heap.get(r.id) if isinstance(r, Ref) else None
    return ip.elems(c) if c is not None and c.kind == 'list' else None


def same(a, b):
    """True / False / None: two numbers"""
    if a is b:
        return True
    if isnumlike(a) and isnumlike(b) and nadd(a, nmul(b, const(-1))) is const(0):
        return True
    return False if settled(a) and settled(b) else None


def same_line(c, where, B, els, want, edges=True):
    """the elements a beamline yields are those of its specification"""
    ip, s = B.ip, B.s
    if els is None:
        c.ob('order', where, None, 'the elements are not known')
        return
    names = [ip.getattr_(e, 'name', s, None) for e in els]
    ok = len(els) == len(want) and all(n is const(w['name']) for n, w in zip(names, want))
    c.ob('order', where, ok if ok or all(isinstance(n, Const) for n in names) else None,
         'the elements are %s, inserted were %s' % ([getattr(n, 'v', show(n)) for n in names], [w['name'] for w in want]))
    if not ok:
        return
    first, pos = {}, ZERO_
    for i, (e, w) in enumerate(zip(els, want)):
        at = '%s, element %d %r' % (where, i, w['name'])
        t = ip.getattr_(e, 'type', s, None)
        c.ob('element', at + ' type', t is const(w['type']) or (False if settled(t) else None), 'the type is %s' % show(t))
        d = ip.getattr_(e, 'parameters', s, None)
        n = ip.models['len'](ip, s, None, [d], {}, None)
        c.ob('element', at + ' parameters', n is const(len(w['pars'])) or (False if settled(n) else None), 'it has %s parameters, given were %d' % (show(n), len(w['pars'])))
        for k, v in w['pars'].items():
            g = ip.getitem(d, const(k), s.fork(), None)
            c.ob('element', '%s %s' % (at, k), same(g, v), '%s is %s' % (k, clip(show(g), 100)))
        # two occurrences are one element exactly when one name stands for them in one line
        if id(w) in first:
            c.ob('shared', at, first[id(w)][0] is e, 'the element that occurs again is another one')
        else:
            c.ob('shared', at, all(e is not x for x, _ in first.values()), 'two different elements are one object')
            first[id(w)] = (e, pos)
        pos = nadd(pos, w['pars'].get('l', ZERO_))
        if edges:
            g = ip.getattr_(e, 'edge', s, None)
            c.ob('edge', at, same(g, first[id(w)][1]), 'the upstream edge is %s, the elements before it add up to %s' % (clip(show(g), 120), clip(show(first[id(w)][1]), 120)))


def structure(c):
    """a beamline keeps what was put into it"""
    sc = dict(SCENARIOS)
    for i in range(40 if c.thorough else 4):
        sc['random lines %d' % i] = random_scenario(100 + i)
    for title, ops in sc.items():
        ip = interp(1000000)
        stubs.disk(ip)
        st = ip.fresh(BL)
        cls = need(ip, st, BL, 'StructuredBeamline')
        B = Bed(ip, st, cls, ops)
        s = B.s
        if s.pc is FALSE:
            c.ob('order', title, False, 'building the beamline raises %s' % [show(e) for _, e in s.pending][:1])
            continue
        want = list(B.spec.flat())
        els = B.elements()
        same_line(c, title, B, els, want)
        g = B.get(B.o, 'length')
        c.ob('length', title, same(g, total(want)), 'the length is %s, the elements add up to %s' % (clip(show(g), 120), clip(show(total(want)), 120)))
        again = B.elements()
        c.ob('order', title + ', read again', again is not None and els is not None and len(again) == len(els) and all(x is y for x, y in zip(again, els)),
             'reading the elements a second time gives others')
        for nm in sorted(B.spec.lines):
            o = ip.getitem(B.get(B.o, 'lines'), const(nm), s, None)
            w = list(B.spec.lines[nm].flat())
            g = B.get(o, 'length')
            c.ob('length', '%s, line %s' % (title, nm), same(g, total(w)), 'the length of the line is %s' % clip(show(g), 120))
        crashes(c, 'order', title, s)
        saved(c, title, B, cls, want)
        c.visited(ip)
    c.floor('order', 10)
    c.floor('edge', 20)


def saved(c, title, B, cls, want):
    """a beamline that was saved and loaded is the same beamline"""
    ip = B.ip
    s = B.s = B.s.fork()
    keep = s.pc
    B.m(B.o, 'save_beamline', const('line.yaml'))
    where = title + ', saved and loaded'
    if s.pc is FALSE:
        c.ob('saved', where, False, 'saving raises %s' % [show(e) for _, e in s.pending][-1:])
        return
    L = Bed(ip, s, cls, [], 'loaded')
    L.m(L.o, 'load_beamline', const('line.yaml'), const('elegant'))
    if L.s.pc is FALSE:
        c.ob('saved', where, False, 'loading raises %s' % [show(e) for _, e in L.s.pending][-1:])
        return
    els = L.elements()
    ok = els is not None
    names = [ip.getattr_(e, 'name', L.s, None) for e in els or []]
    c.ob('saved', where, names == [const(w['name']) for w in want] if ok else None, 'the elements are %s, saved were %s' % ([show(n) for n in names], [w['name'] for w in want]))
    if names != [const(w['name']) for w in want]:
        return
    for i, (e, w) in enumerate(zip(els, want)):
        at = '%s, element %d %r' % (where, i, w['name'])
        t = ip.getattr_(e, 'type', L.s, None)
        c.ob('saved', at + ' type', t is const(w['type']) or (False if settled(t) else None), 'the type is %s' % show(t))
        d = ip.getattr_(e, 'parameters', L.s, None)
        n = ip.models['len'](ip, L.s, None, [d], {}, None)
        c.ob('saved', at + ' parameters', n is const(len(w['pars'])) or (False if settled(n) else None), 'it has %s parameters, saved were %d' % (show(n), len(w['pars'])))
        for k, v in w['pars'].items():
            g = ip.getitem(d, const(k), L.s.fork(), None)
            c.ob('saved', '%s %s' % (at, k), same(g, v), '%s is %s' % (k, clip(show(g), 100)))
    g = L.get(L.o, 'length')
    c.ob('saved', where + ', length', same(g, total(want)), 'the length is %s' % clip(show(g), 120))
    shape = lambda o: [shape(x) if isinstance(x, Line) else x['name'] for x in o.items]

    def loaded(o):
        out = []
        for x in elems_of(ip, ip.getattr_(o, 'sequence', L.s, None), L.s) or []:
            q = ip.getattr_(x, 'name', L.s, None)
            out.append(loaded(x) if L.s.heap[x.id].x is cls else q.v)
        return out
    c.ob('saved', where + ', lines', loaded(L.o) == shape(B.spec), 'the lines are %s, saved were %s' % (loaded(L.o), shape(B.spec)))
    n0 = len(els)
    L.m(L.o, 'load_beamline', const('line.yaml'), const('elegant'))
    if want:
        again = L.elements()
        c.ob('saved', where + ' twice', again is not None and len(again) == n0 and all(x is y for x, y in zip(again, els)),
             'loading into a beamline that has elements changes it')
    g = ip.base.heap[ip.modframes['$disk']].f['_opened']
    for f in elems_of(ip, g, L.s) or []:
        cl = ip.getattr_(f, 'closed', L.s, None)
        c.ob('closed', where, cl is TRUE, 'a file stays open')


EDITS = [
    # element, parameters, number of values, the names of the elements that change
    ("by name", const('q'), ['K1'], ['q']),
    ("by name, several parameters", const('q'), ['k1', 'L', 'tilt'], ['q']),
    ("by name, a parameter that is new", const('d'), ['N_KICKS'], ['d']),
    ("by position", const(3), ['l'], ['m']),
    ("by the first position", const(0), ['l', 'k2'], ['d']),
    ("by position from the end", const(-1), ['K1'], ['z']),
    ("by a name no element has", const('nobody'), ['L'], []),
]


def edits(c):
    """an edit changes the named parameters of the named elements and nothing else"""
    ops = [('e', '', 'd', 'Drift', 'L'), ('e', '', 'q', 'Quad', 'L K1'), ('e', '', 'd', 'Drift', ''), ('e', '', 'm', 'Marker', 'l'), ('e', '', 'q', 'Quad', ''),
           ('l', '', 'cell'), ('e', 'cell', 'b', 'Sbend', 'l angle'), ('e', '', 'z', 'Quad', 'l k1')]
    ip = interp(1000000)
    stubs.disk(ip)
    st = ip.fresh(BL)
    cls = need(ip, st, BL, 'StructuredBeamline')
    B = Bed(ip, st, cls, ops)
    s0 = B.s
    for title, at, pars, names in EDITS:
        for aslist in ((False, True) if len(pars) == 1 else (True,)):
            for warn in (None, FALSE, TRUE):
                B.s = s = s0.fork()
                vals = [sym('new%d' % i, 'num', 'notnone') for i in range(len(pars))]
                p = ip.newlist(s, [const(x) for x in pars]) if aslist else const(pars[0])
                v = ip.newlist(s, list(vals)) if aslist else vals[0]
                kw = {} if warn is None else {'warnings': warn}
                B.m(B.o, 'edit_element', at, p, v, **kw)
                where = 'edit_element %s%s%s' % (title, ', as lists' if aslist else '', '' if warn is None else ', warnings=%s' % (warn is TRUE))
                if s.pc is FALSE:
                    c.ob('edit', where, False, 'raises %s' % [show(e) for _, e in s.pending][-1:])
                    continue
                els = B.elements()
                for e, w in zip(els or [], B.spec.flat()):
                    want = dict(w['pars'])
                    if w['name'] in names:
                        want.update({k.lower(): x for k, x in zip(pars, vals)})
                    d = ip.getattr_(e, 'parameters', s, None)
                    n = ip.models['len'](ip, s, None, [d], {}, None)
                    c.ob('edit', '%s, element %s' % (where, w['name']), n is const(len(want)) or (False if settled(n) else None), 'it has %s parameters' % show(n))
                    for k, x in want.items():
                        g = ip.getitem(d, const(k), s.fork(), None)
                        c.ob('edit', '%s, %s of element %s' % (where, k, w['name']), same(g, x), 'it is %s' % clip(show(g), 100))
                c.ob('edit', where + ', elements', els is not None and len(els) == len(list(B.spec.flat())), 'the elements changed')
    alike(c, ip, st, cls)
    stored(c, ip, st, cls)
    # what follows from the elements cannot be set
    for what, get in (('length', lambda: B.o), ('edge', lambda: B.elements()[0]), ('beamline', lambda: B.elements()[0])):
        B.s = s = s0.fork()
        o = get()
        before = ip.getattr_(o, what, s, None)
        n0 = len(s.pending)
        s1 = s.fork()
        ip.setattr_(o, what, sym('w', 'num', 'notnone'), s1, None)
        c.ob('derived', 'set ' + what, s1.pc is FALSE, 'the %s can be set' % what)
        c.ob('derived', 'read ' + what, ip.getattr_(o, what, s, None) is before, 'the %s changed' % what)
    # appending to a line that is not there
    B.s = s = s0.fork()
    B.m(B.o, 'add_element', const('x'), const('Drift'), ip.newdict(s, []), subline=TRUE)
    c.ob('subline', 'add_element(subline=True) after an element', s.pc is FALSE, 'no error, there is no line at the end')
    for sp, _ in s.pending:
        B.s = sp.fork()
        els = B.elements()
        c.ob('subline', 'add_element(subline=True) refused', els is not None and len(els) == len(list(B.spec.flat())), 'the element was inserted')
        # the name is still free: the next element of that name is the one given then
        B.m(B.o, 'add_element', const('x'), const('Quadrupole'), ip.newdict(B.s, [(const('l'), sym('lx', 'num', 'notnone'))]))
        els = B.elements()
        t = ip.getattr_(els[-1], 'type', B.s, None) if els else None
        c.ob('subline', 'add_element(x) after it was refused', str(t.v).lower() == 'quadrupole' if isinstance(t, Const) else None, 'the element inserted is of type %s' % (show(t) if t is not None else None))
    c.visited(ip)


def alike(c, ip, st, cls):
    """elements are selected by their exact name or their position in the line, values are stored as they are"""
    types = 'drift edrift csrdrift marker mark watch monitor kicker hkick vkick rfca rfdf twiss charge malign ecol rcol scraper sextupole octupole solenoid sbend rbend matrix wake center quadrupole'.split()
    B = Bed(ip, st, cls, [('e', '', 'e%d' % i, t, 'l k1') for i, t in enumerate(types)])
    same_line(c, 'elements of many types', B, B.elements(), list(B.spec.flat()))
    g = B.get(B.o, 'length')
    c.ob('length', 'elements of many types', same(g, total(list(B.spec.flat()))), 'the length is %s' % clip(show(g), 200))
    ops = [('l', '', 'cell'), ('e', 'cell', 'b', 'Sbend', 'l angle'), ('e', 'cell', 'k', 'Kicker', 'l'), ('e', '', 'q', 'Quad', 'l k1'), ('e', '', 'Q', 'Quad', 'l k1'), ('e', '', 'q1', 'Quad', 'l k1'),
           ('e', '', '1', 'Quad', 'l k1'), ('e', '', 'xq', 'Quad', 'l k1')]
    B = Bed(ip, st, cls, ops)
    s0 = B.s
    u, v = sym('u', 'num', 'notnone'), sym('v', 'num', 'notnone')
    pair = tup([u, v])
    k1, both = const('k1'), ('k1', 'l')
    todo = [('the element %r' % nm, const(nm), k1, u, {nm: {'k1': u}}) for nm in ('q', 'Q', 'q1', '1', 'xq')]
    todo += [('position %d after a line' % i, const(i), k1, u, {nm: {'k1': u}}) for i, nm in ((1, 'q'), (2, 'Q'), (-1, 'xq'), (-2, '1'))]
    todo += [('the value %s' % show(x), const('q'), k1, x, {'q': {'k1': x}}) for x in (NONE, const(0), const(''), const('2.5'), const(2.5), pair)]
    for what, x in (('a number', const(1)), ('text', const('1')), ('nothing', NONE), ('zero', const(0))):
        for y in (const(2.5), const('text'), NONE):
            todo.append(('the value %s where %s was' % (show(y), what), const('q'), k1, (x, y), {'q': {'k1': y}}))
    todo += [('no element at position %d' % i, const(i), k1, u, None) for i in (6, 20, -7)]
    for title, at, p, val, want in todo:
        B.s = s = s0.fork()
        if isinstance(val, tuple):
            for e in B.elements() or []:
                if ip.getattr_(e, 'name', s, None) is at:
                    ip.setitem(ip.getattr_(e, 'parameters', s, None), p, val[0], s, None)
            val = val[1]
        B.m(B.o, 'edit_element', at, p, val)
        where = 'edit_element: %s' % title
        if want is None:
            c.ob('edit', where, s.pc is FALSE, 'no error')
            continue
        if s.pc is FALSE:
            c.ob('edit', where, False, 'raises %s' % [show(e) for _, e in s.pending][-1:])
            continue
        for e, w in zip(B.elements() or [], B.spec.flat()):
            d = ip.getattr_(e, 'parameters', s, None)
            for k, x in dict(w['pars'], **want.get(w['name'], {})).items():
                g = ip.getitem(d, const(k), s.fork(), None)
                c.ob('edit', '%s, %s of element %s' % (where, k, w['name']), same(g, x), 'it is %s' % clip(show(g), 100))


KEYS = ('l angle k1 k2 k3 e1 e2 e3 tilt hgap fint fintx h1 h2 order edge1_effects n_kicks dx dy dz volt phase freq q change_p0 group name_ key title filename mode label '
        'interval start_pass disable x_max y_max bore b rho hkick vkick kick steering nx ds xkick ykick s class pass line length types names element beamline').split()


def stored(c, ip, st, cls):
    """every parameter of an element is saved and loaded, whatever its name and value"""
    vals = {k: const(0.25 + i) for i, k in enumerate(KEYS)}
    vals.update(none=NONE, empty=const(''), zero=const(0), off=FALSE, on=TRUE, text=const('a b'), number=const('12'))
    B = Bed(ip, st, cls, [])
    s = B.s
    for nm, d in (('a', vals), ('b', {}), ('Sub', {'l': const(0)})):
        B.m(B.o, 'add_element', const(nm), const('Quad'), ip.newdict(s, [(const(k), v) for k, v in d.items()]))
    ip.call(ip.base.heap[ip.modframes['$disk']].f['put'], [const('line.yaml'), const('an older file')], {}, s, None)
    B.m(B.o, 'save_beamline', const('line.yaml'))
    L = Bed(ip, s, cls, [], 'loaded')
    L.m(L.o, 'load_beamline', const('line.yaml'), const('elegant'))
    els = L.elements()
    if L.s.pc is FALSE or els is None or len(els) != 3:
        c.ob('saved', 'elements with many parameters', False if L.s.pc is FALSE or els is not None else None, 'the elements loaded are %s' % (els and len(els)))
        return
    for e, d in zip(els, (vals, {}, {'l': const(0)})):
        p = ip.getattr_(e, 'parameters', L.s, None)
        n = ip.models['len'](ip, L.s, None, [p], {}, None)
        c.ob('saved', 'an element with %d parameters' % len(d), n is const(len(d)) or (False if settled(n) else None), 'it has %s' % show(n))
        for k, v in d.items():
            g = ip.getitem(p, const(k), L.s.fork(), None)
            c.ob('saved', 'parameter %s = %s' % (k, show(v)), same(g, v), 'it is %s' % clip(show(g), 100))


def beamline(c):
    structure(c)
    edits(c)


# ------------------------------------------------------------------ importers

SIREPO = {
    'elements and a line': dict(elements='d:DRIF:l q:QUAD:l,k1 b:SBEN:l,angle', lines={'A': 'd q', 'MAIN': 'd A b A q'}),
    'an element that occurs again': dict(elements='d:DRIF:l q:QUAD:l,k1', lines={'MAIN': 'd q d q d'}),
    'a line that runs backwards': dict(elements='d:DRIF:l q:QUAD:l,k1 b:SBEN:l', lines={'A': 'd q b', 'MAIN': 'A -A d'}),
    'a line that only runs backwards': dict(elements='d:DRIF:l q:QUAD:l,k1', lines={'A': 'd q', 'MAIN': 'q -A'}),
    'lines inside lines run backwards': dict(elements='d:DRIF:l q:QUAD:l,k1 b:SBEN:l', lines={'A': 'd q', 'B': 'A b -A q', 'MAIN': '-B B A -A'}),
    'lines three levels deep, twice': dict(elements='d:DRIF:l q:QUAD:l,k1 b:SBEN:l', lines={'A': 'd q', 'B': 'b A d', 'C': 'B -A B', 'MAIN': 'C d -C C'}),
    'the main line is not the last': dict(elements='d:DRIF:l q:QUAD:l,k1', lines={'MAIN': 'd A q', 'A': 'q q', 'REST': 'd'}),
    'values of every kind': dict(elements="d:DRIF:l=0 q:QUAD:l@,k1@,group='',tilt=0.0,dx=-1 b:SBEN:l=0.0,angle@,name2='d',title='l' m:MARK:group='',fitpoint=0",
                                 lines={'MAIN': 'd q m b d'}),
    'an empty line': dict(elements='d:DRIF:l', lines={'A': '', 'MAIN': 'A d -A'}),
}


class Sirepo:
    """a model as Sirepo exports it"""
    def __init__(self, ip, s, spec, top='MAIN'):
        self.ids, self.rev, self.pars = {}, {}, {}
        elements, k = [], 100
        self.lines = {n: v.split() for n, v in spec['lines'].items()}
        cache = {}
        for e in spec['elements'].split():
            name, type_, pars = e.split(':')
            k += 1
            self.ids[name] = k
            d = [(const('_id'), const(k)), (const('name'), const(name)), (const('type'), const(type_))]
            self.pars[name] = dict(name=name, type=type_.lower(), pars={})
            for i, p in enumerate(pars.split(',')):
                p, given, value = p.partition('=')
                v = const(ast.literal_eval(value)) if given else sym('%s_%s' % (name, p.rstrip('@')), 'num', 'notnone')
                cached, p = p.endswith('@') or i % 2 and not given, p.rstrip('@')
                self.pars[name]['pars'][p] = v
                if cached:
                    cache[const('%s * 2' % (name + p))] = v
                    v = const('%s * 2' % (name + p))
                d.append((const(p), v))
            elements.append(ip.newdict(s, d))
        for i, n in enumerate(self.lines):
            self.ids[n] = i + 1
        lines = []
        for n, items in self.lines.items():
            ids = [const(-self.ids[x[1:]] if x[0] == '-' else self.ids[x]) for x in items]
            lines.append(ip.newdict(s, [(const('id'), const(self.ids[n])), (const('name'), const(n)), (const('items'), ip.newlist(s, ids))]))
        models = ip.newdict(s, [(const('beamlines'), ip.newlist(s, lines)), (const('elements'), ip.newlist(s, elements)),
                                (const('rpnCache'), ip.newdict(s, list(cache.items())))])
        self.ref = ip.newdict(s, [(const('models'), models)])

    def flat(self, name, back=False):
        items = self.lines[name]
        for x in (items[::-1] if back else items):
            n = x.lstrip('-')
            if n in self.lines:
                yield from self.flat(n, back != (x[0] == '-'))
            else:
                yield self.pars[n]


def sirepo(c):
    """the elements of an imported Sirepo model are those of its lines, in order"""
    for title, spec in SIREPO.items():
        for src in ('model', 'file'):
            ip = interp(1000000)
            stubs.disk(ip)
            st = ip.fresh(IMP)
            fn = need(ip, st, IMP, 'parse_json')
            s = st.fork()
            S = Sirepo(ip, s, spec)
            before = ip.snap(S.ref, s)
            where = 'parse_json of a %s: %s' % (src, title)
            a = S.ref
            if src == 'file':
                a = const('model.json')
                ip.call(ip.base.heap[ip.modframes['$disk']].f['put'], [a, S.ref], {}, s, None)
            o = ip.call(fn, [a, const('MAIN')], {}, s, None)
            if s.pc is FALSE or o is BOT:
                c.ob('imported', where, False, 'raises %s' % [show(e) for _, e in s.pending][-1:])
                continue
            B = Bed.__new__(Bed)
            B.ip, B.s, B.o = ip, s, o
            els = B.elements() if isinstance(o, Ref) else None
            names = [ip.getattr_(e, 'name', s, None) for e in els or []]
            want = list(S.flat('MAIN'))
            ok = names == [const(w['name']) for w in want]
            c.ob('imported', where, ok if els is not None else None, 'the elements are %s, the model has %s' % ([show(n) for n in names], [w['name'] for w in want]))
            if not ok:
                continue
            for i, (e, w) in enumerate(zip(els, want)):
                imported(c, '%s, element %d %r' % (where, i, w['name']), ip, s, e, w)
            g = B.get(o, 'length')
            c.ob('imported', where + ', length', same(g, total(want)), 'the length is %s' % clip(show(g), 120))
            c.ob('source', where, ip.snap(S.ref, s) is before, 'the model that is imported changes')
            if src == 'file':
                for f in elems_of(ip, ip.base.heap[ip.modframes['$disk']].f['_opened'], s) or []:
                    c.ob('closed', where, ip.getattr_(f, 'closed', s, None) is TRUE, 'the file stays open')
            s1 = st.fork()
            S1 = Sirepo(ip, s1, spec)
            ip.call(fn, [S1.ref, const('OTHER')], {}, s1, None)
            c.ob('missing', where, s1.pc is FALSE, 'no error for a line that is not in the model')
            c.visited(ip)


def imported(c, at, ip, s, e, w):
    t = ip.getattr_(e, 'type', s, None)
    c.ob('imported', at + ' type', t is const(w['type']) or (False if settled(t) else None), 'the type is %s' % show(t))
    d = ip.getattr_(e, 'parameters', s, None)
    for k, v in w['pars'].items():
        s1 = s.fork()
        g = ip.getitem(d, const(k), s1, None)
        c.ob('imported', '%s %s' % (at, k), same(g, v), '%s is %s' % (k, clip(show(g), 100)))


# title: text, {element: (type, {parameter: value})}, {line: items}; @0, @1 ... are numbers
LTE = {
    'one definition per line': ('''d1: DRIF, L=@0
q1: QUAD, L=@1, K1=@2
m1: MARK
cell: LINE=(d1,q1,m1,d1)
''', {'d1': ('drif', {'l': '@0'}), 'q1': ('quad', {'l': '@1', 'k1': '@2'}), 'm1': ('mark', {})}, {'cell': 'd1 q1 m1 d1'}),
    'lower and upper case, no blanks': ('''D1:drif,l=@0
q1:KQUAD,L=@1,k1=-@2,TILT=@3
Cell:LINE=(D1,Q1,d1)
''', {'d1': ('drif', {'l': '@0'}), 'q1': ('kquad', {'l': '@1', 'k1': '-@2', 'tilt': '@3'})}, {'cell': 'd1 q1 d1'}),
    'names in quotes': ('''"d1": DRIF, L=@0
"q1": QUAD, L=@1, K1=@2
"cell": LINE=("d1",q1,"d1")
''', {'d1': ('drif', {'l': '@0'}), 'q1': ('quad', {'l': '@1', 'k1': '@2'})}, {'cell': 'd1 q1 d1'}),
    'comments and blank lines': ('''! a lattice

d1: DRIF, L=@0 ! a drift
   ! line=(q1)
q1: QUAD, L=@1, K1=@2  ! d1: DRIF, L=@3
m1: MARK! end

cell: LINE=(d1,q1,m1) ! the line
! the end
''', {'d1': ('drif', {'l': '@0'}), 'q1': ('quad', {'l': '@1', 'k1': '@2'}), 'm1': ('mark', {})}, {'cell': 'd1 q1 m1'}),
    'continued lines': ('''d1: DRIF, &
   L=@0
q1: QUAD, L=@1, &
   K1=@2, &
   TILT=@3
m1: &
   MARK
cell: LINE=(d1,q1,&
   m1,d1,&
   q1)
''', {'d1': ('drif', {'l': '@0'}), 'q1': ('quad', {'l': '@1', 'k1': '@2', 'tilt': '@3'}), 'm1': ('mark', {})}, {'cell': 'd1 q1 m1 d1 q1'}),
    'no newline at the end': ('''d1: DRIF, L=@0
cell: LINE=(d1,m1)
m1: MARK''', {'d1': ('drif', {'l': '@0'}), 'm1': ('mark', {})}, {'cell': 'd1 m1'}),
    'repeated elements': ('''d1: DRIF, L=@0
q1: QUAD, L=@1, K1=@2
cell: LINE=(2*d1,q1,3*d1)
''', {'d1': ('drif', {'l': '@0'}), 'q1': ('quad', {'l': '@1', 'k1': '@2'})}, {'cell': 'd1 d1 q1 d1 d1 d1'}),
    'blanks between the items': ('''d1: DRIF, L=@0
q1: QUAD, L=@1, K1=@2
half: LINE=( d1, q1 )
cell: LINE=(q1, 2*d1, half, 2*(d1, q1), 3*half, d1 )
''', {'d1': ('drif', {'l': '@0'}), 'q1': ('quad', {'l': '@1', 'k1': '@2'})}, {'half': 'd1 q1', 'cell': 'q1 d1 d1 half d1 q1 d1 q1 half half half d1'}),
    'more than nine': ('''d1: DRIF, L=@0
q1: QUAD, L=@1, K1=@2
cell: LINE=(12*d1,q1)
''', {'d1': ('drif', {'l': '@0'}), 'q1': ('quad', {'l': '@1', 'k1': '@2'})}, {'cell': 12 * 'd1 ' + 'q1'}),
    'repeated groups': ('''d1: DRIF, L=@0
q1: QUAD, L=@1, K1=@2
cell: LINE=(2*(d1,q1),d1,2*(q1,q1,d1))
''', {'d1': ('drif', {'l': '@0'}), 'q1': ('quad', {'l': '@1', 'k1': '@2'})}, {'cell': 'd1 q1 d1 q1 d1 q1 q1 d1 q1 q1 d1'}),
    'lines of lines': ('''d1: DRIF, L=@0
q1: QUAD, L=@1, K1=@2
half: LINE=(d1,q1)
m1: MARK
cell: LINE=(m1,half,d1)
ring: LINE=(half,m1,cell)
''', {'d1': ('drif', {'l': '@0'}), 'q1': ('quad', {'l': '@1', 'k1': '@2'}), 'm1': ('mark', {})}, {'half': 'd1 q1', 'cell': 'm1 half d1', 'ring': 'half m1 cell'}),
    'a line that occurs again': ('''d1: DRIF, L=@0
q1: QUAD, L=@1, K1=@2
m1: MARK
half: LINE=(d1,q1)
cell: LINE=(half,m1,half,half,d1)
ring: LINE=(2*cell,m1,cell,3*half)
''', {'d1': ('drif', {'l': '@0'}), 'q1': ('quad', {'l': '@1', 'k1': '@2'}), 'm1': ('mark', {})},
                                 {'half': 'd1 q1', 'cell': 'half m1 half half d1', 'ring': 'cell cell m1 cell half half half'}),
    'a line defined after it is used': ('''ring: LINE=(cell,m1)
cell: LINE=(d1,m1)
m1: MARK
d1: DRIF, L=@0
''', {'d1': ('drif', {'l': '@0'}), 'm1': ('mark', {})}, {'cell': 'd1 m1', 'ring': 'cell m1'}),
    'names that begin alike': ('''q: QUAD, L=@0, K1=@1
q1: QUAD, L=@2, K1=@3
q11: QUAD, L=@4
qq: DRIF, L=@5
l: LINE=(q,q1)
line2: LINE=(q11,l,qq,q)
''', {'q': ('quad', {'l': '@0', 'k1': '@1'}), 'q1': ('quad', {'l': '@2', 'k1': '@3'}), 'q11': ('quad', {'l': '@4'}), 'qq': ('drif', {'l': '@5'})},
                               {'l': 'q q1', 'line2': 'q11 l qq q'}),
    'names that end alike, indented': ('''  q1: QUAD, L=@0, K1=@1
xq1: QUAD, L=@2, K1=@3
	yxq1: DRIF, L=@4
1q1: DRIF, &  	
   L=@5
cell: LINE=(q1,xq1, &  
yxq1,"1q1",q1)
''', {'q1': ('quad', {'l': '@0', 'k1': '@1'}), 'xq1': ('quad', {'l': '@2', 'k1': '@3'}), 'yxq1': ('drif', {'l': '@4'}), '1q1': ('drif', {'l': '@5'})},
                                       {'cell': 'q1 xq1 yxq1 1q1 q1'}),
    'expressions': ('''d1: DRIF, L="@0 2 *"
q1: QUAD, L="@1 @2 +", K1="@3 @4 -", TILT="pi 2 /"
q2: QUAD, K1="@5 @6 /", L="@7 sqrt"
q3: QUAD, L="@8 2 mult @9 -"
cell: LINE=(d1,q1,q2,q3)
''', {'d1': ('drif', {'l': '@0*2'}), 'q1': ('quad', {'l': '@1+@2', 'k1': '@3-@4', 'tilt': 'pi/2'}), 'q2': ('quad', {'k1': '@5/@6', 'l': 'sqrt(@7)'}),
      'q3': ('quad', {'l': '@8*2-@9'})}, {'cell': 'd1 q1 q2 q3'}),
    'variables': ('''% @0 sto lhalf
% @1 2 * sto strength
d1: DRIF, L="lhalf"
q1: QUAD, L="lhalf 2 *", K1="strength"
q2: QUAD, L=@2, K1="strength @3 -"
cell: LINE=(d1,q1,q2)
''', {'d1': ('drif', {'l': '@0'}), 'q1': ('quad', {'l': '@0*2', 'k1': '@1*2'}), 'q2': ('quad', {'l': '@2', 'k1': '@1*2-@3'})}, {'cell': 'd1 q1 q2'}),
    'variables and names with the same letters': ('''% @0 sto q
% @1 sto l
d1: DRIF, L="l"
lq1: QUAD, L=l, K1="q l *"
q: QUAD, K1=@2, L="l @3 *"
line1: LINE=(d1,lq1,q)
''', {'d1': ('drif', {'l': '@1'}), 'lq1': ('quad', {'l': '@1', 'k1': '@0*@1'}), 'q': ('quad', {'l': '@1*@3', 'k1': '@2'})}, {'line1': 'd1 lq1 q'}),
    'parameters that are words': ('''w1: WATCH, FILENAME="%s.w1", MODE=coord, INTERVAL=@0
q1: QUAD, L=@1, K1=@2
cell: LINE=(w1,q1)
''', {'w1': ('watch', {'interval': '@0'}), 'q1': ('quad', {'l': '@1', 'k1': '@2'})}, {'cell': 'w1 q1'}),
}


def number(text, vals):
    """the value of an expression of the tables above"""
    def term(n):
        if isinstance(n, ast.BinOp):
            a, b = term(n.left), term(n.right)
            if isinstance(n.op, ast.Div):
                return nmul(a, npow(b, -1))
            return nadd(a, b) if isinstance(n.op, ast.Add) else nadd(a, nmul(const(-1), b)) if isinstance(n.op, ast.Sub) else nmul(a, b)
        if isinstance(n, ast.UnaryOp):
            return nmul(const(-1), term(n.operand))
        if isinstance(n, ast.Call):
            return npow(term(n.args[0]), Fraction(1, 2))
        if isinstance(n, ast.Constant):
            return const(n.value)
        return const(math.pi) if n.id == 'pi' else vals[int(n.id[1:])]
    return term(ast.parse(text.replace('@', '_'), mode='eval').body)


def fill(text, vals, letter):
    for i in range(len(vals) - 1, -1, -1):
        text = text.replace('@%d' % i, letter(vals[i]))
    return text


def unroll(name, lines):
    for x in lines[name].split():
        if x in lines:
            yield from unroll(x, lines)
        else:
            yield x


def lte(c):
    """the elements of a beamline read from an lte file are those of its definition, in order"""
    for title, (text_, elements, lines) in LTE.items():
        for how in ('', 'upper case', 'again', 'another line', 'another line, upper case'):
            if how and not c.thorough and title not in ('lines of lines', 'a line that occurs again', 'variables'):
                continue
            if 'another' in how and len(lines) < 2:
                continue
            where = 'lte file, %s%s' % (title, how and ', ' + how)
            reading(c, where, lte_case, c, text_, elements, lines, how, where)


def lte_case(c, text_, elements, lines, how, where):
    ip = interp(3000000)
    ip.maxsum = 60
    stubs.disk(ip)
    letter = stubs.numerals(ip)
    vals = [sym('v%d' % i, 'num', 'notnone') for i in range(10)]
    st = ip.fresh(LTE_)
    cls = need(ip, st, LTE_, 'BeamlineParser')
    rows = fill(text_, vals, letter).splitlines(True)
    ip.call(ip.base.heap[ip.modframes['$disk']].f['put'], [const('a.lte')] + [const(x) for x in rows], {}, st, None)
    spec = {n: dict(name=n, type=t, pars={k: number(x, vals) for k, x in p.items()}) for n, (t, p) in elements.items()}
    order = list(lines)
    name = order[-1]
    s = st.fork()
    o = ip.call(cls, [const('a.lte'), const(name.upper() if how == 'upper case' else name)], {}, s, None)
    b = ip.call(o, [], {}, s, None) if s.pc is not FALSE else BOT
    if how == 'again':
        b = ip.call(o, [], {}, s, None)
    if 'another' in how:
        ip.call(ip.getattr_(o, 'set_beamline', s, None), [const(order[0].upper() if 'upper' in how else order[0])], {}, s, None)
        b = ip.call(o, [], {}, s, None)
        name = order[0]
    c.visited(ip)
    if s.pc is FALSE or b is BOT:
        c.ob('read', where, False, 'raises %s' % [show(e) for _, e in s.pending][-1:])
        return
    B = Bed.__new__(Bed)
    B.ip, B.s, B.o = ip, s, b
    els = B.elements() if isinstance(b, Ref) else None
    names = [ip.getattr_(e, 'name', s, None) for e in els or []]
    want = [spec[n] for n in unroll(name, lines)]
    ok = names == [const(w['name']) for w in want]
    c.ob('read', where, ok if els is not None and all(isinstance(n, Const) for n in names) else None,
         'the elements are %s, the file has %s' % ([show(n) for n in names], [w['name'] for w in want]))
    if ok:
        for i, (e, w) in enumerate(zip(els, want)):
            imported(c, '%s, element %d %r' % (where, i, w['name']), ip, s, e, w)
        g = B.get(b, 'length')
        c.ob('read', where + ', length', same(g, total(want)), 'the length is %s' % clip(show(g), 120))
    for f in elems_of(ip, ip.base.heap[ip.modframes['$disk']].f['_opened'], s) or []:
        c.ob('closed', where, ip.getattr_(f, 'closed', s, None) is TRUE, 'the file stays open')


# ------------------------------------------------------------------ TRACE 3-D and TraceWin

# (type number, type, parameters in the order of the file with the factor to the units of the beamline)
DEG = 'deg'
TRACE = [
    (1, 'drift', [('L', 'milli')]),
    (3, 'quadrupole', [('K1', ''), ('L', 'milli'), ('DX', 'milli'), ('DY', 'milli'), ('OF', '')]),
    (8, 'sbend', [('ANGLE', DEG), ('R', 'milli'), ('INDEX', ''), ('VF', '')]),
    (9, 'edge', [('BETA', DEG), ('R', 'milli'), ('G', 'milli'), ('K1', ''), ('K2', '')]),
    (10, 'rfca', [('VOLT', 'mega'), ('PHASE', ''), ('EGF', ''), ('CHANGE_P0', ''), ('H', '')]),
]


UNITS = {'': E(1), 'milli': E(Fraction(1, 1000)), 'mega': E(1000000), DEG: E(math.pi) / 180}


class Values:
    """numbers for a text, all different"""
    def __init__(self, letter):
        self.letter, self.all = letter, []

    def new(self, name):
        v = sym('%s_%d' % (name, len(self.all)), 'num', 'notnone')
        self.all.append(v)
        return E(v), self.letter(v)


def reading(c, where, fn, *a):
    """one file; loops over what the engine does not know are not followed for ever"""
    V.growth(300000)
    try:
        fn(*a)
    except Runaway as e:
        c.ob('read', where, False, 'reading does not come to an end: %s' % e)
    except (Budget, V.Overgrown, MemoryError) as e:
        if str(e) == 'time':
            raise
        c.undecided('read', where, 'the analysis stopped: %s' % e)
    finally:
        V.growth()


def opened(ip, s, c, where):
    for f in elems_of(ip, ip.base.heap[ip.modframes['$disk']].f['_opened'], s) or []:
        c.ob('closed', where, ip.getattr_(f, 'closed', s, None) is TRUE, 'the file stays open')


def parse(ip, cls, s, rows, name='LINE', call=True):
    ip.call(ip.base.heap[ip.modframes['$disk']].f['put'], [const('a.txt')] + [const(x) for x in rows], {}, s, None)
    o = ip.call(cls, [const('a.txt'), const(name)], {}, s, None)
    b = ip.call(o, [], {}, s, None) if s.pc is not FALSE and call else BOT
    return o, b


def compare_line(c, rule, where, ip, s, b, want, names=None):
    """want: (type, {parameter: value}) in order; the length is the sum"""
    if s.pc is FALSE or b is BOT:
        c.ob(rule, where, False, 'raises %s' % [show(e) for _, e in s.pending][-1:])
        return None
    B = Bed.__new__(Bed)
    B.ip, B.s, B.o = ip, s, b
    els = B.elements() if isinstance(b, Ref) else None
    types = [ip.getattr_(e, 'type', s, None) for e in els or []]
    ok = types == [const(t) for t, _ in want]
    c.ob(rule, where + ', elements', ok if els is not None and all(isinstance(t, Const) for t in types) else None,
         'the elements are %s, the file has %s' % ([show(t) for t in types], [t for t, _ in want]))
    if not ok:
        return None
    if len({id(e) for e in els}) != len(els):
        c.ob(rule, where + ', elements', False, 'two elements of the file are one element')
    if names is not None:
        got = [ip.getattr_(e, 'name', s, None) for e in els]
        c.ob(rule, where + ', names', got == [const(n) for n in names] if all(isinstance(g, Const) for g in got) else None,
             'the names are %s, the file has %s' % ([show(g) for g in got], names))
    for i, (e, (t, pars)) in enumerate(zip(els, want)):
        d = ip.getattr_(e, 'parameters', s, None)
        for k, v in pars.items():
            s1 = s.fork()
            g = ip.getitem(d, const(k), s1, None)
            at = '%s, element %d (%s) %s' % (where, i, t, k)
            if s1.pc is FALSE:
                c.ob(rule, at, False, 'the parameter is missing')
            else:
                c.same(rule, at, g, v.v, what=k)
    n = E(0)
    for t, pars in want:
        n = n + pars.get('L', pars.get('l', E(0)))
    c.same('length', where, B.get(b, 'length'), n.v, what='length')
    return els


TRACE_STYLES = [
    lambda i, nt, vals: "CMT(%03d)='e%d'  NT(%03d)= %d, A(1,%03d)= %s\n" % (i, i, i, nt, i, ', '.join(vals)),
    lambda i, nt, vals: "cmt(%d) = ' ' nt(%d)=%d a(1,%d)=%s ; element %d, nt=3\n" % (i, i, nt, i, ' '.join(vals), i),
    lambda i, nt, vals: "  CMT( %03d )='' NT(%03d)=%02d, A(1,%03d)=%s," % (i, i, nt, i, ','.join(vals)) + '\n',
]
TRACE_NAMES = ['%03d', '%d', '%03d']
TRACE_FILES = [[1], [3], [8], [10], [1, 3, 1, 3], [1, 9, 8, 9, 3, 10, 1], [3, 1, 10, 1, 9, 8, 9, 1, 9, 8, 9, 1, 1]]


def trace_rows(style, types, V_, noise):
    rows, want = ([' $DATA\n', ' ER= 938.27, Q= 1., W= 3.0,\n', '\n', '; CMT(000) NT(000)=1\n'] if noise else []), []
    for i, nt in enumerate(types):
        t, names = [(t, names) for n, t, names in TRACE if n == nt][0]
        vals, pars = [], {}
        for nm, u in names:
            v, txt = V_.new('%s%d' % (nm, i))
            if noise and nm in ('DX', 'K1', 'K2', 'INDEX', 'EGF', 'H'):
                v, txt = E(0), ('0.', '0')[i % 2]
            vals.append(txt)
            pars[nm] = v * UNITS[u]
        if t == 'sbend':
            pars['L'] = fn('abs', pars['R'] * pars['ANGLE'])
        rows.append(style(i + 1, nt, vals))
        if noise and i % 2:
            rows += ['\n', ' ; a comment\n']
        want.append((t, pars))
    return rows + ([' $END\n'] if noise else []), want


def trace3d_case(c, where, style, types, noise):
    ip = interp(3000000)
    ip.maxsum = 60
    stubs.disk(ip)
    V_ = Values(stubs.numerals(ip, stubs.SIGNED))
    st = ip.fresh(T3D)
    cls = need(ip, st, T3D, 'Trace3d')
    s = st.fork()
    rows, want = trace_rows(style, types, V_, noise)
    o, b = parse(ip, cls, s, rows)
    compare_line(c, 'trace3d', where, ip, s, b, want, [TRACE_NAMES[TRACE_STYLES.index(style)] % (i + 1) for i in range(len(types))])
    opened(ip, s, c, where)
    c.visited(ip)


def trace3d_moved(c, title, types, method):
    ip = interp(3000000)
    ip.maxsum = 60
    stubs.disk(ip)
    V_ = Values(stubs.numerals(ip, stubs.SIGNED))
    st = ip.fresh(T3D)
    cls = need(ip, st, T3D, 'Trace3d')
    s = st.fork()
    rows, want = trace_rows(TRACE_STYLES[0], types, V_, False)
    o, b = parse(ip, cls, s, rows)
    ip.call(ip.getattr_(o, method, s, None), [], {}, s, None)
    new = []
    for i, (t, p) in enumerate(want):
        p = dict(p)
        near = lambda j: want[i + j]
        if method == 'handle_bends':
            if t == 'edge':
                continue
            if t == 'sbend':
                p.update(E1=near(-1)[1]['BETA'], E2=near(1)[1]['BETA'], HGAP=near(-1)[1]['G'] / 2, FINT=near(-1)[1]['K1'])
        else:
            if t == 'rfca':
                p.update(PHASE=90 - p['PHASE'], L=near(-1)[1]['L'] + near(1)[1]['L'])
            elif (i and want[i - 1][0] == 'rfca') or (i + 1 < len(want) and want[i + 1][0] == 'rfca'):
                p['L'] = E(0)
        new.append((t, p))
    compare_line(c, 'trace3d', '%s with %s' % (method, title), ip, s, b, new)
    c.visited(ip)


def trace3d(c):
    """a TRACE 3-D file gives its elements, in order, in the units of the beamline"""
    for k, style in enumerate(TRACE_STYLES):
        for types in TRACE_FILES:
            for noise in (False, True):
                where = 'TRACE 3-D style %d%s, elements %s' % (k, ' with other lines' if noise else '', types)
                reading(c, where, trace3d_case, c, where, style, types, noise)
    # bends take their edges over, cavities the space around them
    for title, types, method in (('one bend', [1, 9, 8, 9, 1], 'handle_bends'), ('two bends', [9, 8, 9, 1, 3, 9, 8, 9], 'handle_bends'),
                                 ('two bends side by side', [1, 9, 8, 9, 9, 8, 9], 'handle_bends'),
                                 ('one cavity', [3, 1, 10, 1, 3], 'handle_cavities'), ('two cavities', [1, 10, 1, 3, 1, 10, 1], 'handle_cavities')):
        reading(c, '%s with %s' % (method, title), trace3d_moved, c, title, types, method)
    c.floor('trace3d', 100)


TRACEWIN = {
    'drift': ('drift', [('L', 'milli'), ('R', ''), ('Ry', ''), ('RX_SHIFT', ''), ('RY_SHIFT', '')]),
    'quad': ('quadrupole', [('L', 'milli'), ('K1', ''), ('R', ''), ('THETA', ''), ('G3U3', ''), ('G4U4', ''), ('G5U5', ''), ('G6U6', ''), ('GFR', '')]),
    'set_sync_phase': ('marker', []),
    'dtl_cel': (None, [('L', 'milli'), ('LQ1', 'milli'), ('LQ2', 'milli'), ('GC', ''), ('B1', ''), ('B2', ''), ('VOLT', ''), ('PHASE', ''), ('R', ''), ('P', ''),
                       ('BETA_S', ''), ('T_S', ''), ('KTS', ''), ('K2TS', '')]),
    'ncells': (None, [('MODE', ''), ('N', ''), ('BETA', ''), ('VOLT', ''), ('PHASE', ''), ('R', ''), ('P', ''), ('KE0TI', ''), ('KE0TO', ''), ('DZI', ''), ('DZO', '')]),
    'freq': (None, [('FREQUENCY', 'mega')]),
}
TRACEWIN_FILES = [['drift'], ['quad'], ['drift', 'quad', 'drift', 'quad', 'drift'], ['freq', 'drift', 'ncells', 'drift'], ['dtl_cel'], ['freq', 'dtl_cel', 'quad', 'dtl_cel'],
                  ['freq', 'ncells', 'set_sync_phase', 'drift', 'freq', 'ncells', 'dtl_cel', 'drift']]


def tracewin_case(c, where, k, sep, upper, types):
    """one file"""
    ip = interp(3000000)
    ip.maxsum = 60
    stubs.disk(ip)
    V_ = Values(stubs.numerals(ip, stubs.SIGNED))
    st = ip.fresh(T3D)
    cls = need(ip, st, T3D, 'TraceWin')
    s = st.fork()
    rows, want, freq = ['; a lattice\n', '\n'] if upper else [], [], None
    for i, key in enumerate(types):
        t, names = TRACEWIN[key]
        vals, p = [], {}
        for nm, u in names:
            v, txt = V_.new('%s%d' % (nm, i))
            vals.append(txt)
            p[nm] = v * UNITS[u]
        rows.append((key.upper() if upper else key) + sep + sep.join(vals) + (' ; 12 34' if k == 1 else '') + '\n')
        if t:
            want.append((t, p))
        elif key == 'freq':
            freq = p['FREQUENCY']
        elif key == 'dtl_cel':
            want.append(('quadrupole', {'L': p['LQ1'], 'K1': p['B1']}))
            q = {'L': p['L'] - p['LQ1'] - p['LQ2'], 'VOLT': p['VOLT'], 'PHASE': p['PHASE'] + 90}
            if freq is not None:
                q['FREQUENCY'] = freq
            want.append(('rfca', q))
            want.append(('quadrupole', {'L': p['LQ2'], 'K1': p['B2']}))
        else:
            n = p['BETA'] * p['N'] * C_LIGHT / freq
            want.append(('rfca', {'L': n, 'VOLT': p['VOLT'] * n, 'PHASE': p['PHASE'] + 90, 'FREQUENCY': freq}))
    o, b = parse(ip, cls, s, rows)
    compare_line(c, 'tracewin', where, ip, s, b, want)
    opened(ip, s, c, where)
    c.visited(ip)


def tracewin(c):
    """a TraceWin file gives its elements, in order, in the units of the beamline"""
    for k, sep in enumerate((' ', '   ', '\t')):
        for upper in (True, False):
            for types in TRACEWIN_FILES:
                where = 'TraceWin %s separator %d, %s' % ('upper' if upper else 'lower', k, ' '.join(types))
                reading(c, where, tracewin_case, c, where, k, sep, upper, types)
    c.floor('tracewin', 100)


def trace(c):
    trace3d(c)
    tracewin(c)


# ------------------------------------------------------------------ transfer matrices

def focusing(k, l):
    w = fn('abs', k).sqrt()
    pos, neg = V.cmp_lt(ZERO_, k.v), V.cmp_lt(k.v, ZERO_)
    cs = E(ite(pos, fn('cos', w * l).v, ite(neg, fn('cosh', w * l).v, const(1))))
    sn = E(ite(pos, (fn('sin', w * l) / w).v, ite(neg, (fn('sinh', w * l) / w).v, l.v)))
    return [[cs, sn], [-k * sn, cs]]


def matrix_of(t, p):
    l = p.get('l', E(0))
    if t == 'drift':
        a = b = [[E(1), l], [E(0), E(1)]]
    else:
        a, b = focusing(p['k1'], l), focusing(-p['k1'], l)
    z = [E(0), E(0)]
    return [a[0] + z, a[1] + z, z + b[0], z + b[1]]


def product(a, b):
    return [[sum((a[i][k] * b[k][j] for k in range(4)), E(0)) for j in range(4)] for i in range(4)]


# elements of a line: (name, type, parameters); a value in capitals or letters is a variable, '' a number
OPTICS = {
    'a drift': [('d', 'Drift', {'L': ''})],
    'a quadrupole': [('q', 'Quadrupole', {'K1': '', 'L': ''})],
    'a quadrupole that is off': [('q', 'Quadrupole', {'K1': 0, 'L': ''}), ('d', 'drift', {'l': ''})],
    'a drift of no length': [('d', 'drift', {'l': 0}), ('q', 'Quadrupole', {'K1': '', 'L': ''})],
    'drift and quadrupole': [('d', 'Drift', {'L': ''}), ('q', 'Quadrupole', {'L': '', 'k1': ''})],
    'quadrupole and drift, lower case': [('q', 'quadrupole', {'l': '', 'k1': ''}), ('d', 'drift', {'l': ''})],
    'a repeated drift': [('d', 'drift', {'l': ''}), ('q', 'quadrupole', {'l': '', 'k1': ''}), ('d', 'drift', {})],
    'a quadrupole with a variable': [('q', 'quadrupole', {'l': '', 'k1': 'strength'})],
    'two variables': [('d', 'drift', {'l': 'space'}), ('q', 'quadrupole', {'l': '', 'k1': 'strength'}), ('d2', 'drift', {'l': 'space'})],
    'three variables in any order': [('q', 'quadrupole', {'k1': 'b', 'l': 'a'}), ('d', 'drift', {'l': 'c'}), ('p', 'quadrupole', {'k1': 'b', 'l': ''})],
    'variables with names of parameters': [('q', 'quadrupole', {'l': 'K1', 'k1': 'L'}), ('d', 'drift', {'l': 'K1'})],
    'a line inside': [('d', 'drift', {'l': ''}), '+', ('q', 'quadrupole', {'l': '', 'k1': ''}), '-', ('e', 'drift', {'l': ''})],
    'other parameters': [('q', 'quadrupole', {'l': '', 'k1': '', 'tilt': '', 'dx': ''}), ('d', 'drift', {'l': '', 'n': ''})],
}


def matrices(c):
    """the matrix of a beamline is the product of the matrices of its elements"""
    ip = interp(3000000)
    ip.maxsum = 60
    stubs.disk(ip)
    g = stubs.sympy_(ip)
    st = ip.fresh(BL)
    cls = need(ip, st, BL, 'StructuredBeamline')
    MX = g('Matrix')
    for title, items in OPTICS.items():
        for concat in (None, TRUE, FALSE):
            s = st.fork()
            o = ip.call(cls, [const('line')], {}, s, None)
            m = lambda o, nm, *a, **k: ip.call(ip.getattr_(o, nm, s, None), list(a), k, s, None)
            at, want, variables, k, seen = o, [], [], 0, {}
            for it in items:
                if it == '+':
                    m(o, 'add_beamline', const('sub'))
                    at = ip.getitem(ip.getattr_(o, 'lines', s, None), const('sub'), s, None)
                    continue
                if it == '-':
                    at = o
                    continue
                name, t, pars = it
                d, p = [], {}
                for nm, v in pars.items():
                    k += 1
                    if v == '':
                        x = sym('%s%d' % (nm, k), 'num', 'notnone')
                        p[nm.lower()] = E(x)
                    elif isinstance(v, str):
                        x = const(v)
                        if v not in variables:
                            variables.append(v)
                        p[nm.lower()] = E(sym('value of ' + v, 'num', 'notnone'))
                    else:
                        x = const(v)
                        p[nm.lower()] = E(v)
                    d.append((const(nm), x))
                m(at, 'add_element', const(name), const(t), ip.newdict(s, d))
                want.append(seen.setdefault(name, (t.lower(), p)))
            kw = {} if concat is None else {'concatenate': concat}
            r = m(o, 'generate_matrix', **kw)
            where = 'generate_matrix%s of %s' % ('' if concat is None else '(concatenate=%s)' % (concat is TRUE), title)
            if s.pc is FALSE or r is BOT:
                c.ob('matrix', where, False, 'raises %s' % [show(e) for _, e in s.pending][-1:])
                continue
            if variables:
                if not isinstance(r, Tup) or len(r.items) != 2:
                    c.ob('matrix', where, False if isinstance(r, (Ref, Tup)) else None, 'no function of the variables is returned')
                    continue
                # the function takes the variables in the order in which they occur
                second = r.items[1]
                again = ip.call(g('Lambda'), [ip.newlist(s, [ip.models['sympy.symbols'](ip, s, None, [const(v)], {}, None) for v in variables]), second], {}, s, None)
                again = ip.call(again, [sym('value of ' + v, 'num', 'notnone') for v in variables], {}, s, None) if again is not BOT and s.pc is not FALSE else BOT
                r = ip.call(r.items[0], [sym('value of ' + v, 'num', 'notnone') for v in variables], {}, s, None)
                if s.pc is FALSE or r is BOT:
                    c.ob('matrix', where, False, 'evaluating raises %s' % [show(e) for _, e in s.pending][-1:])
                    continue
            mats = [matrix_of(*w) for w in want]
            results = [(where, r)] + ([(where + ', symbolic', again)] if variables and again is not BOT else [])

            def rows(v):
                if isinstance(v, Ref) and s.heap[v.id].kind == 'obj':
                    v = ip.getattr_(v, 'rows', s, None)
                e = elems_of(ip, v, s)
                return [elems_of(ip, x, s) for x in e] if e is not None else None
            for where, r in results:
                if concat is FALSE:
                    got = elems_of(ip, r, s)
                    c.ob('matrix', where, got is not None and len(got) == len(mats) or (None if got is None else False), 'there are %s matrices of %d elements' % (got and len(got), len(mats)))
                    if got is None or len(got) != len(mats):
                        continue
                    pairs = [('%s, element %d' % (where, i), rows(x), y) for i, (x, y) in enumerate(zip(got, mats))]
                else:
                    y = mats[0]
                    for z in mats[1:]:
                        y = product(z, y)
                    pairs = [(where, rows(r), y)]
                for at_, got, y in pairs:
                    if got is None or len(got) != 4 or any(x is None or len(x) != 4 for x in got):
                        c.ob('matrix', at_, None, 'the matrix is not known')
                        continue
                    for i in range(4):
                        for j in range(4):
                            c.same('matrix', '%s [%d,%d]' % (at_, i, j), got[i][j], y[i][j].v, what='entry %d,%d' % (i, j))
    # there is no matrix of an element of another type
    for t in ('rfca', 'sbend', 'kquad', 'marker'):
        s = st.fork()
        o = ip.call(cls, [const('line')], {}, s, None)
        for nm, ty in (('d', 'drift'), ('x', t), ('q', 'quadrupole')):
            ip.call(ip.getattr_(o, 'add_element', s, None), [const(nm), const(ty), ip.newdict(s, [(const('l'), sym('l_' + nm, 'num', 'notnone')), (const('k1'), sym('k_' + nm, 'num', 'notnone'))])], {}, s, None)
        ip.call(ip.getattr_(o, 'generate_matrix', s, None), [], {}, s, None)
        c.ob('matrix', 'generate_matrix with an element of type %s' % t, s.pc is FALSE, 'no error, the element is taken for another')
    # the matrices of the class stay as they are
    c.floor('matrix', 100)
    c.visited(ip)


# ------------------------------------------------------------------ Warp

WARP_TYPES = {'DRIF': 'Drft', 'CSRDRIFT': 'Drft', 'EDRIFT': 'Drft', 'LSCDRIFT': 'Drft', 'CSBEND': 'Bend', 'SBEN': 'Bend', 'CSRCSBEND': 'Bend', 'KSBEND': 'Bend',
              'NIBEND': 'Bend', 'RBEN': 'Bend', 'TUBEND': 'Bend', 'QUAD': 'Quad', 'KQUAD': 'Quad', 'SEXT': 'Sext', 'KSEXT': 'Sext'}
WARP = {
    'every drift': dict(elements=' '.join('d%d:%s:l' % (i, t) for i, t in enumerate(k for k, v in WARP_TYPES.items() if v == 'Drft')), lines={'MAIN': 'd0 d1 d2 d3 d1'}),
    'every bend': dict(elements=' '.join('b%d:%s:l,angle,e1' % (i, t) for i, t in enumerate(k for k, v in WARP_TYPES.items() if v == 'Bend')), lines={'MAIN': 'b0 b1 b2 b3 b4 b5 b6'}),
    'every magnet': dict(elements='q1:QUAD:l,k1 q2:KQUAD:k1,l s1:SEXT:l,k2 s2:KSEXT:k2,l', lines={'MAIN': 'q1 q2 s1 s2 q1'}),
    'lines inside lines': dict(elements='d:DRIF:l q:QUAD:l,k1 b:SBEN:l,angle', lines={'A': 'd q', 'B': 'A b -A', 'MAIN': 'B d B -A q'}),
    'names that begin alike': dict(elements='q:QUAD:l,k1 q1:QUAD:l,k1 q12:KQUAD:l,k1 longquad:QUAD:l,k1 longquad2:QUAD:l,k1 longquad2b:QUAD:l,k1', lines={'MAIN': 'q q1 q12 longquad longquad2 longquad2b q longquad2'}),
    'elements warp does not know': dict(elements='d:DRIF:l w:WATCH: r:RFCA:l,volt m:MARK:x', lines={'MAIN': 'w d r m d r'}),
}


def short_number(v):
    """is a number written with a few digits only?"""
    import re
    for q in v.args[1:]:
        if isinstance(q, Const) and isinstance(q.v, int) and v.op == 'f:round':
            return q.v < 12
        m = re.fullmatch(r'%?[-+ #0-9]*(?:\.(\d+))?([eEgGfF])', q.v) if isinstance(q, Const) and isinstance(q.v, str) else None
        if m:
            return int(m.group(1) or 6) + (m.group(2) in 'eE') < 12
    return False


def written(c, where, S, p, content, lits, letter):
    """the text of one Warp file, under the conditions lits"""
    if not all(isinstance(x, Const) and isinstance(x.v, str) for x in content):
        few = [q for q in leaves_of(tup(content), lambda l: isinstance(l, App) and l.op in ('fmt', 'format', 'str', 'f:round')) if short_number(q)]
        if few:
            return c.ob('warp', where + ', digits', False, 'a number is written as %s' % show(few[0]))
        return c.ob('warp', where, None, 'the text is not known: %s' % clip(show(tup(content)), 200))
    care = TRUE
    for i, pol in lits.items():
        care = band(care, V._node(i, TRUE, FALSE) if pol else V._node(i, FALSE, TRUE))
    text_ = ''.join(x.v for x in content)
    texts = letter.texts()
    want = list(S.flat('MAIN'))
    try:
        tree = ast.parse(text_)
    except SyntaxError as e:
        return c.ob('warp', where, False, 'the file is no Python: %s' % e)
    defs, line, once = {}, None, True
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call):
            nm = n.targets[0].id
            once = once and nm not in defs
            defs[nm] = (ast.unparse(n.value.func).split('.')[-1], {k.arg: ast.get_source_segment(text_, k.value) for k in n.value.keywords})
        elif isinstance(n, ast.Assign):
            line = (n.targets[0].id, [x.strip() for x in ast.unparse(n.value).split('+')])
    c.ob('warp', where + ', line', line == ('MAIN', [w['name'].upper() for w in want]), 'the line is %s, the elements are %s' % (line, [w['name'] for w in want]))
    c.ob('warp', where + ', definitions', once and set(defs) == {w['name'].upper() for w in want}, 'defined are %s' % sorted(defs))
    rho = E(p) * 1000000 / C_LIGHT
    for w in {id(w): w for w in want}.values():
        t = WARP_TYPES.get(w['type'].upper(), 'Drft')
        got = defs.get(w['name'].upper())
        if got is None:
            continue
        at = '%s, %s (%s)' % (where, w['name'], w['type'])
        c.ob('warp', at, got[0] == t, 'it is a %s' % got[0])
        q = {k: E(v) for k, v in w['pars'].items()}
        exp = {'l': q.get('l', E(0))}
        if t == 'Bend':
            exp['rc'] = q['l'] / q['angle']
        if t in ('Quad', 'Sext'):
            exp['db'] = -(q['k1'] if t == 'Quad' else q['k2']) * rho
        c.ob('warp', at + ' parameters', set(got[1]) == set(exp), 'the parameters are %s' % sorted(got[1]))
        for k, v in exp.items():
            if k in got[1]:
                x = got[1][k]
                v1 = texts.get(x)
                if v1 is None:
                    try:
                        v1 = const(float(x))
                    except ValueError:
                        v1 = const(x)
                for lo, hi in ((0.02, 2.), (0.05, 20000.)):
                    c.same('warp', '%s %s, %g to %g MeV/c' % (at, k, lo, hi), v1, v.v, domain={'p_central': (lo, hi)}, care=care, what=k)


def warp(c):
    """a Warp lattice has the elements of the elegant line, in order, with the fields of the reference momentum"""
    for title, spec in WARP.items():
        for first in ((False, True) if c.thorough or title == 'every magnet' else (False,)):
            ip = interp(3000000)
            ip.maxsum = 60
            stubs.disk(ip)
            g = stubs.sirepo_(ip)
            letter = stubs.numerals(ip)
            st = ip.fresh(PKL)
            fn_ = need(ip, st, PKL, 'elegant_to_warp')
            s = st.fork()
            S = Sirepo(ip, s, spec)
            p = sym('p_central', 'num', 'notnone')
            D = lambda **k: ip.newdict(s, [(const(a), b) for a, b in k.items()])
            setup = D(_type=const('run_setup'), p_central_mev=p)
            other = D(_type=const('run_control'), n_steps=sym('steps', 'num', 'notnone'))
            before = [D(_type=const('optimization_setup'), mode=const('maximize')), D(_type=const('global_settings'), p_central_mev=sym('p_other', 'num', 'notnone')),
                      D(_type=const('bunched_beam'), p_central_mev=sym('p_bunch', 'num', 'notnone')), other]
            ip.call(ip.base.heap[ip.modframes['$disk']].f['put'], [const('out.py'), const('OLD = wp.Drft( l=1,)\n')], {}, s, None)
            ip.setitem(ip.getitem(S.ref, const('models'), s, None), const('commands'), ip.newlist(s, before + [setup, other] if first else [setup] + before), s, None)
            ip.call(g('put'), [const('a.lte'), S.ref], {}, s, None)
            where = 'elegant_to_warp of %s%s' % (title, ', a command before run_setup' if first else '')
            r = ip.call(fn_, [const('a.lte'), const('out.py'), const('main')], {}, s, None)
            if s.pc is FALSE or r is BOT:
                c.ob('warp', where, False, 'raises %s' % [show(e) for _, e in s.pending][-1:])
                continue
            content = elems_of(ip, ip.getitem(ip.base.heap[ip.modframes['$disk']].f['_content'], const('out.py'), s, None), s)
            for lits, case in paths(*content or [const(None)]):
                written(c, where + (' when ' + show_lits(lits) if lits else ''), S, p, case, lits, letter)
            opened(ip, s, c, where)
            c.visited(ip)
            if title == 'every magnet' and not first:
                twice(c, ip, st)
    c.floor('warp', 40)


def twice(c, ip, st):
    """a writer writes the same file again"""
    s = st.fork()
    cls, W = need(ip, s, BL, 'StructuredBeamline'), need(ip, s, FW, 'WarpWriter')
    o = ip.call(cls, [const('main')], {}, s, None)
    for nm, t in (('d', 'drif'), ('q', 'quad'), ('d', 'drif'), ('w', 'watch')):
        ip.call(ip.getattr_(o, 'add_element', s, None), [const(nm), const(t), ip.newdict(s, [(const(k), sym('%s_%s' % (nm, k), 'num', 'notnone')) for k in ('l', 'db')])], {}, s, None)
    w = ip.call(W, [o, const('elegant')], {}, s, None)
    texts = []
    for f in ('one.py', 'two.py', 'one.py'):
        ip.call(ip.getattr_(w, 'write_file', s, None), [const(f)], {}, s, None)
        e = elems_of(ip, ip.getitem(ip.base.heap[ip.modframes['$disk']].f['_content'], const(f), s, None), s) if s.pc is not FALSE else None
        texts.append([show(x) for x in e] if e is not None else None)
    if None in texts:
        c.ob('warp', 'write_file twice', False if s.pc is FALSE else None, 'the text is not known')
    else:
        c.ob('warp', 'write_file twice', texts[0] == texts[1] == texts[2], 'the second file is %s, the first %s' % (clip(str(texts[1]), 200), clip(str(texts[0]), 200)))


def imports(c):
    sirepo(c)
    lte(c)
