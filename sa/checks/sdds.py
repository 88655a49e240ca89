"""SDDS files: what the writer lays down and what the reader picks up"""
import re
from .common import *
from .. import stubs

SD = 'rsbeams.rsdata.SDDS'
SIZES = {'double': 'd', 'short': 'h', 'long': 'i'}
NPTYPE = {'float64': 'd', 'double': 'd', 'float': 'd', 'f8': 'd', 'd': 'd', 'int16': 'h', 'short': 'h', 'i2': 'h', 'h': 'h',
          'int32': 'i', 'intc': 'i', 'i4': 'i', 'i': 'i', 'uint32': 'I', 'u4': 'I', 'uint16': 'H', 'int64': 'q', 'i8': 'q', 'int': 'q', 'long': 'q',
          'float32': 'f', 'f4': 'f', 'f': 'f', 'l': 'q'}


class Unknown(Exception):
    pass


class Wrong(Exception):
    pass


def nptype(v):
    """(byte order, code) of a type given to numpy"""
    if isinstance(v, Ext):
        return '=', NPTYPE.get(v.name.split('.')[-1], v.name)
    if isinstance(v, Const) and isinstance(v.v, str):
        o = v.v[0] if v.v[:1] in '<>=|!' and v.v else '='
        return o, NPTYPE.get(v.v.lstrip('<>=|!'), v.v)
    if isinstance(v, App) and v.op == 'call:numpy.dtype' and v.args:
        return nptype(v.args[0])
    raise Unknown('type %s' % show(v))


def scalar(v):
    while isinstance(v, App) and v.op in ('m:item', 'item') and len(v.args) == 1:
        v = v.args[0]
    return v


def parts(v):
    if isinstance(v, Tup):
        return list(v.items)
    if isinstance(v, App) and v.op in ('tuple', 'list', 'array'):
        return list(v.args)
    return []


def flatparts(v):
    for q in parts(v) if not (isinstance(v, App) and v.op == 'cat') else v.args:
        if isinstance(q, App) and q.op in ('cat', 'list'):
            yield from flatparts(q)
        else:
            yield q


def records(v):
    """[(order, code, column)], rows of a structured array"""
    if isinstance(v, App) and v.op in ('call:numpy.ascontiguousarray', 'call:numpy.asarray', 'call:numpy.array', 'm:copy') and len(v.args) == 1:
        v = v.args[0]
    if not (isinstance(v, App) and v.op == 'arr' and isinstance(v.args[0], App) and v.args[0].op == 'records'):
        raise Unknown('column data %s' % clip(show(v), 80))
    rec, rows = v.args[0].args
    if len(parts(rows)) != 1:
        raise Unknown('column data of shape %s' % show(rows))
    types = {}
    order = []
    for t in rec.args:
        t = parts(t)
        if len(t) != 2 or not isinstance(t[0], Const):
            raise Unknown('record type')
        types[t[0]] = nptype(t[1])
        order.append(t[0])
    vals = {}
    for s in v.args[1:]:
        if not (isinstance(s, App) and s.op == 'store' and len(parts(s.args[0])) == 1 and parts(s.args[0])[0] in types):
            raise Unknown('store %s' % show(s))
        vals[parts(s.args[0])[0]] = s.args[1]
    return [types[k] + (vals.get(k),) for k in order], parts(rows)[0]


def tokens(v):
    """what a sequence of writes puts in the file"""
    if isinstance(v, Ite):
        alts = []
        for _, l in cases(v):
            t = tokens(l)
            if t not in alts:
                alts.append(t)
        if len(alts) == 1:
            return alts[0]
        raise Unknown('what is written depends on %s' % V.show_atom(v.idx)[:80])
    if isinstance(v, Const):
        if isinstance(v.v, (bytes, str)):
            return [('t', v.v.decode('latin-1') if isinstance(v.v, bytes) else v.v)]
        raise Unknown('write of %s' % show(v))
    if isinstance(v, StrV):
        return join([t for p in v.parts for t in tokens(p)])
    if isinstance(v, Sym):
        if 'str' in v.attrs:
            return [('s', v)]
        raise Unknown('write of %s' % show(v))
    if isinstance(v, App):
        if v.op == 'encoded':
            return tokens(v.args[0])
        if v.op == 'str':
            return [('n', scalar(v.args[0]), 'str')]
        if v.op == 'fmt' and isinstance(v.args[1], Const):
            return [('n', scalar(v.args[0]), str(v.args[1].v).lstrip('%'))]
        if v.op in ('cat', 'list'):
            return join([t for p in v.args for t in tokens(p)])
        if v.op == 'savetxt':
            data, fmt, delim, nl, head, foot, com = v.args
            recs, rows = records(data)
            if not all(isinstance(q, Const) for q in (delim, nl, head, foot)):
                raise Unknown('table format')
            if isinstance(fmt, Const) and isinstance(fmt.v, str):
                fs = fmt.v.split(delim.v)
                fs = fs * len(recs) if len(fs) == 1 else fs
            elif isinstance(fmt, (App, Tup)) and all(isinstance(q, Const) for q in parts(fmt)):
                fs = [q.v for q in parts(fmt)]
            else:
                raise Unknown('table format %s' % show(fmt))
            return [('tab', [(o, t, x) for o, t, x in recs], fs, delim.v, nl.v, head.v + foot.v, rows)]
        if v.op in ('m:tobytes', 'm:tostring', 'bytes') and len(v.args) == 1:
            a = v.args[0]
            if isinstance(a, App) and a.op.startswith('call:numpy.') and a.op.split('.')[-1] in NPTYPE and len(a.args) == 1:
                return [('b', '=', NPTYPE[a.op.split('.')[-1]], scalar(a.args[0]))]
            if isinstance(a, App) and a.op == 'astype':
                return [('b',) + nptype(a.args[1]) + (scalar(a.args[0]),)]
            r, rows = records(a)
            return [('rec', r, rows)]
        if v.op in ('call:struct.pack',) and isinstance(v.args[0], Const):
            f = v.args[0].v
            if not isinstance(f, str):
                raise Unknown('packed format %r' % f)
            o, codes = (f[0], f[1:]) if f[:1] in '@=<>!' and f else ('@', f)
            codes = re.sub(r'\s', '', codes)
            if re.search('[^0-9xcbB?hHiIlLqQnNefdspP]', codes):
                raise Wrong('pack is given the format %r, which does not exist' % f)
            if not re.fullmatch('[a-zA-Z]*', codes) or len(codes) != len(v.args) - 1:
                raise Unknown('packed format %r' % f)
            return [('b', o, k, scalar(x)) for k, x in zip(codes, v.args[1:])]
        if v.op == 'opAdd':
            return join(tokens(v.args[0]) + tokens(v.args[1]))
    raise Unknown('write of %s' % clip(show(v), 80))


def join(ts):
    out = []
    for t in ts:
        if t[0] == 't' and not t[1]:
            continue
        if t[0] == 't' and out and out[-1][0] == 't':
            out[-1] = ('t', out[-1][1] + t[1])
        else:
            out.append(t)
    return out


def mark(ts):
    """text with the unknown values as private characters"""
    out, vals = '', []
    for t in ts:
        if t[0] == 't':
            out += t[1]
        else:
            out += chr(0xE000 + len(vals))
            vals.append(t)
    return out, vals


NAMELIST = re.compile(r'&(\w+)\s+((?:[^"&]|"[^"]*")*?)&end[ \t]*\n')
FIELD = re.compile(r'\s*(\w+)\s*=\s*("[^"]*"|[^",\s]+)\s*,?')


def parse_header(txt):
    """[(namelist, {field: (value, quoted)})], position after the header"""
    pos = 0
    out = []
    while True:
        if txt[pos:pos + 1] == '!':
            pos = txt.index('\n', pos) + 1
            continue
        m = NAMELIST.match(txt, pos)
        if m is None:
            return out, pos
        body = m.group(2)
        f, p = {}, 0
        while body[p:].strip():
            q = FIELD.match(body, p)
            if q is None:
                raise Unknown('header entry %r' % body[p:p + 30])
            val = q.group(2)
            f[q.group(1)] = (val[1:-1], True) if val[0] == '"' else (val, False)
            p = q.end()
        out.append((m.group(1), f))
        pos = m.end()
        if m.group(1) == 'data':
            return out, pos


PAR = {'parUnits': 'units', 'parSymbol': 'symbol', 'parFormatStr': 'format_string', 'parDescription': 'description'}
COL = {'colUnits': 'units', 'colSymbol': 'symbol', 'colFormatStr': 'format_string', 'colDescription': 'description'}


class Written:
    """one analysed use of the writer: parameters [(name, value, type, kwargs)], columns [(name, data, type, kwargs)]"""

    def __init__(self, ip, st, cls, pars, cols):
        self.ip, self.st = ip, st
        self.pars, self.cols = pars, cols
        self.w = ip.call(cls, [], {}, st, None)
        for nm, v, t, kw in pars:
            self.meth(st, 'create_parameter', const(nm), v, const(t), **kw)
        for nm, v, t, kw in cols:
            self.meth(st, 'create_column', const(nm), v, const(t), **kw)
        lens = [app('len', v) for _, v, _, _ in cols]
        for a, b in zip(lens, lens[1:]):
            st.pc = band(st.pc, V.cmp_eq(a, b))

    def meth(self, s, nm, *a, **k):
        return self.ip.call(self.ip.getattr_(self.w, nm, s, None), list(a), k, s, None)

    def save(self, mode, s=None, name=None):
        s = s or self.st.fork()
        n0 = len(s.events)
        a = [name or sym('path', 'str', 'notnone')] + ([const(mode)] if mode else [])
        self.meth(s, 'save_sdds', *a)
        return s, s.events[n0:]


def opened(evs):
    return [e for e in flat(evs) if e.kind == 'note' and e.name == 'open']


def contents(ip, s, evs):
    """tokens of the file named by the caller after the events; None if it was not opened"""
    ts = None
    for e in opened(evs):
        path, mode, target = e.args
        if not (isinstance(path, Sym) and path.name == 'path'):
            continue
        m = mode.v if isinstance(mode, Const) else '?'
        if not isinstance(m, str):
            raise Unknown('file opened with mode %s' % show(mode))
        if not m or set(m) - set('wab+t') or m[0] == 'a' and ts is None:
            raise Wrong('the file is opened with mode %r' % m)
        c = s.heap[target.id]
        v = ip.snap(c.f['_parts'], s)
        raw = [q for q in flatparts(v) if isinstance(q, Const) and isinstance(q.v, bytes) or isinstance(q, App) and q.op in ('call:struct.pack', 'm:tobytes', 'encoded')]
        if raw and 'b' not in m:
            raise Wrong('bytes are written to a file opened with mode %r' % m)
        got = tokens(v)
        ts = got if ts is None or m[0] != 'a' else join(ts + got)
    return ts


def expect_header(c, where, ts, pars, cols, mode):
    """the header the caller asked for; returns the tokens of the body"""
    txt, vals = mark(ts)
    uid = {}
    if not txt.startswith('SDDS1\n'):
        return c.violated('header', where, 'the file does not start with the line SDDS1 but %r' % txt[:12])
    line = txt[6:txt.find('\n', 6) + 1]
    order = re.match(r'!#\s*(\S+)-endian\s*\n', line)
    if order:
        k = order.group(1)
        t = vals[ord(k) - 0xE000] if len(k) == 1 and ord(k) >= 0xE000 else None
        ok = t is not None and isinstance(t[1], Ext) and t[1].name == 'sys.byteorder' or k == 'little'
        c.ob('header', where + ' byte order', ok, '' if ok else 'the byte order announced is %s' % (show(t[1]) if t else k))
    elif mode == 'binary':
        c.violated('header', where + ' byte order', 'no byte order is announced for binary data')
    try:
        nls, pos = parse_header(txt[6:])
    except Unknown as e:
        return c.violated('header', where, 'the header cannot be parsed at %s' % e)
    want = []
    for kind, items, table in (('parameter', pars, PAR), ('column', cols, COL)):
        for nm, v, t, kw in items:
            f = {'name': nm, 'type': t}
            for k, x in kw.items():
                if k in table:
                    f[table[k]] = x
                elif k == 'colFieldLen' and x is not const(0):
                    f['field_length'] = x
                elif k == 'parFixedVal':
                    f['fixed_value'] = x
            want.append((kind, f))
    got = [x for x in nls if x[0] != 'data']
    for kind, names in (('parameter', [p[0] for p in pars]), ('column', [p[0] for p in cols])):
        g = [f.get('name', ('?',))[0] for k, f in got if k == kind]
        if g != names:
            return c.violated('header', where, '%ss listed in the header are %s where %s were created' % (kind, g, names))
    for k, f in got:
        w = next((x for kk, x in want if kk == k and x['name'] == f['name'][0]), None)
        if w is None:
            c.violated('header', where, 'unexpected entry %s' % k)
            continue
        for fld in sorted(set(f) | set(w)):
            nm = '%s %s %s' % (where, k, fld)
            if fld not in w:
                if fld == 'field_length' and f[fld][0] in ('0',):
                    continue
                c.violated('header', nm, '%s is written although it was not given' % fld)
            elif fld not in f:
                c.violated('header', nm, '%s was given but is not written' % fld)
            else:
                txtv, quoted = f[fld]
                x = w[fld]
                if isinstance(x, str):
                    ok = txtv == x
                else:
                    t = vals[ord(txtv) - 0xE000] if len(txtv) == 1 and ord(txtv) >= 0xE000 else ('t', txtv)
                    if isinstance(x, Const):
                        ok = t[0] == 't' and same_text(t[1], x.v)
                    else:
                        ok = t[0] in ('s', 'n') and t[1] is x and (t[0] == 's' or t[2] == 'str' or fld == 'fixed_value' and digits(t[2]))
                    if ok and (isinstance(x, Sym) and 'str' in x.attrs or isinstance(x, Const) and isinstance(x.v, str)) and not quoted:
                        ok = False
                c.ob('header', nm, ok, '' if ok else '%s of %s reads %s in the file' % (fld, w['name'], repr(txtv) if ord(txtv[:1] or 'x') < 0xE000 else show(t[1]) + (' unquoted' if not quoted else '')))
    d = [f for k, f in nls if k == 'data']
    if len(d) != 1:
        return c.violated('header', where, 'the header is not closed by one &data entry')
    m = d[0].get('mode', ('binary', False))[0]
    c.ob('header', where + ' data mode', m == mode, '' if m == mode else 'data mode %s is announced for %s data' % (m, mode))
    extra = sorted(set(d[0]) - {'mode'} - {k for k, v in d[0].items() if (k, v[0]) in (('lines_per_row', '1'), ('no_row_counts', '0'), ('additional_header_lines', '0'))})
    c.ob('header', where + ' data options', not extra, '&data announces %s' % extra if extra else '')
    # what follows the header
    rest = 6 + pos
    out = []
    n = 0
    for t in ts:
        k = len(t[1]) if t[0] == 't' else 1
        if n + k > rest:
            out.append(('t', t[1][rest - n:]) if n < rest else t)
        n += k
    return out


def same_text(a, b):
    try:
        return a == str(b) or not isinstance(b, str) and float(a) == b
    except ValueError:
        return False


def digits(spec):
    """a number format that keeps every double apart"""
    m = re.fullmatch(r'[-+ #0]*\d*(?:\.(\d+))?([eEgGr])', spec)
    if spec in ('str', 'r', ''):
        return True
    return bool(m) and m.group(1) is not None and int(m.group(1)) >= (16 if m.group(2) in 'eE' else 17)


def expect_body(c, where, body, pars, cols, mode):
    """the data of the page in the layout of the mode"""
    want = []
    rows = app('len', cols[0][1]) if cols else const(0)
    text = lambda t: ('t', t)
    if mode == 'binary':
        want.append(('count', rows))
    for nm, v, t, kw in pars:
        if v is NONE:
            continue
        want.append(('par', nm, v, t))
    if mode == 'ascii' and cols:
        want.append(('count', rows))
    if cols:
        want.append(('columns', cols, rows))
    # split the tokens: ascii values end with a newline
    body = list(body)

    def bad(detail, who):
        return c.violated('body', '%s %s' % (where, who), detail)

    def desc(t):
        if t is None:
            return 'nothing'
        return {'t': lambda: 'the text %r' % t[1], 's': lambda: 'the text ' + show(t[1]), 'n': lambda: '%s as text' % show(t[1]),
                'b': lambda: '%s packed as %s%s' % (show(t[3]), t[1], t[2]), 'rec': lambda: 'the column records', 'tab': lambda: 'the column table'}[t[0]]()

    def newline(who):
        if body and body[0][0] == 't' and body[0][1][:1] == '\n':
            r = body.pop(0)[1][1:]
            if r:
                body.insert(0, ('t', r))
            return True
        bad('%s is not followed by a line end but by %s' % (who, desc(body[0] if body else None)), who)
        return False

    for w in want:
        who = {'count': 'row count', 'par': 'parameter ' + str(w[1]), 'columns': 'columns'}[w[0]]
        t = body.pop(0) if body else None
        if t is None:
            return bad('%s is missing' % who, who)
        if mode == 'ascii' and w[0] != 'columns':
            x = w[1] if w[0] == 'count' else w[2]
            if t[0] == 't' and isinstance(x, Const):
                line, nl, r = t[1].partition('\n')
                if r or nl:
                    body.insert(0, ('t', nl + r))
                ok = same_text(line, x.v)
            elif w[0] == 'par' and w[3] == 'string':
                ok = t[0] == 's' and t[1] is x or t[0] == 'n' and t[1] is x and t[2] == 'str'
            else:
                ok = t[0] == 'n' and t[1] is x and (t[2] in ('str', 'd', '') if w[0] == 'count' or w[3] != 'double' else digits(t[2]))
            if not ok:
                return bad('%s is written where the %s (%s) is required' % (desc(t), who, show(x)), who)
            if not newline(who):
                return
            c.holds('body', '%s %s' % (where, who))
        elif w[0] == 'count':
            ok = t[0] == 'b' and t[3] is w[1] and (t[2] in 'iI' or t[2] in 'lL' and t[1] in '=<') and t[1] in '@=<'
            if not ok:
                return bad('%s is written where the number of rows as a four byte integer is required' % desc(t), who)
            c.holds('body', '%s %s' % (where, who))
        elif w[0] == 'par':
            if w[3] == 'string':
                ok = t[0] == 'b' and t[2] == 'i' and t[1] in '@=<'
                if not ok:
                    return bad('%s is written where the length of the string %s is required' % (desc(t), w[1]), who)
                n = t[3]
                good = [app('len', app('encoded', w[2]))]
                if n is app('len', w[2]):
                    return bad('the length written is the number of characters, not of bytes', who)
                if n not in good:
                    return c.undecided('body', '%s %s' % (where, who), 'length %s' % show(n))
                t = body.pop(0) if body else None
                if t is None or t[0] not in 'sn' or t[1] is not w[2]:
                    return bad('%s follows the string length where the string itself is required' % desc(t), who)
            else:
                ok = t[0] == 'b' and t[3] is w[2] and t[1] in '@=<' and (t[2] == SIZES[w[3]] or w[3] == 'long' and t[2] == 'l' and t[1] in '=<')
                if not ok:
                    return bad('%s is written where %s as a %s is required' % (desc(t), w[1], w[3]), who)
            c.holds('body', '%s %s' % (where, who))
        else:
            if t[0] not in ('rec', 'tab') or (t[0] == 'rec') != (mode == 'binary'):
                return bad('%s is written where the columns are required' % desc(t), who)
            got = t[1]
            if len(got) != len(cols):
                return bad('%d columns are written for %d created' % (len(got), len(cols)), who)
            for i, ((nm, data, ty, kw), (o, code, val)) in enumerate(zip(cols, got)):
                k = '%s column %s' % (where, nm)
                if val is not data:
                    c.violated('body', k, 'column %s holds %s' % (nm, show(val) if val is not None else 'no data'))
                elif mode == 'binary':
                    ok = code == SIZES[ty] and o in '@=<|'
                    c.ob('body', k, ok, '' if ok else 'a %s column is stored as %s%s' % (ty, o, code))
                else:
                    f = t[2][i].lstrip('%') if i < len(t[2]) else ''
                    ok = digits(f) if ty == 'double' else f in ('d', 'i')
                    if code not in (SIZES[ty], 'd') and not (code in 'iq' and ty in ('short', 'long')):
                        ok = False
                    c.ob('body', k, ok, '' if ok else 'a %s column is written with format %r of %s' % (ty, '%' + f, code))
            if mode == 'ascii':
                ok = t[3].strip() == '' and t[3] and '\n' not in t[3] and t[4].strip(' ') == '\n' and not t[5]
                c.ob('body', where + ' table layout', ok, '' if ok else 'values separated by %r, rows by %r, extra text %r' % (t[3], t[4], t[5]))
            if t[-1] not in [app('len', q[1]) for q in cols]:
                c.violated('body', where + ' rows', 'the number of rows written is %s' % show(t[-1]))
    rest = [t for t in body if not (t[0] == 't' and mode == 'ascii' and not t[1].strip())]
    c.ob('body', where + ' end', not rest, 'the page is followed by %s' % desc(rest[0]) if rest else '')


def configurations(thorough):
    P = lambda i: sym('p%d' % i, 'num', 'notnone')
    X = lambda i: sym('X%d' % i, 'num', 'vec', 'notnone')
    T = lambda n: sym(n, 'str', 'text', 'notnone', 'nonempty')
    full = {k: T(v) for k, v in PAR.items()}
    cfull = {k: T('c' + v) for k, v in COL.items()}
    yield 'plain', [('pa', P(0), 'double', {})], [('ca', X(0), 'double', {})]
    yield 'attributes', [('pa', P(0), 'double', full), ('pb', P(1), 'long', {})], [('ca', X(0), 'double', cfull), ('cb', X(1), 'long', {})]
    for k in PAR:
        yield 'parameter ' + PAR[k], [('pa', P(0), 'double', {k: full[k]})], []
    for k in COL:
        yield 'column ' + COL[k], [], [('ca', X(0), 'double', {k: cfull[k]})]
    yield 'types', [('pd', P(0), 'double', {}), ('ps', P(1), 'short', {}), ('pl', P(2), 'long', {}), ('pt', T('text'), 'string', {}), ('pe', P(3), 'double', {})], \
        [('cd', X(0), 'double', {}), ('cs', X(1), 'short', {}), ('cl', X(2), 'long', {}), ('ce', X(3), 'double', {})]
    yield 'no columns', [('pd', P(0), 'double', {}), ('pl', P(2), 'long', {})], []
    yield 'no parameters', [], [('cs', X(1), 'short', {}), ('cd', X(0), 'double', {})]
    yield 'empty', [], []
    fx = lambda v: {'parFixedVal': v}
    yield 'fixed', [('pf', NONE, 'double', fx(const(2.5))), ('pd', P(0), 'double', {}), ('pz', NONE, 'long', fx(const(0))), ('pt', NONE, 'string', fx(const('two words'))),
                    ('pl', P(1), 'long', {})], [('cd', X(0), 'double', {})]
    yield 'fixed zero', [('pf', NONE, 'double', fx(const(0.0)))], []
    yield 'zero data', [('pz', const(0), 'long', {}), ('pd', const(0.0), 'double', {}), ('pl', P(1), 'long', {})], [('cd', X(0), 'double', {})]
    yield 'field length', [], [('cd', X(0), 'double', {'colFieldLen': const(12)}), ('ce', X(1), 'double', {})]


def writer(c):
    ip = interp(2000000)
    stubs.files(ip)
    st = ip.fresh(SD)
    cls = need(ip, st, SD, 'writeSDDS')
    for nm, pars, cols in configurations(c.thorough):
        s0 = st.fork()
        w = Written(ip, s0, cls, pars, cols)
        for mode in ('ascii', 'binary'):
            where = 'save_sdds[%s, %s]' % (nm, mode)
            n0 = len(s0.pending)
            s, evs = w.save(mode)
            if s.pc is FALSE:
                c.violated('saves', where, 'no path completes')
                continue
            crashes(c, 'saves', where, s, 0)
            try:
                ts = contents(ip, s, evs)
            except Unknown as e:
                c.undecided('file', where, str(e))
                continue
            except Wrong as e:
                c.violated('file', where, str(e))
                continue
            if ts is None:
                c.violated('file', where, 'the file is not written')
                continue
            body = expect_header(c, where, ts, pars, cols, mode)
            if isinstance(body, list):
                expect_body(c, where, body, pars, cols, mode)
            # a second save of the same object
            if nm in ('types', 'fixed', 'attributes'):
                for m2 in ('ascii', 'binary'):
                    s2, e2 = w.save(m2, s.fork())
                    s3, e3 = w.save(m2)
                    k = 'save_sdds[%s, %s after %s]' % (nm, m2, mode)
                    try:
                        a, b = contents(ip, s2, e2), contents(ip, s3, e3)
                    except (Unknown, Wrong) as e:
                        c.undecided('again', k, str(e))
                        continue
                    c.ob('again', k, a == b, '' if a == b else 'a second save writes something else')
    # default mode
    s0 = st.fork()
    w = Written(ip, s0, cls, [('pa', sym('p0', 'num', 'notnone'), 'double', {})], [])
    s, evs = w.save(None)
    try:
        a = contents(ip, s, evs)
        s, evs = w.save('ascii')
        c.ob('default', 'save_sdds', a == contents(ip, s, evs), 'the default mode is not ascii')
    except (Unknown, Wrong) as e:
        c.undecided('default', 'save_sdds', str(e))


def rejected(c):
    """a save that cannot be carried out leaves the file system, and the objects of the caller, as they were"""
    ip = interp(2000000)
    stubs.files(ip)
    st = ip.fresh(SD)
    cls = need(ip, st, SD, 'writeSDDS')
    P = lambda i: sym('p%d' % i, 'num', 'notnone')
    X = lambda i: sym('X%d' % i, 'num', 'vec', 'notnone')
    cols = [('ca', X(0), 'double', {}), ('cb', X(1), 'long', {}), ('cc', X(2), 'short', {})]
    lens = [app('len', x[1]) for x in cols]
    # modes
    for m in ('ASCII', 'Binary', 'text', '', 'asci', 'ascii ', None, 1):
        s0 = st.fork()
        w = Written(ip, s0, cls, [('pa', P(0), 'double', {})], cols)
        s = s0.fork()
        n0 = len(s.events)
        w.meth(s, 'save_sdds', sym('path', 'str', 'notnone'), const(m))
        op = opened(s.events[n0:])
        for sp, e in s.pending:
            op = op or opened(sp.events[n0:])
        c.ob('mode', 'save_sdds(dataMode=%r)' % (m,), not op, 'the file is opened for a mode that is not supported' if op else '')
    # lengths of the columns
    dom = {l: (lambda q: float(q.randint(0, 2))) for l in lens}
    for k in (2, 3):
        for mode in ('ascii', 'binary'):
            s0 = st.fork()
            w = Written(ip, s0, cls, [('pa', P(0), 'double', {})], cols[:k])
            s0.pc = TRUE
            s, evs = w.save(mode)
            op = opened(evs)
            where = 'save_sdds[%d columns, %s]' % (k, mode)
            if not op:
                c.violated('lengths', where, 'the file is never written')
                continue
            cond = FALSE
            for e in op:
                cond = bor(cond, e.cond)
            ok = TRUE
            for a, b in zip(lens[:k], lens[1:k]):
                ok = band(ok, V.cmp_eq(a, b))
            if cond is ok:
                c.holds('lengths', where)
                continue
            # compare the two gates on lengths
            bad = None
            import itertools
            for vals in itertools.product((0, 1, 2), repeat=k):
                m = {l: const(x) for l, x in zip(lens, vals)}
                g, h = V.truth(refold(subst(cond, m))), len(set(vals)) == 1
                if g is TRUE and not h or g is FALSE and h:
                    bad = vals
                    break
                if g is not TRUE and g is not FALSE:
                    bad = '?'
            if bad == '?':
                c.undecided('lengths', where, 'opened when %s' % clip(show(cond)))
            else:
                c.ob('lengths', where, bad is None, 'column lengths %s: the file is %s' % (bad, 'overwritten' if bad and len(set(bad)) > 1 else 'not written') if bad else '')
    # nothing that can fail comes after the file has been truncated
    for nm, pars, cols_ in configurations(c.thorough):
        s0 = st.fork()
        w = Written(ip, s0, cls, pars, cols_)
        for mode in ('ascii', 'binary'):
            s, evs = w.save(mode)
            where = 'save_sdds[%s, %s]' % (nm, mode)
            seen = False
            late = None
            for e in flat(evs):
                if e.kind == 'note' and e.name == 'open':
                    seen = True
                elif seen and e.kind in ('call', 'method') and late is None and e.name not in ('print', 'write', 'flush', 'close'):
                    late = e
            for sp, x in s.pending:
                if opened(sp.events) and late is None:
                    late = x
            c.ob('order', where, late is None, 'the file is already truncated when %s is evaluated' % (late.name if isinstance(late, Ev) else clip(show(late))) if late is not None else '')
            still = [x for x in closed_state(s, evs) if x]
            c.ob('closed', where, not still, 'the file is left open' if still else '')
    # requests the writer cannot represent
    s0 = st.fork()
    for t in ('float', 'character', 'int', 'Double', '', 'char'):
        for meth in ('create_column', 'create_parameter'):
            s = s0.fork()
            w = ip.call(cls, [], {}, s, None)
            pc0 = s.pc
            ip.call(ip.getattr_(w, meth, s, None), [const('n'), P(0), const(t)], {}, s, None)
            c.ob('type', '%s(type=%r)' % (meth, t), s.pc is FALSE, 'a type that cannot be written is accepted' if s.pc is not FALSE else '')
    for v in (const(1.0), const(0), const('a')):
        s = s0.fork()
        w = ip.call(cls, [], {}, s, None)
        ip.call(ip.getattr_(w, 'create_parameter', s, None), [const('n'), P(0), const('double')], {'parFixedVal': v}, s, None)
        c.ob('fixed', 'create_parameter(parFixedVal=%s)' % show(v), s.pc is FALSE, 'a fixed value is accepted together with data' if s.pc is not FALSE else '')


def refold(v):
    return ap(lambda l: l, v)


def closed_state(s, evs):
    out = []
    for e in opened(evs):
        t = e.args[2]
        ok = any(q.kind == 'exit' and q.args and q.args[0] is t or q.kind == 'note' and q.name == 'close' and q.args[0] is t for q in flat(evs))
        out.append(None if ok else t)
    return out


# ---------------------------------------------------------------- reader
RTYPES = {'double': 'd', 'float': 'f', 'long': 'i', 'short': 'h'}


class Read:
    """one analysed use of the reader on files with a given header"""

    def __init__(self, header, kw=None, pages=None, truncated=False, before=None):
        self.ip = ip = interp(2000000)
        stubs.source(ip, header, truncated)
        self.st = st = ip.fresh(SD)
        cls = need(ip, st, SD, 'readSDDS')
        self.s = s = st.fork()
        self.o = ip.call(cls, [sym('path', 'str', 'notnone')], dict(kw or {}), s, None)
        self.n_init = len(s.events)
        if before is not None:
            before(self)

    def attr(self, name):
        return self.ip.getattr_(self.o, name, self.s, None)

    def value(self, name):
        return self.ip.snap(self.attr(name), self.s)

    def call(self, name, *a, **k):
        return self.ip.call(self.attr(name), list(a), k, self.s, None)

    def read(self, pages=None, how='list'):
        n0 = len(self.s.events)
        k = {}
        if pages is not None:
            q = self.ip.newlist(self.s, [const(p) for p in pages])
            if how in ('iter', 'set', 'tuple', 'numpy.array'):
                q = self.ip.call(ext(how), [q], {}, self.s, None)
            elif how == 'range':
                q = self.ip.call(ext(how), [const(pages[0]), const(pages[-1] + 1)], {}, self.s, None)
            k = {'pages': q}
        self.call('read', **k)
        return self.s.events[n0:]


def carried(v):
    """loop-carried variables in a position"""
    return list(leaves_of(v, lambda x: isinstance(x, App) and x.op == 'loopin'))


def lid_of(sv):
    return sv.args[0].v if isinstance(sv.args[0], Const) else sv.args[0]


def eqpos(a, b):
    return a is b or V.cmp_eq(a, b) is TRUE


class Layout:
    """where the header puts the items of a page, as positions relative to the first byte (line) of the page"""

    def __init__(self, c, where, R, mode, pars, cols, nrc, maxlen):
        self.c, self.where, self.R, self.mode, self.pars, self.cols, self.nrc, self.maxlen = c, where, R, mode, pars, cols, nrc, maxlen
        self.bad = False
        self.seen = {}
        self.earlier = ()

    def violated(self, rule, who, d):
        self.bad = True
        self.c.violated(rule, '%s %s' % (self.where, who), d)

    def undecided(self, rule, who, d):
        self.bad = True
        self.c.undecided(rule, '%s %s' % (self.where, who), d)

    def values_at(self, *terms):
        """values read from the body, by position"""
        for t in terms:
            for v in leaves_of(t, lambda x: isinstance(x, App) and x.op in ('val', 'rdf')):
                self.seen.setdefault(v.args[0], set()).add(v)

    def number(self, pos, who):
        """the integer read at a position (row count or string length)"""
        vs = {v for p, w in self.seen.items() if eqpos(p, pos) for v in w if v.op == 'val'}
        good = {v for v in vs if nptype(v.args[1])[1] in ('i', 'I', 'l')}
        if self.mode == 'ascii':
            good |= {v for v in vs if nptype(v.args[1])[1] in ('q',)}
        if len(good) == 1:
            return good.pop()
        if not good:
            self.violated('layout', who, 'no four byte integer is read at %s where the file has the %s%s' % (
                show(pos), who, '; read there: ' + clip(show(next(iter(vs)))) if vs else ''))
        else:
            self.undecided('layout', who, 'several readings at %s' % show(pos))
        return None


def string_type(t):
    """length of a byte string type; None if it is not one"""
    if isinstance(t, Const) and isinstance(t.v, str):
        m = re.fullmatch(r'[<>=|]?([SaU])(\d+)', t.v)
        return const(int(m.group(2))) if m else None
    if isinstance(t, StrV):
        return stubs.itemsize(t)
    return None


def same_type(t, ty, mode, maxlen=None, length=None):
    """None if the type t fits a field declared as ty"""
    if ty == 'string':
        n = string_type(t)
        if n is None:
            return 'a string is read as %s' % show(t)
        if length is not None:
            return None if n is length or V.cmp_eq(n, length) is TRUE else 'a string of length %s is read as %s bytes' % (show(length), show(n))
        if maxlen is not None and (not isinstance(n, Const) or n.v != maxlen):
            return 'a string is kept as %s where up to %d characters were asked for' % (show(t), maxlen)
        return None
    if isinstance(t, StrV):
        return '%s is read as %s' % (ty, show(t))
    o, k = nptype(t)
    if o == '>':
        return '%s is read as %s%s' % (ty, o, k)
    want = {'double': 'd', 'float': 'f', 'long': 'i', 'short': 'h'}[ty]
    if k == want or mode == 'ascii' and (k == 'd' and want == 'f' or k in 'iq' and want in 'hi'):
        return None
    return '%s is read as %s' % (ty, k)


WIDTH = {'double': 8, 'float': 4, 'long': 4, 'short': 2}


def page_values(v):
    """[(condition, page value or None)] of the stored pages: what each iteration of the page loop contributes"""
    out = []
    for cond, l in cases(v):
        if l is NONE:
            out.append((cond, None, None))
        elif isinstance(l, App) and l.op in ('array', 'list', 'tuple', 'm:array', 'call:numpy.array'):
            out += page_list(l, cond)
        elif isinstance(l, App) and l.op == 'arr':
            for st in l.args[1:]:
                if not (isinstance(st, App) and st.op == 'store'):
                    raise Unknown('stored pages %s' % clip(show(st), 100))
                if not (isinstance(st.args[0], App) and len(st.args[0].args) == 1 or isinstance(st.args[0], Tup) and len(st.args[0].items) == 1):
                    raise Unknown('place of a page %s' % clip(show(st.args[0]), 100))
                for c2, x in cases(st.args[1]):
                    if isinstance(x, App) and x.op == 'elem' and isinstance(x.args[0], App) and x.args[0].op == 'uninit':
                        continue
                    c2 = band(cond, c2)
                    if isinstance(x, App) and x.op == 'elem' and len(x.args) == 2 and isinstance(x.args[1], App) and x.args[1].op == 'loopvar':
                        for c3, y in cases(x.args[0], c2):
                            if isinstance(y, App) and y.op in ('list', 'array'):
                                out += page_list(y, c3)
                            else:
                                raise Unknown('stored pages %s' % clip(show(y), 100))
                        continue
                    out.append((c2, x, None))
        else:
            raise Unknown('stored pages %s' % clip(show(l), 100))
    return out


def page_list(l, cond):
    """the contributions of a list that is filled page by page"""
    out = [] if l.args else [(cond, None, None)]
    for q in l.args:
        if not (isinstance(q, App) and q.op == 'rep'):
            raise Unknown('stored pages %s' % clip(show(q), 100))
        out += [(band(cond, c2), x, q.args[0]) for c2, x in cases(q.args[1]) if band(cond, c2) is not FALSE]
    return out


def deref(R, v):
    """objects named in a term, replaced by what they hold"""
    for _ in range(4):
        refs = list(leaves_of(v, lambda x: isinstance(x, Ref)))
        if not refs:
            return v
        m = {}
        for r in refs:
            w = R.ip.snap(r, R.s)
            if w is not r:
                m[r] = w
        if not m:
            return v
        v = subst(v, m)
    return v


def names_types(t):
    out = []
    for x in parts(t):
        q = parts(x)
        if len(q) != 2 or not isinstance(q[0], Const):
            raise Unknown('record type %s' % clip(show(t), 100))
        out.append((q[0].v, q[1]))
    return out


def fields(v):
    """{name: (value, type)} of one record, extracted from a merged or a read record"""
    if v.op == 'arr' and isinstance(v.args[0], App) and v.args[0].op == 'records':
        types = dict(names_types(v.args[0].args[0]))
        out = {}
        for s in v.args[1:]:
            if not (isinstance(s, App) and s.op == 'store'):
                raise Unknown('record %s' % clip(show(s), 100))
            k = parts(s.args[0])
            if len(k) != 1 or not isinstance(k[0], Const):
                raise Unknown('record %s' % clip(show(s), 100))
            x = s.args[1]
            while isinstance(x, App) and x.op in ('array', 'list') and len(x.args) == 1:
                x = x.args[0]
            out[k[0].v] = (x, types.get(k[0].v))
        for k in types:
            out.setdefault(k, (None, types[k]))
        return out
    if v.op in ('record', 'textrecord'):
        p, t, n = v.args
        if n is not const(1):
            raise Unknown('record of %s rows' % show(n))
        out = {}
        off = const(0)
        for k, ty in names_types(t):
            out[k] = (app('val', nadd(p, off) if v.op == 'record' else p, ty), ty)
            off = nadd(off, stubs.itemsize(ty) or app('itemsize', ty))
        return out
    raise Unknown('record %s' % clip(show(v), 100))


def read_case(c, where, mode, buf, pars, cols, nrc=False, pages=None, maxlen=None, again=False, style=None, how='list'):
    """one reading of a file with the given layout against the layout itself"""
    hdr = [b'SDDS1\n', b'!# little-endian\n']
    for nm, ty, fx in pars:
        hdr.append(b'&parameter name="%s", type=%s, %s&end\n' % (nm.encode(), ty.encode(), b'fixed_value=%s, ' % fx.encode() if fx is not None else b''))
    for nm, ty, fl in cols:
        hdr.append(b'&column name="%s", type=%s, %s&end\n' % (nm.encode(), ty.encode(), b'field_length=%d, ' % fl if fl else b''))
    hdr.append(b'&data mode=%s, %s&end\n' % (mode.encode(), b'no_row_counts=1, ' if nrc else b''))
    if style:
        hdr = restyle(hdr, style)
    kw = {'buffer': const(buf)}
    if maxlen is not None:
        kw['max_string_length'] = const(maxlen)
    ml = 100 if maxlen is None else maxlen
    R = Read(hdr, kw)
    if R.s.pc is FALSE:
        return c.violated('reads', where, 'the header is not accepted')
    if again:
        R.read([0])
        if again == 'select':
            R.read([2])
        if R.s.pc is FALSE:
            return c.violated('reads', where, 'an earlier read never returns')
        R.s.pc = TRUE
    earlier = {int(e.name) for e in flat(R.s.events) if e.kind == 'loop'}
    evs = R.read(pages, how)
    c.visited(R.ip)
    if R.s.pc is FALSE:
        return c.violated('reads', where, 'read never returns' + (': raises %s' % show(R.s.pending[-1][1]) if R.s.pending else ''))
    try:
        L = Layout(c, where, R, mode, pars, cols, nrc, ml)
        L.earlier = earlier
        layout(c, where, R, L, evs, buf, pages, cols)
    except Unknown as e:
        c.undecided('layout', where, str(e))


def layout(c, where, R, L, evs, buf, pages, cols):
    mode, ip, s = L.mode, R.ip, R.s
    loops = [e for e in evs if e.kind == 'loop' and any(q.kind == 'note' and q.name == 'rd' for q in flat(e.inner))]
    if len(loops) != 1:
        raise Unknown('%d loops read the body of the file' % len(loops))
    lid = int(loops[0].name)
    info = ip.loopinfo[lid]
    state = info.get('state', {})
    rds = [q for q in flat(loops[0].inner) if q.kind == 'note' and q.name == 'rd']
    P = deref(R, R.value('parameters'))
    C = deref(R, R.value('columns'))
    p0 = ip.snap(rds[0].args[0], s)
    mine = [x for x in carried(p0)]
    if not mine or any(x not in state for x in mine):
        raise Unknown('position of a page %s' % show(p0))
    old = subst(p0, {x: state[x][0] for x in mine})
    new = subst(p0, {x: state[x][1] for x in mine})
    H = const(ip.header_size)
    ok = eqpos(old, H)
    c.ob('start', where, ok, '' if ok else 'the first page is read from position %s, the header ends at %s' % (show(old), show(H)))
    inner = [i.get('state', {}) for i in ip.loopinfo.values()]
    L.values_at(P, C, new, *[ip.snap(a, s) for q in rds for a in q.args], *[t for st in inner for ab in st.values() for t in ab])
    # items before the columns
    pos = p0
    where_is = {}
    free = [(nm, ty) for nm, ty, fx in L.pars if fx is None]
    rows = None
    if mode == 'binary':
        rows = L.number(pos, 'row count')
        pos = nadd(pos, const(4))
    for nm, ty in free:
        if mode == 'binary' and ty == 'string':
            n = L.number(pos, 'length of %s' % nm)
            if n is None:
                return
            pos = nadd(pos, const(4))
            where_is[nm] = (pos, ty, n)
            pos = nadd(pos, n)
        else:
            where_is[nm] = (pos, ty, None)
            pos = nadd(pos, const(1 if mode == 'ascii' else WIDTH[ty]))
    if mode == 'ascii' and cols and not L.nrc:
        rows = L.number(pos, 'row count')
        pos = nadd(pos, const(1))
    if rows is None and (mode == 'binary' or cols and not L.nrc):
        return
    # parameters
    got = page_values(P)
    if where_is:
        vals = [g for g in got if g[1] is not None]
        if not vals:
            c.violated('parameters', where, 'no parameter is stored')
        for g in vals:
            if not stays(L, 'parameters', g, lid):
                continue
            f = fields(g[1])
            for nm, (q, ty, n) in where_is.items():
                k = '%s parameter %s' % (where, nm)
                if nm not in f:
                    c.violated('parameters', k, 'the stored record has the fields %s' % sorted(f))
                    continue
                v, t = f[nm]
                if v is None:
                    c.violated('parameters', k, 'the field is never filled')
                    continue
                if not (isinstance(v, App) and v.op == 'val'):
                    c.undecided('parameters', k, 'value %s' % clip(show(v), 100))
                    continue
                d = same_type(v.args[1], ty, mode, L.maxlen, n) or same_type(t, ty, mode, L.maxlen)
                if not eqpos(v.args[0], q):
                    d = 'the value is read at %s, the file has it at %s' % (rel(v.args[0], p0), rel(q, p0))
                c.ob('parameters', k, d is None, d or '')
    elif L.pars and [g for g in got if g[1] is not None] and mode == 'ascii' and not cols:
        c.violated('parameters', where, 'parameters are stored although the page holds none')
    # columns
    end = pos
    if cols:
        end = columns(c, where, R, L, C, pos, rows, lid, p0)
        if end is None:
            return
    if mode == 'ascii' and L.nrc:
        end = [(q, nadd(e, const(1))) for q, e in end] if isinstance(end, list) else nadd(end, const(1))
    # where the next page is looked for
    for lits, (n,) in V.paths(deref(R, new)):
        want = end
        if isinstance(end, list):
            zero = emptiness(lits, rows if rows is not None else L.rows)
            want = dict(end).get(zero, dict(end).get(None))
            if zero is None and len(dict(end)) > 1:
                # nothing distinguishes the two: both must agree when there are no rows
                want = dict(end)[False]
        if want is None:
            continue
        ok = eqpos(n, want)
        if not ok and n.__class__ is App and n.op not in ('loopin', 'val'):
            c.undecided('next page', where, 'position %s' % clip(show(n), 100))
            break
        if not ok:
            c.violated('next page', where, 'the next page is looked for at %s, this page ends at %s%s' % (rel(n, p0), rel(want, p0), ' when ' + clip(V.show_lits(lits), 150) if lits else ''))
            break
    else:
        c.holds('next page', where)
    selection(c, where, R, L, P, C, pages, lid, p0, loops[0], buf, evs)


def rel(p, p0):
    d = nadd(p, p0, -1) if not isinstance(p, Ite) else p
    return 'page start + %s' % clip(show(d), 120)


def stays(L, rule, g, lid):
    if g[2] is not None and g[2] is not lid and lid_of_rep(g[2]) != lid:
        if lid_of_rep(g[2]) in L.earlier:
            L.violated(rule, 'pages', 'pages of an earlier read are kept')
        else:
            L.undecided(rule, 'pages', 'pages are collected by another loop')
        return False
    return True


def lid_of_rep(x):
    return x.v if isinstance(x, Const) else x


def emptiness(lits, rows):
    """True/False if the literals say that there are no rows / some rows"""
    for i, pol in lits.items():
        a = V.atom_of(i)
        for w in a[1:]:
            if w is rows and a[0] in ('eq', 'eqv', 'truth'):
                return pol if a[0] != 'truth' else not pol
    n = V._node
    z = V.cmp_eq(rows, const(0)) if rows is not None else None
    if isinstance(z, Ite):
        r = V.restrict(z, conj(lits))
        if r is TRUE:
            return True
        if r is FALSE:
            return False
    return None


def conj(lits):
    r = TRUE
    for i, pol in lits.items():
        q = V._node(i, TRUE, FALSE)
        r = band(r, q if pol else bnot(q))
    return r


def columns(c, where, R, L, C, start, rows, lid, p0):
    """the column values against the layout; returns the end of the page [(no rows, position)]"""
    ip, s, mode, cols = R.ip, R.s, L.mode, L.cols
    got = page_values(C)
    vals = [g for g in got if g[1] is not None]
    if not vals:
        c.violated('columns', where, 'no column is stored')
        return None
    stacked(c, where, R, C)
    if rows is None:
        # rows are counted up to the blank line
        recs = [x for g in vals for x in leaves_of(g[1], lambda x: isinstance(x, App) and x.op in ('record', 'textrecord'))]
        cnt = {l for x in recs for _, l in cases(x.args[2])} - {NONE}
        if len(cnt) != 1:
            raise Unknown('number of rows %s' % [clip(show(x), 60) for x in cnt])
        rows = L.rows = cnt.pop()
        row_counter(c, where, R, L, rows, start)
    end = None
    texts = [q for e in R.s.events for q in flat([e]) if q.kind == 'note' and q.name == 'text']
    for g in vals:
        if not stays(L, 'columns', g, lid):
            continue
        for cond, x in cases(g[1], g[0]):
            if isinstance(x, App) and x.op == 'records':
                x = app('arr', x)
            if isinstance(x, App) and x.op == 'arr' and len(x.args) == 1 and isinstance(x.args[0], App) and x.args[0].op == 'records':
                # an empty table
                t, n = x.args[0].args
                n = parts(n)
                if len(n) != 1 or n[0] is not const(0):
                    raise Unknown('table of %s rows' % show(x.args[0].args[1]))
                zero = all(emptiness(lits, rows) for lits, (p,) in V.paths(cond) if p is TRUE)
                c.ob('columns', where + ' no rows', zero, '' if zero else 'an empty table is stored for a page that has rows')
                have = [k for k, _ in names_types(t)]
                ok = have == [k for k, _, _ in cols]
                c.ob('columns', where + ' names of an empty page', ok, '' if ok else 'the empty table has the fields %s' % have)
                continue
            e = table(c, where, R, L, x, start, rows, p0, cond)
            if e is not None:
                end = e
    if end is None:
        return None
    return [(False, end), (True, start)]


def stacked(c, where, R, C):
    """pages of different length are not stacked into one array"""
    guarded = False
    for m in c_project().modules.values():
        if m.name.startswith('rsbeams.rsdata'):
            for n in ast.walk(m.tree):
                guarded = guarded or isinstance(n, ast.Try) and any(isinstance(q, ast.Call) and ast.unparse(q.func).split('.')[-1] in ('array', 'asarray', 'stack') for b in n.body for q in ast.walk(b))
    for cond, l in cases(C):
        if isinstance(l, App) and l.op in ('array', 'call:numpy.array', 'call:numpy.stack') and leaves_of(l, lambda x: isinstance(x, App) and x.op == 'rep'):
            v = cond is not TRUE
            c.ob('lengths', where, True if v else None if guarded else False, 'the pages are stacked whatever their lengths')


def row_counter(c, where, R, L, rows, start):
    """rows counted from the start of the columns, one by one from zero"""
    ip = R.ip
    sv = carried(rows)
    if len(sv) != 1 or sv[0] is not rows:
        raise Unknown('number of rows %s' % clip(show(rows), 80))
    st = ip.loopinfo[lid_of(sv[0])]['state']
    old, new = st[sv[0]]
    ok = old is const(0) and eqpos(new, nadd(sv[0], const(1)))
    c.ob('row count', where, ok, '' if ok else 'rows are counted from %s by %s' % (show(old), show(nadd(new, sv[0], -1))))
    other = [(a, o, n) for a, (o, n) in st.items() if a is not sv[0] and isinstance(a, App) and eqpos(n, nadd(a, const(1)))]
    if other:
        ok = any(eqpos(o, start) for _, o, _ in other)
        c.ob('row count', where + ' from', ok, '' if ok else 'rows are counted from line %s' % show(other[0][1]))
        return
    for a, (o, n) in st.items():
        for g in leaves_of(n, lambda x: isinstance(x, App) and x.op == 'getitem' and len(x.args) == 2):
            k = g.args[1]
            if isinstance(g.args[0], Ref) and isinstance(k, SliceV) and k.hi is NONE:
                base = ip.models['__startof__'](ip, R.s, None, [g.args[0]], {}, None)
                lo = const(0) if k.lo is NONE else k.lo
                ok = eqpos(nadd(base, lo), start)
                c.ob('row count', where + ' from', ok, '' if ok else 'rows are counted from line %s' % show(nadd(base, lo)))
                return
    c.undecided('row count', where + ' from', 'lines counted')


def table(c, where, R, L, x, start, rows, p0, cond):
    """the value of all columns of a page; returns the position behind it"""
    ip, mode, cols = R.ip, L.mode, L.cols
    strings = any(ty == 'string' for _, ty, _ in cols)
    if isinstance(x, App) and x.op in ('record', 'textrecord'):
        p, t, n = x.args
        if mode == 'binary' and strings:
            raise Unknown('strings read in one go')
        have = names_types(t)
        ok = [k for k, _ in have] == [k for k, _, _ in cols]
        c.ob('columns', where + ' names', ok, '' if ok else 'the fields read are %s' % [k for k, _ in have])
        if not ok:
            return None
        for (k, ft), (_, ty, fl) in zip(have, cols):
            d = same_type(ft, ty, mode, abs(fl) if fl else L.maxlen)
            c.ob('columns', '%s column %s' % (where, k), d is None, d or '')
        ok = eqpos(p, start)
        c.ob('columns', where + ' position', ok, '' if ok else 'columns are read at %s, the file has them at %s' % (rel(p, p0), rel(start, p0)))
        good = all(l is rows or l is NONE and L.nrc for _, l in cases(n))
        c.ob('columns', where + ' rows', good, '' if good else '%s rows are read where the page has %s' % (clip(show(n), 80), show(rows)))
        ok = x.op == 'record'
        c.ob('columns', where + ' row axis', ok, '' if ok else 'a page with a single row loses its row axis')
        if mode == 'ascii':
            return nadd(start, rows)
        w = sum(WIDTH[ty] for _, ty, _ in cols)
        return nadd(start, nmul(const(w), rows))
    if isinstance(x, App) and x.op == 'joined' and mode == 'binary' and strings:
        lid2, row = x.args
        f = fields(row)
        allcar = {}
        vs = [v for v, _ in f.values() if v is not None]
        for v in vs:
            for sv in carried(v):
                for i in ip.loopinfo.values():
                    if sv in i.get('state', {}) and not any(y is sv for y in carried(p0)):
                        allcar[sv] = i
        lids = {lid_of(a) for a in allcar}
        if len(lids) != 1:
            raise Unknown('rows are read by %d loops' % len(lids))
        st = ip.loopinfo[lids.pop()]
        dom = st['dom']
        cnt = dom.args if isinstance(dom, App) and dom.op == 'range' else None
        if cnt is None:
            raise Unknown('rows %s' % show(dom))
        n = cnt[0] if len(cnt) == 1 else nadd(cnt[1], cnt[0], -1) if len(cnt) == 2 or cnt[2] is const(1) else None
        ok = n is not None and eqpos(n, rows)
        c.ob('columns', where + ' rows', ok, '' if ok else '%s rows are read where the page has %s' % (show(dom), show(rows)))
        # the first item of a row
        have = [k for k in f if f[k][0] is not None]
        if have != [k for k, _, _ in cols]:
            c.violated('columns', where + ' names', 'the fields read are %s' % have)
            return None
        first = f[cols[0][0]][0].args[0]
        r0 = nadd(first, const(-4)) if cols[0][1] == 'string' else first
        m_old = {a: st['state'][a][0] for a in carried(r0) if a in st['state']}
        m_new = {a: st['state'][a][1] for a in carried(r0) if a in st['state']}
        ro = subst(r0, m_old)
        ok = eqpos(ro, start)
        c.ob('columns', where + ' position', ok, '' if ok else 'columns are read at %s, the file has them at %s' % (rel(ro, p0), rel(start, p0)))
        pos = r0
        for k, ty, fl in cols:
            n = None
            if ty == 'string':
                n = L.number(pos, 'length of %s' % k)
                if n is None:
                    return None
                pos = nadd(pos, const(4))
            v, t = f[k]
            d = same_type(v.args[1], ty, mode, None, n) or same_type(t, ty, mode, L.maxlen)
            if not eqpos(v.args[0], pos):
                d = 'the value is read at row start + %s, the file has it at row start + %s' % (show(nadd(v.args[0], r0, -1)), show(nadd(pos, r0, -1)))
            c.ob('columns', '%s column %s' % (where, k), d is None, d or '')
            pos = nadd(pos, n if n is not None else const(WIDTH[ty]))
        rn = subst(r0, m_new)
        ok = eqpos(rn, pos)
        c.ob('columns', where + ' next row', ok, '' if ok else 'the next row is looked for at row start + %s, this one ends at row start + %s' % (show(nadd(rn, r0, -1)), show(nadd(pos, r0, -1))))
        return rn
    raise Unknown('columns %s' % clip(show(x), 120))


def selection(c, where, R, L, P, C, pages, lid, p0, loop, buf, evs):
    """which pages are kept, and when reading stops"""
    ip = R.ip
    idx = set()
    for t in (P, C, R.s.pc):
        idx |= set(leaves_of(t, lambda x: isinstance(x, App) and x.op == 'index' and isinstance(x.args[0], App) and x.args[0].op == 'stream'))
    # one value per page is drawn from every counter
    finds = [e for e in flat(loop.inner) if e.kind == 'note' and e.name == 'find']
    # the end of the file
    stop = R.s.pc
    eof = [x for x in leaves_of(stop, lambda x: isinstance(x, App) and x.op == 'eof')]
    base = stop
    if pages is not None:
        if len(idx) != 1:
            raise Unknown('page number among %d counters' % len(idx))
        i = idx.pop()
        last = max(pages)
        for what, t in (('parameters', P), ('columns', C)):
            if what == 'columns' and not L.cols or what == 'parameters' and not [p for p in L.pars if p[2] is None]:
                continue
            wrong = None
            for k in range(last + 3):
                v = fold(subst(t, {i: const(k)}))
                kept = {bool(g[1] is not None) for g in page_values(v)}
                if len(kept) > 1:
                    raise Unknown('page %d is kept depending on the data' % k)
                if kept != {k in pages} and (k <= last or k in pages or kept == {True}):
                    wrong = wrong or 'page %d is %s when pages %s are asked for' % (k, 'not kept' if k in pages else 'kept', pages)
            c.ob('pages', '%s %s' % (where, what), wrong is None, wrong or '')
        early = None
        for k in range(last + 1):
            q = fold(subst(stop, {i: const(k)}))
            if q is TRUE:
                early = k
                break
        c.ob('pages', where + ' stop', early is None, '' if early is None else 'reading stops before page %d when pages %s are asked for' % (early, pages))
        base = fold(subst(stop, {i: const(0)}))
    else:
        streams = {f.args[0] for f in finds}
        twice = [x for x in streams if sum(1 for f in finds if f.args[0] is x and f.cond is TRUE) > 1]
        inner = {}
        for e in loop.inner:
            if e.kind == 'note' and e.name == 'find':
                inner[e.args[0]] = inner.get(e.args[0], 0) + 1
        c.ob('pages', where + ' counter', all(v == 1 for v in inner.values()), 'the page numbers asked for are advanced %d times per page' % max(inner.values()) if inner and max(inner.values()) > 1 else '')
        kept = [g for t in ((P,) if [p for p in L.pars if p[2] is None] else ()) + ((C,) if L.cols else ()) for g in page_values(t)]
        lost = [g for g in kept if g[1] is None]
        c.ob('pages', where, not lost, 'pages are left out when %s' % clip(show(lost[0][0]), 150) if lost else '')
    if not buf:
        # what says that the file ends
        part = leaves_of(base, lambda x: isinstance(x, App) and x.op == 'bytes')
        if L.mode == 'binary':
            # blanks are values: only the end of the file is empty
            cut = [x for x in leaves_of(base, lambda x: isinstance(x, App) and (x.op in ('m:strip', 'm:rstrip', 'm:lstrip', 'm:split') or x.op == 'strmeth') and leaves_of(x, lambda y: isinstance(y, App) and y.op in ('line', 'bytes')))]
            c.ob('end', where + ' unbuffered', not cut, 'reading stops depending on %s, the file holds binary values' % (show(cut[0]) if cut else ''))
        elif part:
            odd = [x for x in leaves_of(base, lambda x: isinstance(x, App) and x.op == 'line' and eqpos(x.args[0], nadd(p0, const(1))))]
            c.ob('end', where + ' unbuffered', not odd, 'the end of the file is told from a line without its first character')
    if buf and L.mode == 'binary' and eof:
        at = {eof[0]: p0}
        a = fold(subst(base, {eof[0]: p0}))
        b = fold(subst(base, {eof[0]: nadd(p0, const(1))}))
        if a in (TRUE, FALSE) and b in (TRUE, FALSE):
            c.ob('end', where, a is TRUE and b is FALSE, 'reading %s at the end of the file and %s one byte before it' % ('stops' if a is TRUE else 'goes on', 'stops' if b is TRUE else 'goes on'))
        else:
            c.undecided('end', where, 'stop when %s' % clip(show(base), 120))


def fold(v):
    """with the extremes of lists of numbers evaluated"""
    m = {}
    for x in leaves_of(v, lambda x: isinstance(x, App) and x.op in ('r:max', 'r:min') and len(x.args) == 1):
        q = parts(x.args[0])
        if q and all(isinstance(y, Const) for y in q):
            m[x] = const((max if x.op == 'r:max' else min)(y.v for y in q))
    return refold(subst(v, m) if m else v)


def reader(c):
    D = lambda *t: [('p%d' % i, x.rstrip('F'), '3' if x[-1] == 'F' else None) for i, x in enumerate(t)]
    K = lambda *t: [('c%d' % i, x, 0) for i, x in enumerate(t)]
    shapes = [
        ('numbers', D('double', 'long', 'short', 'double'), K('double', 'short', 'long', 'double')),
        ('one column', D('long'), K('double')),
        ('no parameters', [], K('double', 'long')),
        ('parameters only', D('double', 'string', 'long'), []),
        ('string parameters', D('string', 'double', 'string', 'string', 'short'), K('double', 'double')),
        ('fixed parameters', D('doubleF', 'double', 'stringF', 'long', 'longF'), K('double', 'long')),
        ('only fixed', D('doubleF', 'longF'), K('long', 'double')),
        ('floats', D('float', 'double'), K('float', 'double', 'float')),
        ('string first', D('double'), K('string', 'double')),
        ('string last', D('double'), K('double', 'short', 'string')),
        ('strings', D('string'), K('double', 'string', 'long', 'string')),
        ('strings only', [], K('string', 'string')),
        ('names', [("p'/q (%)", 'double', None), ('b,c', 'string', None), ('d#1', 'long', None)], [("x'", 'double', 0), ('p/p$b0$n', 'double', 0), ('dt=1', 'long', 0)]),
        ('field length', D('double'), [('c0', 'double', 0), ('c1', 'string', 12), ('c2', 'double', 0)]),
    ]
    for nm, pars, cols in shapes:
        for mode in ('ascii', 'binary'):
            for buf in (True, False):
                w = 'read[%s, %s, %s]' % (nm, mode, 'buffered' if buf else 'unbuffered')
                read_case(c, w, mode, buf, pars, cols)
                if mode == 'ascii' and nm in ('numbers', 'strings', 'no parameters', 'fixed parameters'):
                    read_case(c, w[:-1] + ', no row counts]', mode, buf, pars, cols, nrc=True)
                if nm in ('numbers', 'strings', 'string parameters'):
                    read_case(c, w[:-1] + ', short strings]', mode, buf, pars, cols, maxlen=7)
    c.floor('start', 40)


def pages(c):
    """pages asked for are the pages kept, wherever they are, whatever was read before"""
    D = lambda *t: [('p%d' % i, x, None) for i, x in enumerate(t)]
    K = lambda *t: [('c%d' % i, x, 0) for i, x in enumerate(t)]
    shapes = [('numbers', D('double', 'long'), K('double', 'short')), ('strings', D('string'), K('double', 'string')), ('no parameters', [], K('double', 'long')),
              ('parameters only', D('double', 'long'), [])]
    wanted = [[0], [1, 3], [2], [3, 0], [0, 2, 2]] + ([[4, 1], [5], [0, 1, 2]] if c.thorough else [])
    for nm, pars, cols in shapes:
        for mode in ('ascii', 'binary'):
            for buf in (True, False):
                w = 'read[%s, %s, %s' % (nm, mode, 'buffered' if buf else 'unbuffered')
                for pg in wanted if nm == 'numbers' or c.thorough else wanted[1:2]:
                    read_case(c, w + ', pages=%s]' % pg, mode, buf, pars, cols, pages=pg)
                    if mode == 'ascii' and nm == 'numbers':
                        read_case(c, w + ', no row counts, pages=%s]' % pg, mode, buf, pars, cols, pages=pg, nrc=True)
                # pages are named by anything that can be iterated over
                if nm == 'numbers' or c.thorough:
                    for how in ('tuple', 'iter', 'range', 'set', 'numpy.array'):
                        read_case(c, w + ', pages=%s of 1, 2]' % how, mode, buf, pars, cols, pages=[1, 2], how=how)
                # a second reading replaces the first
                read_case(c, w + ', second read]', mode, buf, pars, cols, again=True)
                read_case(c, w + ', third read, pages=[1, 3]]', mode, buf, pars, cols, again='select', pages=[1, 3])
    for mode in ('ascii', 'binary'):
        for buf in (True, False):
            one_pass(c, mode, buf)
    c.floor('start', 40)


def one_pass(c, mode, buf):
    """pages given by something that can be run through only once: nothing but a copy of it is ever asked"""
    where = 'read[%s, %s, pages=any iterable]' % (mode, 'buffered' if buf else 'unbuffered')
    R = Read([b'SDDS1\n', b'!# little-endian\n', b'&parameter name="p", type=double, &end\n', b'&column name="c", type=double, &end\n',
              b'&data mode=%s, &end\n' % mode.encode()], {'buffer': const(buf)})
    P = sym('pages$' + where, 'notnone')
    R.call('read', pages=P)
    if R.s.pc is FALSE:
        return c.undecided('any-iterable', where, 'read never returns')
    uses = [('%s(%s)' % (x.op, 'pages'), x.op) for x in list(V._tab.values()) if isinstance(x, App) and P in x.args]
    tests = [a for a in V._atoms if P in a[1:]]
    kinds = [a for a in tests if a[0] == 'isinstance' and not show(a[2]).endswith('GeneratorType')]
    again = [w for w, op in uses if op in ('r:max', 'r:min', 'len', 'call:numpy.max')] + ['in' for a in tests if a[0] == 'in' and a[2] is P]
    if kinds or not (uses or tests):
        c.undecided('any-iterable', where, 'the use of pages depends on its type')
    else:
        c.ob('any-iterable', where, not again, 'the iterable passed in is asked for %s and in every page again' % ', '.join(sorted(set(again))))


STYLES = ('several lines', 'comments', 'blank lines', 'no last comma', 'other entries', 'no byte order')


def restyle(hdr, style):
    """another spelling of the same header"""
    out = []
    for i, l in enumerate(hdr):
        if style == 'no byte order' and l.startswith(b'!#'):
            continue
        if l.startswith(b'&'):
            if style == 'several lines':
                l = l.replace(b', type', b',\n  type').replace(b', &end', b',\n&end')
            elif style == 'no last comma':
                l = l.replace(b', &end', b' &end')
            elif style == 'comments':
                out.append(b'! remark &data mode=ascii &end\n')
            elif style == 'blank lines':
                out.append(b'\n')
            elif style == 'other entries' and i == 2:
                out.append(b'&description text="any text, mode=ascii", contents="beam" &end\n')
        out += l.splitlines(True)
    return out


NOTHING = object()


def header(c):
    """what the header says about parameters and columns is what the accessors return"""
    texts = {'symbol': "x'", 'units': 'm$be$nc', 'description': 'a, b = "c"'.replace('"', "'"), 'format_string': '%10.3e'}
    hard = {'symbol': 'a=b', 'units': '1/(2*GV)', 'description': 'type=long, name=zz units=s', 'format_string': '%s'}
    pars = [('pa', 'double', {}, NOTHING), ('pb', 'long', texts, NOTHING), ('pc', 'string', hard, NOTHING), ('pd', 'double', {'units': 'm'}, 2.5), ('pe', 'long', {}, 0),
            ('pf', 'string', {'description': 'd'}, 'two words'), ('pg', 'short', {}, -3), ('ph', 'float', {}, 0.0), ('pi', 'long', {}, 12)]
    cols = [('ca', 'double', texts), ('cb', 'string', {}), ('cc', 'short', hard), ('cd', 'long', {'symbol': 'only'}), ('ce', 'float', {'description': ''})]

    def entry(kind, nm, ty, f, fx, order):
        q = [('name', nm), ('type', ty)] + sorted(f.items()) + ([('fixed_value', fx)] if fx is not NOTHING else [])
        if order:
            q = q[::-1]
        return ('&%s %s, &end\n' % (kind, ', '.join('%s=%s' % (k, '"%s"' % v if k not in ('type', 'name') and isinstance(v, str) else v) for k, v in q))).encode()
    want = [('parameter', p[0], dict(p[2], type=p[1], **({'fixed_value': p[3]} if p[3] is not NOTHING else {}))) for p in pars] + \
        [('column', p[0], dict(p[2], type=p[1])) for p in cols]
    for order in (0, 1):
        for style in (None,) + STYLES:
            for mode in ('ascii', 'binary'):
                hdr = [b'SDDS1\n', b'!# little-endian\n'] + [entry('parameter', *p, order) for p in pars] + [entry('column', *(p + (NOTHING, order))) for p in cols] + \
                    [b'&data mode=%s, &end\n' % mode.encode()]
                if style:
                    hdr = restyle(hdr, style)
                for buf in (True, False):
                    where = 'header[%s, %s, %s%s]' % (style or 'plain', mode, 'buffered' if buf else 'unbuffered', ', type first' if order else '')
                    R = Read(hdr, {'buffer': const(buf)})
                    c.visited(R.ip)
                    if R.s.pc is FALSE:
                        c.violated('header', where, 'the header is not accepted' + (': raises %s' % show(R.s.pending[-1][1]) if R.s.pending else ''))
                        continue
                    bad = []
                    n = 0
                    for kind, nm, f in want:
                        for k in ('symbol', 'units', 'description', 'format_string', 'type') + (('fixed_value',) if kind == 'parameter' else ()):
                            s2 = R.s.fork()
                            v = R.ip.call(R.ip.getattr_(R.o, '%s_%s' % (kind, k), s2, None), [const(nm)], {}, s2, None)
                            x = f.get(k, None if k == 'fixed_value' else '')
                            n += 1
                            v = R.ip.snap(v, s2)
                            if not isinstance(v, Const):
                                if v is BOT:
                                    bad.append('%s_%s(%s) raises' % (kind, k, nm))
                                    continue
                                c.undecided('header', where, '%s_%s(%s) = %s' % (kind, k, nm, clip(show(v), 60)))
                                break
                            if type(v.v) is not type(x) or v.v != x:
                                bad.append('%s_%s(%s) returns %r where the header has %r' % (kind, k, nm, v.v, x))
                    c.ob('header', where, not bad, '; '.join(bad[:3]))
    # the body starts behind the header however the header is laid out
    D = [('p0', 'double', None), ('p1', 'long', '3')]
    K = [('c0', 'double', 0), ('c1', 'short', 0)]
    for style in STYLES:
        for mode in ('ascii', 'binary'):
            for buf in (True, False):
                read_case(c, 'body[%s, %s, %s]' % (style, mode, 'buffered' if buf else 'unbuffered'), mode, buf, D, K, style=style)
    # headers that cannot be read
    good = [b'SDDS1\n', b'!# little-endian\n', b'&parameter name=a, type=double, &end\n', b'&column name=b, type=long, &end\n', b'&data mode=binary, &end\n']
    wrong = [('no identifier', [b'SDSS1\n'] + good[1:], False), ('unknown type', good[:2] + [b'&column name=b, type=quad, &end\n'] + good[4:], False),
             ('unknown parameter type', good[:2] + [b'&parameter name=b, type=quad, &end\n'] + good[4:], False),
             ('unknown entry', good[:3] + [b'&nonsense name=b, type=quad, &end\n'] + good[3:], False), ('text', good[:3] + [b'1.0 2.0\n'] + good[3:], False),
             ('fixed value', good[:2] + [b'&parameter name=b, type=long, fixed_value="x1", &end\n'] + good[4:], False)] + \
        [('cut after line %d' % i, good[:i], True) for i in range(1, len(good))] + [('cut inside an entry', good[:3] + [b'&column name=b,\n'], True), ('empty file', [], True)]
    for nm, hdr, cut in wrong:
        for buf in (True, False):
            where = 'header[%s, %s]' % (nm, 'buffered' if buf else 'unbuffered')
            R = Read(hdr, {'buffer': const(buf)}, truncated=cut)
            ok = R.s.pc is FALSE
            c.ob('refused', where, ok, '' if ok else 'the reader is created from a header that cannot be read')
            ends = [sp for sp, e in R.s.pending if sp.pc is not FALSE]
            left = [sp for sp in ends if any(closed_state(sp, sp.events))]
            if ok and not ends:
                c.violated('refused', where + ' ends', 'the constructor never ends')
            elif ends:
                c.ob('closed', where, not left, 'the file is left open' if left else '')
