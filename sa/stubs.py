"""Library objects whose behaviour the checks model in Python source of their own.

The text below is analysed by the same interpreter as the package; it is never executed.
`__op__(name, ...)` builds a term, `__note__(name, ...)` records an effect.
"""
import ast

from . import val as V
from .val import *
from .model import Module

FILES = '''
class Buffer:
    """what is written, in order"""
    def __init__(self, initial=b''):
        self._parts = []
        self._closed = False
        if initial:
            self._parts.append(initial)

    def write(self, data):
        self._parts.append(data)
        return len(data)

    def writelines(self, lines):
        for line in lines:
            self._parts.append(line)

    def getvalue(self):
        return __op__('cat', *self._parts)

    getbuffer = getvalue

    def flush(self):
        pass

    def close(self):
        self._closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Target(Buffer):
    def __init__(self, path, mode):
        Buffer.__init__(self)
        self.name = path
        __note__('open', path, mode, self)

    def close(self):
        __note__('close', self)
        self._closed = True


def open_(path, mode='r', *args, **kw):
    return Target(path, mode)


def savetxt(fname, X, fmt='%.18e', delimiter=' ', newline='\\n', header='', footer='', comments='# ', encoding=None):
    target, data = fname, X
    if isinstance(target, Buffer):
        target.write(__op__('savetxt', data, fmt, delimiter, newline, header, footer, comments))
    else:
        t = Target(target, 'wb')
        t.write(__op__('savetxt', data, fmt, delimiter, newline, header, footer, comments))
        t.close()


class Frame:
    """a table of columns or, transposed, of rows"""
    def __init__(self, data=None, index=None, columns=None, dtype=None, copy=None):
        self._data = data
        self._t = False
        self._dtype = dtype

    def _new(self, data, t, dtype=None):
        f = Frame(data)
        f._t = t
        f._dtype = self._dtype if dtype is None else dtype
        return f

    @property
    def T(self):
        return self._new(self._data, not self._t)

    def transpose(self):
        return self.T

    def copy(self, deep=True):
        return self._new(self._data, self._t)

    def reset_index(self, **kw):
        return self._new(self._data, self._t)

    def astype(self, dtype, **kw):
        return self._new(self._data, self._t, dtype)

    def round(self, decimals=0):
        return self._new(__op__('m:round', self._data, decimals), self._t)

    def drop_duplicates(self, *a, **kw):
        return self._new(__op__('drop_duplicates', self._data), self._t)

    def sort_values(self, *a, **kw):
        return self._new(__op__('sort_values', self._data), self._t)

    def dropna(self, *a, **kw):
        return self._new(__op__('dropna', self._data), self._t)

    def head(self, n=5):
        return self._new(__op__('head', self._data), self._t)

    def sample(self, *a, **kw):
        return self._new(__op__('sample', self._data), self._t)

    def __setitem__(self, k, v):
        if self._data is None:
            self._data = {}
        self._data[k] = v

    def to_numpy(self, *a, **kw):
        return __op__('T', self._data) if self._t else self._data

    @property
    def values(self):
        return self.to_numpy()

    def to_csv(self, path=None, sep=',', na_rep='', float_format=None, columns=None, header=True, index=True, mode='w', **kw):
        part = __op__('csv', self._data, self._t, sep, float_format, header, index, self._dtype)
        if isinstance(path, Buffer):
            path.write(part)
        else:
            t = Target(path, mode)
            t.write(part)
            t.close()
'''

SHLEX = '''
class Shlex:
    def __init__(self, instream=None, infile=None, posix=False, punctuation_chars=False):
        self.instream = instream
        self.posix = posix
        self.commenters = '#'
        self.whitespace = ' \\t\\r\\n'
        self.whitespace_split = False
        self.quotes = '\\'"'
        self.escape = '\\\\'
        self.escapedquotes = '"'

    def __iter__(self):
        return __shlex__(self.instream, self.posix, self.commenters, self.whitespace, self.whitespace_split, self.quotes,
                         self.escape, self.escapedquotes)


def split(s, comments=False, posix=True):
    lex = Shlex(s, posix=posix)
    lex.whitespace_split = True
    if not comments:
        lex.commenters = ''
    return list(lex)
'''

SOURCE = '''
class Source:
    """a file that is read: the header is known text, what follows is not"""
    def __init__(self, path, mode):
        self.name = path
        self._pos = 0
        __note__('open', path, mode, self)

    def readline(self, size=-1):
        line = __line__(self._pos)
        self._pos = __next__(self._pos)
        return line

    def read(self, size=-1):
        if size is None or size < 0:
            r = Content(self._pos)
            return r
        r = __op__('bytes', self._pos, size)
        self._pos = self._pos + size
        return r

    def tell(self):
        return self._pos

    def seek(self, pos, whence=0):
        __note__('seek', pos, whence)
        self._pos = pos

    def close(self):
        __note__('close', self)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class Content:
    """the bytes of the file from some position on"""
    def __init__(self, start):
        self._start = start

    def __len__(self):
        return __op__('eof') - self._start

    def __getitem__(self, k):
        return Content(self._start + __start__(k))

    def splitlines(self, keepends=False):
        return __op__('lines', self._start)

    def split(self, sep=None, maxsplit=-1):
        return __op__('lines', self._start) if sep == b'\\n' else __op__('split', self._start, sep)


def open_(path, mode='r', *args, **kw):
    return Source(path, mode)


class DType:
    def __init__(self, types):
        self._types = types = __types__(types)
        self.names = __names__(types)
        self.itemsize = __itemsize__(types)


class Record:
    """records read from the file: where, of which type, how many"""
    def __init__(self, pos, types, count, text=False, note=True):
        self._pos = pos
        self._text = text
        self._types = types = __types__(types)
        self._count = count
        self.dtype = DType(types)
        self.size = count
        self.itemsize = self.dtype.itemsize
        self.nbytes = count * self.itemsize
        self._term = __op__('textrecord' if text else 'record', pos, types, count)
        self.shape = () if text and count == 1 else (count,)
        self.ndim = len(self.shape)
        if note:
            __note__('rd', pos, types, count)

    def __getitem__(self, k):
        return __field__(self._pos, self._types, self._count, k, self._text)

    def __len__(self):
        return self._count


def frombuffer(buffer, dtype=float, count=-1, offset=0):
    return Record(__startof__(buffer) + offset, dtype, count)


def fromfile(file, dtype=float, count=-1, sep='', offset=0):
    pos = file._pos + offset
    file._pos = pos + __itemsize__(dtype) * count
    return Record(pos, dtype, count)


def genfromtxt(fname, dtype=float, comments='#', delimiter=None, skip_header=0, max_rows=None, deletechars=None, unpack=None, **kw):
    if isinstance(fname, Source):
        pos = fname._pos + skip_header
        fname._pos = pos + max_rows
    else:
        pos = __startof__(fname) + skip_header
    __note__('text', pos, comments, delimiter, deletechars, unpack)
    return Record(pos, dtype, max_rows, True)


def atleast_1d(a):
    return Record(a._pos, a._types, a._count, False, False)


def dtype_(types, align=False, copy=False):
    return DType(types)
'''


def load(ip, text, name='$stubs'):
    if name not in ip.p.modules:
        m = Module.__new__(Module)
        m.name, m.path, m.rel, m.ispkg, m.src = name, name, name, False, text
        m.tree = ast.parse(text)
        ip.p.modules[name] = m
    ip.models['__op__'] = lambda ip, st, r, a, kw, n: app(a[0].v, *[ip.snap1(x, st) for x in a[1:]])

    def note(ip, st, r, a, kw, n):
        ip.event(st, 'note', a[0].v, list(a[1:]), {}, n)
        return NONE
    ip.models['__note__'] = note
    return ip.module(name)


def files(ip):
    """in-memory buffers and output files keep what is written to them"""
    load(ip, FILES)
    g = lambda nm: ip.base.heap[ip.modframes['$stubs']].f[nm]

    def use(nm):
        return lambda ip, st, r, a, kw, n: ip.call(g(nm), list(a), kw, st, n)
    for nm in ('io.BytesIO', 'io.StringIO'):
        ip.models[nm] = use('Buffer')
    for nm in ('open', 'io.open', 'builtins.open'):
        ip.models[nm] = use('open_')
    ip.models['numpy.savetxt'] = use('savetxt')
    ip.models['pandas.DataFrame'] = use('Frame')
    return g


def shlex_(ip):
    import shlex
    load(ip, SHLEX, '$shlex')
    g = lambda nm: ip.base.heap[ip.modframes['$shlex']].f[nm]

    def run(ip, st, r, a, kw, n):
        if not all(isinstance(x, Const) for x in a):
            return app('call:shlex', *[ip.snap1(x, st) for x in a])
        line, posix, com, ws, wss, quotes, esc, escq = [x.v for x in a]
        lex = shlex.shlex(line, posix=posix)
        lex.commenters, lex.whitespace, lex.whitespace_split, lex.quotes, lex.escape, lex.escapedquotes = com, ws, wss, quotes, esc, escq
        try:
            return ip.newlist(st, [const(x) for x in lex])
        except ValueError:
            ip.raise_(st, TRUE, 'ValueError')
            return BOT
    ip.models['__shlex__'] = run
    ip.models['shlex.shlex'] = lambda ip, st, r, a, kw, n: ip.call(g('Shlex'), list(a), kw, st, n)
    ip.models['shlex.split'] = lambda ip, st, r, a, kw, n: ip.call(g('split'), list(a), kw, st, n)


ITEM = {'float64': 8, 'double': 8, 'float': 8, 'f8': 8, 'd': 8, 'int16': 2, 'short': 2, 'i2': 2, 'h': 2, 'int32': 4, 'intc': 4, 'i4': 4, 'i': 4,
        'uint32': 4, 'u4': 4, 'int64': 8, 'int': 8, 'i8': 8, 'int_': 8, 'long': 8, 'float32': 4, 'f4': 4, 'f': 4, 'uint8': 1, 'int8': 1, 'single': 4}


def itemsize(v):
    """bytes of one type, None if unknown"""
    if isinstance(v, Ext):
        k = ITEM.get(v.name.split('.')[-1])
        return None if k is None else const(k)
    if isinstance(v, Const) and isinstance(v.v, str):
        t = v.v.lstrip('<>=|')
        if t[:1] == 'S' and t[1:].isdigit():
            return const(int(t[1:]))
        if t[:1] == 'U' and t[1:].isdigit():
            return const(4 * int(t[1:]))
        return const(ITEM[t]) if t in ITEM else None
    if isinstance(v, StrV) and len(v.parts) == 2 and isinstance(v.parts[0], Const) and v.parts[0].v in ('S', 'a'):
        n = v.parts[1]
        return n.args[0] if isinstance(n, App) and n.op == 'str' else n
    return None


def source(ip, header, truncated=False):
    """files that are read start with the given header (list of bytes lines)"""
    shlex_(ip)
    load(ip, SOURCE, '$source')
    g = lambda nm: ip.base.heap[ip.modframes['$source']].f[nm]
    lines, pos = {}, 0
    for l in header:
        lines[pos] = l
        pos += len(l)
    H = pos
    ip.header_size = H

    def line(ip, st, r, a, kw, n):
        def one(p):
            if isinstance(p, Const):
                if p.v in lines:
                    return const(lines[p.v])
                if p.v < H:
                    return app('partline', p)
                if truncated:
                    return const(b'')
            return app('line', p)
        return ap(one, a[0])

    def next_(ip, st, r, a, kw, n):
        def one(p):
            if isinstance(p, Const):
                if p.v in lines:
                    return const(p.v + len(lines[p.v]))
                if truncated and p.v >= H:
                    return p
            return nadd(p, const(1))
        return ap(one, a[0])

    def start(ip, st, r, a, kw, n):
        k = a[0]
        if isinstance(k, SliceV) and k.hi is NONE and k.st is NONE:
            return const(0) if k.lo is NONE else k.lo
        return ip.top('part of the file')

    def types_of(t, st):
        """[(name, type)] of a record type"""
        if isinstance(t, Ref):
            c = st.heap.get(t.id)
            if c is not None and c.kind == 'list':
                e = ip.elems(c)
                if e is None:
                    return None
                out = []
                for x in e:
                    if not (isinstance(x, Tup) and len(x.items) == 2):
                        return None
                    out.append((x.items[0], x.items[1]))
                return out
            if c is not None and c.kind == 'obj' and '_types' in c.f:
                return types_of(c.f['_types'], st)
        if isinstance(t, App) and t.op == 'list':
            return [(x.args[0], x.args[1]) for x in t.args] if all(isinstance(x, App) and x.op == 'tuple' and len(x.args) == 2 for x in t.args) else None
        if isinstance(t, (Ext, Const, StrV)):
            return [(NONE, t)]
        return None
    ip.types_of = types_of

    def types_(ip, st, r, a, kw, n):
        def one(t):
            c = ip.cellof(t, st)
            if c is not None and c.kind == 'obj' and '_types' in c.f:
                return c.f['_types']
            return ip.snap1(t, st)
        return ap(one, a[0])
    ip.models['__types__'] = types_

    def names(ip, st, r, a, kw, n):
        def one(t):
            ts = types_of(t, st)
            if ts is None:
                return app('names', ip.snap1(t, st))
            return NONE if ts and ts[0][0] is NONE else tup([k for k, _ in ts])
        return ap(one, a[0])

    def size(ip, st, r, a, kw, n):
        def one(t):
            ts = types_of(t, st)
            sz = [itemsize(x) for _, x in ts] if ts is not None else [None]
            if any(x is None for x in sz):
                return app('itemsize', ip.snap1(t, st))
            r_ = const(0)
            for x in sz:
                r_ = nadd(r_, x)
            return r_
        return ap(one, a[0])

    def field(ip, st, r, a, kw, n):
        p, t, cnt, k, text = a

        def one_(p, off, x, cnt, k):
            if cnt is const(1):
                v = app('val', nadd(p, off) if text is not TRUE else p, x, *([k] if text is TRUE else []))
                return v if text is TRUE else ip.newlist(st, [v], True)
            return app('rdf', p, off, x, cnt, k)

        def one(p, t, k):
            ts = types_of(t, st)
            if ts is None:
                return app('field', p, ip.snap1(t, st), ip.snap1(k, st))
            if isinstance(k, Const) and isinstance(k.v, str):
                off = const(0)
                for nm, x in ts:
                    if nm is k:
                        return one_(p, off, x, ip.snap1(cnt, st), k)
                    off = nadd(off, itemsize(x) or app('itemsize', x))
                ip.raise_(st, TRUE, 'ValueError', k)
                return BOT
            names = ip.strlist(k, st)
            if names is not None:
                have = dict(ts)
                if not all(q in have for q in names):
                    ip.raise_(st, TRUE, 'KeyError', names[0])
                    return BOT
                return ip.newdict(st, [(q, one(p, t, q)) for q in names])
            if isinstance(k, Const) and isinstance(k.v, int) and len(ts) == 1:
                # records of a single field
                return ip.newlist(st, [one_(p, const(0), ts[0][1], ip.snap1(cnt, st), ts[0][0])])
            return app('rdsub', p, ip.snap1(t, st), ip.snap1(k, st))
        return ap(one, p, t, k)

    def startof(ip, st, r, a, kw, n):
        def one(b):
            c = ip.cellof(b, st)
            if c is not None and c.kind == 'obj' and '_start' in c.f:
                return c.f['_start']
            if c is not None and c.kind == 'list':
                s = ip.snap(b, st)
                ls = set(leaves_of(s, lambda x: isinstance(x, App) and x.op == 'lines'))
                if len(ls) == 1:
                    base = ls.pop().args[0]
                    if isinstance(base, Const) and base.v in lines:
                        skip = sum(1 for q, l in lines.items() if q >= base.v and not l.lstrip().startswith(b'!'))
                        return nadd(const(H), const(-skip))
                    return base
            if isinstance(b, App) and b.op == 'lines':
                base = b.args[0]
                return nadd(const(H), const(-sum(1 for q in lines if q >= base.v))) if isinstance(base, Const) and base.v in lines else base
            return app('startof', ip.snap1(b, st))
        from .interp import leaves_of
        return ap(one, a[0])
    for k, f in (('__line__', line), ('__next__', next_), ('__start__', start), ('__names__', names), ('__itemsize__', size), ('__field__', field), ('__startof__', startof)):
        ip.models[k] = f

    def use(nm):
        return lambda ip, st, r, a, kw, n: ip.call(g(nm), list(a), kw, st, n)
    for nm in ('open', 'io.open', 'builtins.open'):
        ip.models[nm] = use('open_')
    for nm in ('frombuffer', 'fromfile', 'genfromtxt'):
        ip.models['numpy.' + nm] = use(nm)
    ip.models['numpy.dtype'] = use('dtype_')

    def on_records(nm, attr):
        old = ip.models.get(attr)

        def m(ip, st, r, a, kw, n):
            def one(x):
                c = ip.cellof(x, st)
                if c is not None and c.kind == 'obj' and '_term' in c.f:
                    return ip.call(g(nm), [x], {}, st, n)
                return old(ip, st, r, [x] + list(a[1:]), kw, n) if old else ip.opaque('call:' + attr, [x] + list(a[1:]), kw, st)
            return ip.apr(one, st, a[0])
        ip.models[attr] = m
    on_records('atleast_1d', 'numpy.atleast_1d')

    # a field of a single record of text has no axis, a binary one has
    def scalar_(ip, st, r, a, kw, n):
        if a[0] is tup([]):
            return r
        ip.raise_(st, TRUE, 'IndexError', a[0])
        return BOT
    ip.models['app:val[]'] = scalar_
    for nm in ('reshape', 'ravel', 'flatten'):
        ip.models['app:val.' + nm] = lambda ip, st, r, a, kw, n: ip.newlist(st, [r], True)
    for nm in ('item', 'tolist', 'astype', 'copy'):
        ip.models['app:val.' + nm] = lambda ip, st, r, a, kw, n: r
    return g


DISK = '''
_content = {}
_opened = []


class File:
    """a file that keeps what is written to it for the next reader"""
    def __init__(self, path, mode):
        self.name = path
        self.mode = mode
        self.closed = False
        _opened.append(self)
        if 'w' in mode:
            _content[path] = []
        elif path not in _content:
            if 'a' not in mode:
                raise FileNotFoundError(path)
            _content[path] = []

    def write(self, data):
        if 'r' in self.mode:
            raise OSError('not writable')
        _content[self.name].append(data)

    def writelines(self, lines):
        for line in lines:
            self.write(line)

    def parts(self):
        if 'r' not in self.mode:
            raise OSError('not readable')
        return _content[self.name]

    def read(self, size=-1):
        return __op__('cat', *self.parts())

    def readlines(self):
        return [x for x in self.parts()]

    def __iter__(self):
        return iter(self.readlines())

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.closed = True


def open_(path, mode='r', *args, **kw):
    if __isdata__(path):
        raise TypeError('not a path')
    return File(path, mode)


def put(path, *content):
    _content[path] = [x for x in content]


def load_any(stream, *args, **kw):
    return stream.parts()[0]


class YAML:
    def __init__(self, *args, **kw):
        pass

    def dump(self, data, stream=None):
        stream.write(__plain__(data))

    def load(self, stream):
        return __plain__(stream.parts()[0])


def dump(data, stream=None, *args, **kw):
    stream.write(__plain__(data))


def load(stream, *args, **kw):
    return __plain__(stream.parts()[0])
'''


def disk(ip):
    """files keep their content; yaml documents are plain lists, dicts and scalars"""
    load(ip, DISK, '$disk')
    g = lambda nm: ip.base.heap[ip.modframes['$disk']].f[nm]

    def use(nm):
        return lambda ip, st, r, a, kw, n: ip.call(g(nm), list(a), kw, st, n)

    def plain(ip, st, r, a, kw, n):
        """a copy made of the types a document can hold"""
        def go(v):
            if isinstance(v, Ref):
                c = st.heap.get(v.id)
                if c is not None and c.kind == 'list':
                    e = ip.elems(c)
                    if e is not None:
                        return ip.newlist(st, [go(x) for x in e])
                if c is not None and c.kind == 'dict':
                    if not c.y:
                        return ip.newdict(st, [(k, go(c.f[k])) for k in c.x])
                    return app('plain', ip.snap1(v, st))
                ip.raise_(st, TRUE, 'RepresenterError')
                return BOT
            if isinstance(v, Tup):
                return ip.newlist(st, [go(x) for x in v.items])
            if isinstance(v, (Const, Sym, Num, StrV)) or v in (TRUE, FALSE, NONE):
                return v
            if isinstance(v, Ite):
                return ap(go, v)
            return app('plain', ip.snap1(v, st))
        return go(a[0])
    ip.models['__plain__'] = plain
    ip.models['__isdata__'] = lambda ip, st, r, a, kw, n: const(isinstance(a[0], (Ref, Tup)))
    for nm in ('pykern.pkjson.load_any', 'json.load'):
        ip.models[nm] = use('load_any')
    for nm in ('open', 'io.open', 'builtins.open'):
        ip.models[nm] = use('open_')
    for lib in ('ruamel.yaml', 'yaml'):
        ip.models[lib + '.YAML'] = use('YAML')
        for f in ('dump', 'safe_dump', 'round_trip_dump'):
            ip.models[lib + '.' + f] = use('dump')
        for f in ('load', 'safe_load', 'round_trip_load'):
            ip.models[lib + '.' + f] = use('load')
    return g


FORMS = ('70%02d.25', '70%02d', '.70%02d', '70%02d.', '7.0%02de-03', '70%02d.5E+02', '.70%02dE5')
SIGNED = FORMS + ('-70%02d.5', '+7.0%02de4', '-.70%02d', '-7.0%02dE-2')


def numerals(ip, forms=FORMS):
    """numbers written in a text: each is a numeral of its own, in one of the forms a number can have, that stands for any number

    The text is searched and split as it stands; float(), int() and str() translate between the numerals and the numbers they stand for.
    """
    texts, terms = {}, {}

    def letter(t):
        if t not in terms:
            x = forms[len(terms) % len(forms)] % (len(terms) + 11)
            texts[x.lower().lstrip('+')] = t
            terms[t] = x
        return terms[t]
    old = {nm: ip.models[nm] for nm in ('float', 'int', 'str')}

    def number(nm):
        def f(ip, st, r, a, kw, n):
            def one(l):
                if isinstance(l, Const) and isinstance(l.v, str):
                    x = l.v.strip().lower().lstrip('+')
                    if x in texts:
                        return texts[x]
                    if x[:1] == '-' and x[1:] in texts:
                        return nmul(const(-1), texts[x[1:]])
                return old[nm](ip, st, r, [l] + list(a[1:]), kw, n)
            return ip.apr(one, st, *a[:1])
        return f
    ip.models['float'] = ip.models['numpy.float64'] = number('float')
    ip.models['int'] = number('int')
    plain = ip.fmt

    def fmt(l, spec, conv=-1):
        if isinstance(spec, Const) and spec.v == '' and (l in terms or isinstance(l, Num) or isinstance(l, Sym) and 'num' in l.attrs):
            return const(letter(l))
        return plain(l, spec, conv)
    ip.fmt = fmt
    letter.texts = lambda: {x: t for t, x in terms.items()}
    return letter


SYMPY = '''
class Matrix:
    """a matrix of expressions"""
    def __init__(self, rows, *args):
        if isinstance(rows, Matrix):
            rows = rows.rows
        if len(args) == 2:
            n, m, entries = rows, args[0], args[1]
            if isinstance(entries, (list, tuple)):
                rows = [[entries[i * m + j] for j in range(m)] for i in range(n)]
            else:
                rows = [[entries(i, j) for j in range(m)] for i in range(n)]
        self.rows = [[x for x in row] for row in rows]

    @property
    def shape(self):
        return (len(self.rows), len(self.rows[0]))

    def __getitem__(self, key):
        if isinstance(key, tuple):
            return self.rows[key[0]][key[1]]
        return [x for row in self.rows for x in row][key]

    def __setitem__(self, key, value):
        self.rows[key[0]][key[1]] = value

    def copy(self):
        return Matrix(self.rows)

    def as_mutable(self):
        return Matrix(self.rows)

    def as_immutable(self):
        return Matrix(self.rows)

    def replaced(self, old, new):
        return Matrix([[__subst__(x, old, new) for x in row] for row in self.rows])

    def subs(self, old, new=None, simultaneous=False, **kw):
        if new is not None:
            pairs = [(old, new)]
        elif isinstance(old, dict):
            pairs = [(k, v) for k, v in old.items()]
        else:
            pairs = [(k, v) for k, v in old]
        if simultaneous:
            return self.replaced([k for k, v in pairs], [v for k, v in pairs])
        m = self
        for k, v in pairs:
            m = m.replaced([k], [v])
        return m

    xreplace = subs

    def times(self, other):
        out = []
        for row in self.rows:
            line = []
            for j in range(len(other.rows[0])):
                t = 0
                for i in range(len(row)):
                    t = t + row[i] * other.rows[i][j]
                line.append(t)
            out.append(line)
        return Matrix(out)

    def __mul__(self, other):
        return self.times(other)

    def __matmul__(self, other):
        return self.times(other)

    def tolist(self):
        return self.rows

    def __iter__(self):
        return iter([x for row in self.rows for x in row])


def eye(n):
    return Matrix([[1 if i == j else 0 for j in range(n)] for i in range(n)])


def zeros(n, m=None):
    return Matrix([[0 for j in range(n if m is None else m)] for i in range(n)])


def diag(*blocks):
    wide = sum([b.shape[1] if isinstance(b, Matrix) else 1 for b in blocks])
    out = []
    left = 0
    for b in blocks:
        rows = b.rows if isinstance(b, Matrix) else [[b]]
        for row in rows:
            out.append([0] * left + row + [0] * (wide - left - len(row)))
        left = left + len(rows[0])
    return Matrix(out)


class Lambda:
    def __init__(self, args, expr, modules=None, **kw):
        self.names = [x for x in args]
        self.expr = expr

    def at(self, expr, values):
        if isinstance(expr, Matrix):
            return expr.replaced(self.names, values).rows
        return [self.at(x, values) for x in expr]

    def __call__(self, *values):
        if len(values) != len(self.names):
            raise TypeError('wrong number of values')
        return self.at(self.expr, [x for x in values])
'''


def sympy_(ip):
    """symbols, expressions and matrices of expressions"""
    load(ip, SYMPY, '$sympy')
    g = lambda nm: ip.base.heap[ip.modframes['$sympy']].f[nm]

    def use(nm):
        return lambda ip, st, r, a, kw, n: ip.call(g(nm), list(a), kw, st, n)
    for nm in ('sympy.Matrix', 'sympy.matrices.Matrix', 'sympy.ImmutableMatrix', 'sympy.MutableDenseMatrix'):
        ip.models[nm] = use('Matrix')
    for nm in ('eye', 'zeros', 'diag'):
        ip.models['sympy.' + nm] = ip.models['sympy.matrices.' + nm] = use(nm)
    same = lambda ip, st, r, a, kw, n: a[0]
    ip.models['sympy.Integer'] = ip.models['sympy.sympify'] = ip.models['sympy.S'] = ip.models['sympy.simplify'] = same
    ip.models['sympy.Rational'] = lambda ip, st, r, a, kw, n: ip.binop(ast.Div(), a[0], a[1], st, n) if len(a) == 2 else a[0]
    for nm, op in (('Eq', ast.Eq), ('Ne', ast.NotEq), ('Gt', ast.Gt), ('Ge', ast.GtE), ('Lt', ast.Lt), ('Le', ast.LtE)):
        ip.models['sympy.' + nm] = lambda ip, st, r, a, kw, n, op=op: ip.compare(op(), a[0], a[1], st, n)
    ip.models['sympy.lambdify'] = ip.models['sympy.utilities.lambdify'] = use('Lambda')
    for f in ('sqrt', 'cos', 'sin', 'cosh', 'sinh', 'tan', 'exp', 'log'):
        ip.models['sympy.' + f] = ip.models['sympy.functions.' + f] = ip.models['numpy.' + f]
    ip.models['sympy.Abs'] = ip.models['abs']

    def symbols(ip, st, r, a, kw, n):
        def one(l):
            if not (isinstance(l, Const) and isinstance(l.v, str)):
                return app('symbols', l)
            names = l.v.replace(',', ' ').split()
            v = [sym('sympy:' + x, 'num', 'notnone', 'symbol') for x in names]
            return v[0] if len(v) == 1 and ',' not in l.v else tup(v)
        return ip.apr(one, st, a[0])
    ip.models['sympy.symbols'] = ip.models['sympy.Symbol'] = symbols

    def piecewise(ip, st, r, a, kw, n):
        v = app('nan')
        for x in reversed(a):
            if not (isinstance(x, Tup) and len(x.items) == 2):
                return app('piecewise', *[ip.snap1(y, st) for y in a])
            v = ite(V.truth(x.items[1]), x.items[0], v)
        return v
    ip.models['sympy.Piecewise'] = piecewise

    def subst_(ip, st, r, a, kw, n):
        from .interp import subst
        old, new = (ip.elems(st.heap[x.id]) for x in a[1:3])
        return subst(a[0], dict(zip(old, new))) if isinstance(a[0], (Leaf, Ite)) else a[0]
    ip.models['__subst__'] = subst_
    return g


SIREPO = '''
_data = {}


class Box(dict):
    def __getattr__(self, name):
        return self[name]


class Importer:
    def __init__(self, sim_type, *args, **kw):
        self.sim_type = sim_type

    def parse_file(self, path, *args, **kw):
        return _data[path]


def build(field_map):
    res = {}
    for code, elements in field_map.items():
        one = {'from_madx': {}, 'to_madx': {}}
        for el in elements:
            for fields in el[1:]:
                one['to_madx'][fields[0]] = [el[0]] + fields[1:]
                if el[0] not in one['from_madx']:
                    one['from_madx'][el[0]] = fields
        res[code] = one
    return res


def box(value):
    """the data of a simulation, items are attributes too"""
    if __isdict__(value):
        b = Box()
        for k, v in value.items():
            b[k] = box(v)
        return b
    if __islist__(value):
        return [box(v) for v in value]
    return value


def put(path, value):
    _data[path] = box(value)
    return _data[path]
'''


def sirepo_(ip):
    """an elegant lattice imported by Sirepo, and the field maps of its converter"""
    load(ip, SIREPO, '$sirepo')
    g = lambda nm: ip.base.heap[ip.modframes['$sirepo']].f[nm]

    def use(nm):
        return lambda ip, st, r, a, kw, n: ip.call(g(nm), list(a), kw, st, n)
    kind = lambda k: lambda ip, st, r, a, kw, n: const(isinstance(a[0], Ref) and st.heap[a[0].id].kind == k)
    ip.models['__isdict__'], ip.models['__islist__'] = kind('dict'), kind('list')
    ip.models['sirepo.lib.Importer'] = use('Importer')
    ip.models['sirepo.template.madx_converter._build_field_map'] = use('build')
    return g


PLOTS = '''
import numpy

_state = {'figure': None, 'axes': None}
_figures = []
_axes = []
_saved = []
_shown = []
_hist = []
_hist2d = []
_segs = []
_numbered = {}


class Artist:
    """a line, a patch, a collection, a text: what it was made with"""
    def __init__(self, kind, args, kw):
        self._kind = kind
        self._args = args
        self._kw = kw
        self._removed = False

    def remove(self):
        self._removed = True

    def set_xy(self, xy):
        self._args = (xy,) + self._args[1:]

    def __getattr__(self, name):
        return Ignored(self, name)


class Ignored:
    def __init__(self, owner, name):
        self._owner = owner
        self._name = name

    def __call__(self, *args, **kw):
        if self._name[:4] == 'set_' and len(args) == 1:
            self._owner._kw[self._name[4:]] = args[0]
        return Artist(self._name, args, kw)


class Method:
    def __init__(self, axes, name):
        self._axes = axes
        self._name = name

    def __call__(self, *args, **kw):
        return self._axes._record(self._name, args, kw)


class Axes:
    def __init__(self, where=None):
        self._where = where
        self._calls = []
        _axes.append(self)

    def _record(self, name, args, kw):
        a = Artist(name, args, kw)
        self._calls.append(a)
        if name == 'plot':
            return [a]
        if name[:7] == 'contour':
            a.allsegs = [list(_segs)]
        return a

    def set(self, **kw):
        for k, v in kw.items():
            self._record('set_' + k, (v,), {})

    def __getattr__(self, name):
        return Method(self, name)


class Grid:
    """the axes of a figure"""
    def __init__(self, rows):
        self._rows = rows
        self.shape = (len(rows), len(rows[0]))
        self.size = len(rows) * len(rows[0])

    @property
    def flat(self):
        return [a for r in self._rows for a in r]

    def flatten(self, *args):
        return self.flat

    def ravel(self, *args):
        return self.flat

    def reshape(self, *args):
        return self.flat

    def tolist(self):
        return self._rows

    def __len__(self):
        return len(self._rows)

    def __iter__(self):
        if len(self._rows[0]) == 1:
            return iter(self.flat)
        return iter(self._rows)

    def __getitem__(self, k):
        if isinstance(k, tuple):
            return self._rows[k[0]][k[1]]
        if len(self._rows) == 1 or len(self._rows[0]) == 1:
            return self.flat[k]
        return self._rows[k]


class Spec:
    def __getitem__(self, k):
        return k


class Figure:
    def __init__(self):
        self.axes = []
        _figures.append(self)
        _state['figure'] = self

    def add_gridspec(self, *args, **kw):
        return Spec()

    def add_subplot(self, *args, **kw):
        a = Axes(args)
        self.axes.append(a)
        _state['axes'] = a
        return a

    def add_axes(self, *args, **kw):
        return self.add_subplot(*args)

    def subplots(self, nrows=1, ncols=1, **kw):
        rows = [[self.add_subplot() for j in range(ncols)] for i in range(nrows)]
        if nrows == 1 and ncols == 1:
            return rows[0][0]
        if nrows == 1 or ncols == 1:
            return Grid([[a] for r in rows for a in r])
        return Grid(rows)

    def savefig(self, *args, **kw):
        _saved.append((self, args))

    def gca(self, *args, **kw):
        return self.axes[-1] if self.axes else self.add_subplot()

    def __getattr__(self, name):
        return Ignored(self, name)


def figure(num=None, *args, **kw):
    _state['axes'] = None
    if num is not None:
        if num in _numbered:
            f = _numbered[num]
            _state['figure'] = f
            if f.axes:
                _state['axes'] = f.axes[-1]
            return f
        _numbered[num] = Figure()
        return _numbered[num]
    return Figure()


def subplots(nrows=1, ncols=1, **kw):
    f = Figure()
    return f, f.subplots(nrows, ncols)


def gcf():
    if _state['figure'] is None:
        Figure()
    return _state['figure']


def gca(*args, **kw):
    if _state['axes'] is None:
        gcf().add_subplot()
    return _state['axes']


def subplot(*args, **kw):
    return gcf().add_subplot(*args)


def call(name, args, kw):
    return gca()._record(name, args, kw)


def savefig(*args, **kw):
    _saved.append((_state['figure'], args))


def show(*args, **kw):
    _shown.append(_state['figure'])


def clear(*args, **kw):
    _state['axes'] = None


def rectangle(xy, width, height, angle=0.0, **kw):
    return Artist('Rectangle', (xy, width, height, angle), kw)


def collection(patches, match_original=False, **kw):
    return Artist('PatchCollection', (list(patches), match_original), kw)


def histogram(a, bins=10, range=None, density=None, weights=None):
    k = len(_hist)
    _hist.append((a, bins, range, density, weights))
    # the first bins of the histogram; the last edge is as many bins away as there are
    name = 'h%d' % k
    e = edges(name)[:4] + [__sym__(name + ':0') + __sym__(name + ':m') * __sym__(name + ':w')]
    return numpy.array([__sym__('h%d:n%d' % (k, i)) for i in [0, 1, 2, 3]]), numpy.array(e)


def edges(name):
    return [__sym__(name + ':0') + i * __sym__(name + ':w') for i in [0, 1, 2, 3, 4]]


def histogram2d(x, y, bins=10, range=None, density=None, weights=None):
    k = len(_hist2d)
    _hist2d.append((x, y, bins, range, density, weights))
    return __sym2__('g%d:n' % k), numpy.array(edges('g%dx' % k)), numpy.array(edges('g%dy' % k))
'''


def plots(ip):
    """figures that keep what is drawn on them, histograms of a few bins"""
    load(ip, PLOTS, '$plots')
    g = lambda nm: ip.base.heap[ip.modframes['$plots']].f[nm]

    def use(nm):
        return lambda ip, st, r, a, kw, n: ip.call(g(nm), list(a), kw, st, n)
    mp = 'matplotlib.pyplot.'
    for nm in ('figure', 'subplots', 'gcf', 'gca', 'subplot', 'savefig', 'show'):
        ip.models[mp + nm] = use(nm)
    ip.models[mp + 'axes'] = use('subplot')
    for nm in ('clf', 'cla', 'close'):
        ip.models[mp + nm] = use('clear')

    def current(nm, real):
        def f(ip, st, r, a, kw, n):
            kws = ip.newdict(st, [(const(k), v) for k, v in kw.items()])
            return ip.call(g('call'), [const(real), tup(list(a)), kws], {}, st, n)
        ip.models[mp + nm] = f
    for nm in ('plot', 'scatter', 'imshow', 'axis', 'legend', 'contour', 'contourf', 'hist', 'hist2d', 'grid', 'tight_layout'):
        current(nm, nm)
    for nm in ('xlabel', 'ylabel', 'title', 'xlim', 'ylim', 'xscale', 'yscale'):
        current(nm, 'set_' + nm)
    ip.models['matplotlib.patches.Rectangle'] = use('rectangle')
    ip.models['matplotlib.collections.PatchCollection'] = use('collection')
    ip.models['numpy.histogram'] = use('histogram')
    ip.models['numpy.histogram2d'] = use('histogram2d')

    def sym_(ip, st, r, a, kw, n):
        return sym(a[0].v, 'num', 'notnone', 'pos')
    ip.models['__sym__'] = sym_
    ip.models['__sym2__'] = lambda ip, st, r, a, kw, n: sym(a[0].v, 'num', 'mat', 'notnone')
    return g


TABLE = '''
class Table:
    """one page of columns: a structured array"""
    def __init__(self, cols, n):
        self._cols = cols
        self.shape = (n,)
        self.size = n
        self.ndim = 1
        self.dtype = Names(list(cols))

    def __len__(self):
        return self.size

    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self._cols:
                raise ValueError('no field of name ' + k)
            return self._cols[k]
        return Row(self._cols, k)

    def __iter__(self):
        return iter([Row(self._cols, i) for i in range(self.size)])


class Row:
    def __init__(self, cols, k):
        self._cols = cols
        self._k = k

    def __getitem__(self, k):
        return self._cols[k][self._k]


class Names:
    def __init__(self, n):
        self.names = tuple(n)


class Record:
    """the parameters of one page"""
    def __init__(self, items):
        self._items = items
        self.dtype = Names(list(items))

    def __getitem__(self, k):
        if k not in self._items:
            raise ValueError('no field of name ' + k)
        return self._items[k]


class Sdds:
    """an SDDS file that has been read"""
    def __init__(self, columns, parameters, texts):
        self.columns = columns
        self.parameters = parameters
        self._texts = texts

    def column_symbol(self, name):
        return self._texts[name][0]

    def column_description(self, name):
        return self._texts[name][1]

    def column_units(self, name):
        return self._texts[name][2]
'''


def table_(ip):
    load(ip, TABLE, '$table')
    return lambda nm: ip.base.heap[ip.modframes['$table']].f[nm]

SPACE = '''
class Space:
    """a phase space of six coordinates"""
    def __init__(self, array, n):
        self._array = array
        self._n = n

    def check_array(self):
        pass

    def get_num_ptcls(self):
        return self._n

    def get_array_6d(self):
        return self._array
'''

POINTS = '''
class Points:
    """rows (x, y), all of them or those a mask leaves"""
    def __init__(self, x, y, mask=None):
        self._x = x
        self._y = y
        self._mask = mask

    def __getitem__(self, k):
        if __ispair__(k):
            v = self._y if k[1] == 1 or k[1] == -1 else self._x
            return v if self._mask is None else __op__('masked', v, self._mask)
        return Points(self._x, self._y, k)

    @property
    def T(self):
        return [self[:, 0], self[:, 1]]

    def transpose(self):
        return self.T


class Number:
    """an array without dimensions"""
    def __init__(self, value):
        self._value = value
        self.size = 1
        self.ndim = 0
        self.shape = ()

    def item(self):
        return self._value

    def __int__(self):
        return self._value

    def __index__(self):
        return self._value


def asarray(v, *args, **kw):
    if __isnumber__(v):
        return Number(v)
    return v


def linspace(start, stop, num=50, **kw):
    if isinstance(num, Number):
        num = num._value
    return __op__('call:numpy.linspace', start, stop, num)


def hstack(parts, *args, **kw):
    return Points(__column__(parts[0]), __column__(parts[1]))


def stack(parts, axis=0, **kw):
    return Points(parts[0], parts[1])


class Path:
    def __init__(self, polygon, *args, **kw):
        self._polygon = polygon

    def contains_points(self, points, *args, **kw):
        return __op__('inside', self._polygon, points._x, points._y)

'''


def points(ip):
    """scatter and contour plots: points are pairs of columns"""
    load(ip, POINTS, '$points')
    g = lambda nm: ip.base.heap[ip.modframes['$points']].f[nm]

    def use(nm):
        return lambda ip, st, r, a, kw, n: ip.call(g(nm), list(a), kw, st, n)

    def column(ip, st, r, a, kw, n):
        v = ip.snap1(a[0], st)
        while isinstance(v, App) and v.op in ('elem', 'getitem', 'm:reshape', 'call:numpy.expand_dims'):
            v = v.args[0]
        return v
    ip.models['__column__'] = column
    ip.models['__ispair__'] = lambda ip, st, r, a, kw, n: const(isinstance(a[0], Tup))
    ip.models['__isnumber__'] = lambda ip, st, r, a, kw, n: const(isinstance(a[0], Const) or isinstance(a[0], Sym) and 'vec' not in a[0].attrs)
    for nm in ('asarray', 'linspace'):
        ip.models['numpy.' + nm] = use(nm)
    ip.models['numpy.size'] = lambda ip, st, r, a, kw, n: ip.getattr_(a[0], 'size', st, n)
    ip.models['numpy.hstack'] = use('hstack')
    ip.models['numpy.column_stack'] = ip.models['numpy.stack'] = use('stack')
    ip.models['matplotlib.path.Path'] = use('Path')
    return g


HDF = '''
_files = {}


class Group:
    """names and what they stand for"""
    def __init__(self, members, attrs):
        self._members = members
        self.attrs = attrs

    def __getitem__(self, path):
        here = self
        for part in path.split('/'):
            if part:
                if part not in here._members:
                    raise KeyError(part)
                here = here._members[part]
        return here

    def get(self, path, default=None):
        return self[path] if path in self else default

    def __contains__(self, path):
        here = self
        for part in path.split('/'):
            if part:
                if part not in here._members:
                    return False
                here = here._members[part]
        return True

    def __iter__(self):
        return iter(list(self._members))

    def __len__(self):
        return len(self._members)

    def keys(self):
        return list(self._members)

    def values(self):
        return list(self._members.values())

    def items(self):
        return list(self._members.items())

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def open_(name, mode='r', *args, **kw):
    return _files[0]


def put(group):
    _files[0] = group
'''


def hdf(ip):
    """an HDF5 file of known groups"""
    load(ip, HDF, '$hdf')
    g = lambda nm: ip.base.heap[ip.modframes['$hdf']].f[nm]
    ip.models['h5py.File'] = lambda ip, st, r, a, kw, n: ip.call(g('open_'), list(a), kw, st, n)
    return g


LIB = '''
def reduce(f, xs, *init):
    if init:
        r = init[0]
        for x in xs:
            r = f(r, x)
        return r
    xs = list(xs)
    r = xs[0]
    for x in xs[1:]:
        r = f(r, x)
    return r


def takewhile(f, xs):
    out = []
    for x in xs:
        if not f(x):
            break
        out.append(x)
    return out


def dropwhile(f, xs):
    out = []
    going = False
    for x in xs:
        if going or not f(x):
            going = True
            out.append(x)
    return out


def filterfalse(f, xs):
    return [x for x in xs if not f(x)]


def chain(*its):
    return from_iterable(its)


def from_iterable(its):
    out = []
    for it in its:
        for x in it:
            out.append(x)
    return out


def starmap(f, xs):
    return [f(*x) for x in xs]


def accumulate(xs, f=None, initial=None):
    out = []
    if initial is not None:
        out.append(initial)
    for x in xs:
        if out:
            out.append(out[-1] + x if f is None else f(out[-1], x))
        else:
            out.append(x)
    return out


def pairwise(xs):
    xs = list(xs)
    return list(zip(xs[:-1], xs[1:]))


def product(a, b):
    return [(x, y) for x in a for y in b]


class defaultdict(dict):
    def __init__(self, factory=None, *args, **kw):
        dict.__init__(self, *args, **kw)
        self._factory = factory

    def __getitem__(self, key):
        if not dict.__contains__(self, key):
            if self._factory is None:
                raise KeyError(key)
            dict.__setitem__(self, key, self._factory())
        return dict.__getitem__(self, key)
'''


def lib(ip):
    """functions of the standard library that apply the functions they are given"""
    load(ip, LIB, '$lib')
    g = lambda nm: ip.base.heap[ip.modframes['$lib']].f[nm]

    def through(nm):
        return lambda ip, st, r, a, kw, n: ip.call(g(nm), list(a), kw, st, n)
    ip.models['functools.reduce'] = through('reduce')
    for nm in ('takewhile', 'dropwhile', 'filterfalse', 'chain', 'starmap', 'accumulate', 'pairwise', 'product'):
        ip.models['itertools.' + nm] = through(nm)
    ip.models['itertools.chain.from_iterable'] = through('from_iterable')
    ip.models['collections.defaultdict'] = through('defaultdict')

    def count(ip, st, r, a, kw, n):
        t = app('stream', ip._uid())
        at, by = a[0] if a else kw.get('start', const(0)), a[1] if len(a) > 1 else kw.get('step', const(1))
        if isinstance(at, Const) and isinstance(by, Const):
            ip.streams[t] = nadd(at, nmul(by, app('index', t)))
            return t
        return ip.opaque('call:itertools.count', a, kw, st)
    ip.models['itertools.count'] = count
