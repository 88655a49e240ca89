"""Kinematic converter: every output term equals the relativistic relation."""
from .common import *

MOD = 'rsbeams.rsstats.kinematic'
KINDS = ['momentum', 'velocity', 'energy', 'kenergy', 'betagamma', 'beta', 'gamma', 'brho']
OUT = KINDS
P_SI = C_LIGHT / E_CHARGE      # kg m/s -> eV/c
E_SI = 1 / E_CHARGE            # J -> eV
KG = C_LIGHT ** 2 / E_CHARGE   # kg -> eV/c^2
DOM = {'m': (0.4e6, 9e8)}


def spec(kind, x, m):
    """beta, gamma of a particle of mass m [eV] whose `kind` (eV based units) is x"""
    one = E(1)
    if kind == 'velocity':
        b = x / C_LIGHT
    if kind == 'beta':
        b = x
    if kind in ('velocity', 'beta'):
        return b, one / (one - b ** 2).sqrt()
    if kind in ('momentum', 'betagamma', 'brho'):
        bg = {'momentum': x / m, 'betagamma': x, 'brho': x * C_LIGHT / m}[kind]
        g = (one + bg ** 2).sqrt()
        return bg / g, g
    g = {'energy': x / m, 'kenergy': x / m + 1, 'gamma': x}[kind]
    return (one - one / g ** 2).sqrt(), g


def domain(kind, iu, m0, munit):
    """values of the input for which the particle exists, for masses around m0 eV"""
    f = {'momentum': P_SI, 'energy': E_SI, 'kenergy': E_SI}.get(kind, 1.0) if iu == 'SI' else 1.0
    r = {'velocity': (0.05 * C_LIGHT, 0.98 * C_LIGHT), 'beta': (0.05, 0.98), 'momentum': (0.2 * m0, 30 * m0),
         'betagamma': (0.1, 20.0), 'brho': (0.3 * m0 / C_LIGHT, 20 * m0 / C_LIGHT), 'energy': (1.2 * m0, 30 * m0),
         'kenergy': (0.2 * m0, 30 * m0), 'gamma': (1.05, 25.0)}[kind]
    d = {'x': (r[0] / f, r[1] / f)}
    mf = KG if munit == 'SI' else 1.0
    d['m'] = (0.95 * m0 / mf, 1.05 * m0 / mf)
    return d


def configs(thorough):
    for kind in KINDS:
        for iu in ('eV', 'SI'):
            for mass in (('m', 'eV'), ('m', 'SI'), (None, 'eV'), (None, 'SI')):
                for ou in ('eV', 'SI'):
                    yield kind, iu, mass, ou


AT_REST = {'momentum': 0, 'velocity': 0, 'kenergy': 0, 'betagamma': 0, 'beta': 0, 'brho': 0, 'gamma': 1}


def rests(ip, st):
    """a particle at rest, given through each quantity that can be zero (or through gamma = 1)"""
    for kind, v in AT_REST.items():
        for num in (v, float(v)):
            for iu in ('eV', 'SI'):
                mass, ou = ('m', iu), iu
                x, m, mlab, want, dom = expected(kind, iu, mass, ou, E(num))
                s, r = build(ip, st, kind, iu, mass, ou, E(const(num)), m)
                yield kind, num, iu, s, r, m, want, dom


def expected(kind, iu, mass, ou, x=None):
    x, m = S('x', 'pos') if x is None else x, S('m', 'pos')
    munit = mass[1]
    m0 = ME_EV if mass[0] is None else 2.3e7
    mev = E(ME_EV) if mass[0] is None else (m * KG if munit == 'SI' else m)
    mlab = (E(ME_EV / KG) if munit == 'SI' else E(ME_EV)) if mass[0] is None else m
    xin = x * {'momentum': P_SI, 'energy': E_SI, 'kenergy': E_SI}[kind] if iu == 'SI' and kind in ('momentum', 'energy', 'kenergy') else x
    b, g = spec(kind, xin, mev)
    fp, fe = (1 / P_SI, 1 / E_SI) if ou == 'SI' else (1.0, 1.0)
    out = {'beta': b, 'gamma': g, 'velocity': b * C_LIGHT, 'betagamma': b * g, 'momentum': b * g * mev * fp,
           'energy': g * mev * fe, 'kenergy': (g - 1) * mev * fe, 'brho': b * g * mev / C_LIGHT}
    return x, m, mlab, out, domain(kind, iu, m0, munit)


def build(ip, st, kind, iu, mass, ou, x, m):
    C = ip.glob(st, MOD, 'Converter')
    kw = {kind: x.v, 'input_unit': const(iu), 'output_unit': const(ou), 'mass_unit': const(mass[1])}
    if mass[0] is not None:
        kw['mass'] = m.v
    s = st.fork()
    r = ip.call(C, [], kw, s, None)
    return s, r


def relations(c):
    ip = interp()
    st = ip.fresh(MOD)
    need(ip, st, MOD, 'Converter')
    for kind, iu, mass, ou in configs(c.thorough):
        x, m, mlab, want, dom = expected(kind, iu, mass, ou)
        s, r = build(ip, st, kind, iu, mass, ou, x, m)
        o = ip.call(r, [], {'silent': TRUE}, s, None)
        where = 'Converter(%s=x [%s], mass=%s [%s]) -> %s' % (kind, iu, mass[0], mass[1], ou)
        if not result_ok(c, 'returns', where, s, o):
            continue
        for q in OUT:
            got = dget(ip, s, o, q)
            c.same('relation', '%s[%s]' % (where, q), got, want[q].v, dom, care=s.pc, what=q)
    for kind, num, iu, s, r, m, want, dom in rests(ip, st):
        o = ip.call(r, [], {'silent': TRUE}, s, None)
        where = 'Converter(%s=%r [%s]) at rest' % (kind, num, iu)
        if result_ok(c, 'at-rest', where, s, o):
            for q in OUT:
                c.same('at-rest', '%s[%s]' % (where, q), dget(ip, s, o, q), want[q].v, dom, care=s.pc, what=q)
    # the static start_* helpers and main are reached through __call__
    c.floor('relation', 900)
    c.visited(ip)
    c.assume += ['numbers are exact reals (rounding is out of scope)',
                 'scipy.constants has its CODATA 2018 values']


UNIT_P = {'eV': ('eV/c',), 'SI': ('kg * m/s',)}


def units(c):
    ip = interp()
    st = ip.fresh(MOD)
    need(ip, st, MOD, 'Converter')
    lab_in = {('momentum', 'eV'): 'eV/c', ('energy', 'eV'): 'eV', ('kenergy', 'eV'): 'eV', ('velocity', 'eV'): 'm/s',
              ('momentum', 'SI'): 'kg*m/s', ('energy', 'SI'): 'J', ('kenergy', 'SI'): 'J', ('velocity', 'SI'): 'm/s'}
    norm = lambda t: t.replace(' ', '').replace('**', '^').replace('T*m', '')
    for kind, iu, mass, ou in configs(c.thorough):
        x, m, mlab, want, dom = expected(kind, iu, mass, ou)
        s, r = build(ip, st, kind, iu, mass, ou, x, m)
        where = 'Converter(%s=x [%s], mass=%s [%s]) -> %s' % (kind, iu, mass[0], mass[1], ou)
        first = None
        for call in ('first call', 'second call'):
            o = ip.call(r, [], {'silent': TRUE if call == 'first call' else FALSE}, s, None)
            w = where + ' ' + call
            if not result_ok(c, 'returns', w, s, o):
                break
            c.same('input-echo', w, dget(ip, s, o, 'input'), x.v, dom, what='reported input')
            c.same('mass-echo', w, dget(ip, s, o, 'mass'), mlab.v, dom, what='reported mass')
            for key, text in (('input_type', kind), ('mass_unit', {'eV': 'eV/c^2', 'SI': 'kg'}[mass[1]]),
                              ('p_unit', {'eV': 'eV/c', 'SI': 'kg*m/s'}[ou]), ('e_unit', {'eV': 'eV', 'SI': 'J'}[ou]),
                              ('input_unit', lab_in.get((kind, iu), ''))):
                got = dget(ip, s, o, key)
                v = None
                if isinstance(got, Const):
                    v = isinstance(got.v, str) and norm(got.v) == norm(text)
                c.ob('unit-label', '%s %s' % (w, key), v, '%s is %s, the value it labels is in %r' % (key, show(got), text))
            for q in OUT:
                got = dget(ip, s, o, q)
                if call == 'second call':
                    c.same('repeatable', '%s[%s]' % (where, q), got, want[q].v, dom, what=q + ' on a second call')
                else:
                    c.same('labelled-value', '%s[%s]' % (where, q), got, want[q].v, dom, what=q)
    for kind, num, iu, s, r, m, want, dom in rests(ip, st):
        o = ip.call(r, [], {'silent': TRUE}, s, None)
        where = 'Converter(%s=%r [%s]) at rest' % (kind, num, iu)
        if result_ok(c, 'returns', where, s, o):
            got = dget(ip, s, o, 'input_type')
            c.ob('unit-label', where + ' input_type', got.v == kind if isinstance(got, Const) else None, 'input_type is %s' % show(got))
            c.same('input-echo', where, dget(ip, s, o, 'input'), const(num), dom, what='reported input')
    c.floor('unit-label', 1000)
    c.floor('repeatable', 500)
    # the command line offers every quantity of the constructor
    mod = c_project().mod(MOD)
    dests = {}
    for n in ast.walk(mod.tree):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'add_argument':
            kw = {k.arg: k.value for k in n.keywords}
            opts = [a.value for a in n.args if isinstance(a, ast.Constant) and isinstance(a.value, str)]
            d = kw.get('dest')
            name = d.value if isinstance(d, ast.Constant) else next((o.lstrip('-').replace('-', '_') for o in opts if o.startswith('--')), None)
            dests[name] = (kw.get('type'), opts, n.lineno)
    for q in KINDS + ['mass']:
        if not dests:
            break
        ok = q in dests
        t = dests[q][0] if ok else None
        c.ob('cli-quantity', q, ok and isinstance(t, ast.Name) and t.id == 'float',
             'command line option storing %r as a float' % q, ok and dests[q][2])
    for q in ('mass_unit', 'input_unit', 'output_unit'):
        if dests:
            c.ob('cli-quantity', q, q in dests, 'command line option storing %r' % q)
    c.visited(ip)
