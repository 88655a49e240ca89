"""Small expression builder for writing specifications as value numbers."""
from fractions import Fraction
from .val import *
from . import val as V

C_LIGHT = 299792458.0
E_CHARGE = 1.602176634e-19
ME_EV = 510998.95000
ME_KG = 9.1093837015e-31
MP_EV = 938272088.16
MP_KG = 1.67262192369e-27


def leaf(x):
    if isinstance(x, E):
        return x.v
    if isinstance(x, (Leaf, Ite)):
        return x
    return const(x)


class E:
    def __init__(self, v):
        self.v = leaf(v)

    def _b(self, o, f):
        return E(ap(f, self.v, leaf(o)))

    def __add__(self, o): return self._b(o, lambda a, b: nadd(a, b))
    def __radd__(self, o): return E(o) + self
    def __sub__(self, o): return self._b(o, lambda a, b: nadd(a, b, -1))
    def __rsub__(self, o): return E(o) - self
    def __mul__(self, o): return self._b(o, nmul)
    def __rmul__(self, o): return E(o) * self
    def __truediv__(self, o): return self._b(o, lambda a, b: nmul(a, npow(b, Fraction(-1))))
    def __rtruediv__(self, o): return E(o) / self
    def __pow__(self, q): return E(ap(lambda a: npow(a, Fraction(q)), self.v))
    def __neg__(self): return E(-1) * self

    def sqrt(self): return self ** Fraction(1, 2)


def fn(op, *a):
    return E(ap(lambda *xs: app('f:' + op, *xs), *[leaf(x) for x in a]))


def S(name, *attrs):
    return E(sym(name, 'num', *attrs))
