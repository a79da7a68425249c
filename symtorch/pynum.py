"""Symbolic Python numbers: an exact rational  node / den  that stands for an int (den 1) or a float.
Anything that needs a definite value (a branch, an index, int()) fixes it on the current path.
Float rounding is not modelled: sound for quotients of integers far below 2**53, as declared by the user."""
import math
from fractions import Fraction
import torch
from . import ir
from .ir import Unsupported, Node


class Num:
    __slots__ = ("mode", "n", "d", "fl")

    def __init__(self, mode, n, d=1, fl=False):
        self.mode, self.n, self.d, self.fl = mode, n, d, fl

    @property
    def __class__(self):
        return float if self.fl else int

    # -- helpers
    def lift(self, o):
        t = type(o)
        if t is Num:
            return o
        if t is bool or t is int:
            return Num(self.mode, int(o))
        if t is float:
            if o != o or o in (math.inf, -math.inf):
                raise Unsupported("non finite constant")
            f = Fraction(o)
            return Num(self.mode, f.numerator, f.denominator, True)
        return None

    def cv(self):
        c = Fraction(ir.cvof(self.n)) / self.d
        return float(c) if self.fl else int(c)

    def fix(self):
        with torch.utils._python_dispatch._disable_current_modes():
            self.mode.concretize(self.n)
        return self.cv()

    def _cmp(self, o, f):
        o = self.lift(o)
        if o is None:
            return NotImplemented
        c = f(ir.mul(self.n, o.d), ir.mul(o.n, self.d))
        if isinstance(c, Node):
            self.mode.concretize(c)
            return bool(c.cv)
        return bool(c)

    def __lt__(self, o): return self._cmp(o, ir.lt)
    def __le__(self, o): return self._cmp(o, ir.le)
    def __gt__(self, o): return self._cmp(o, lambda a, b: ir.lt(b, a))
    def __ge__(self, o): return self._cmp(o, lambda a, b: ir.le(b, a))
    def __eq__(self, o): return self._cmp(o, ir.eq)
    def __ne__(self, o): return self._cmp(o, ir.ne)
    def __hash__(self): return hash(self.fix())
    def __bool__(self): return self != 0

    # -- arithmetic
    def _bin(self, o, f):
        o = self.lift(o)
        if o is None:
            return NotImplemented
        return f(self, o)

    def __add__(self, o):
        return self._bin(o, lambda a, b: Num(a.mode, ir.add(ir.mul(a.n, b.d), ir.mul(b.n, a.d)), a.d * b.d, a.fl or b.fl).red())

    __radd__ = __add__

    def __neg__(self): return Num(self.mode, ir.neg(self.n), self.d, self.fl)
    def __pos__(self): return self
    def __sub__(self, o): return self._bin(o, lambda a, b: a + (-b))
    def __rsub__(self, o): return self._bin(o, lambda a, b: b + (-a))

    def __mul__(self, o):
        return self._bin(o, lambda a, b: Num(a.mode, ir.mul(a.n, b.n), a.d * b.d, a.fl or b.fl).red())

    __rmul__ = __mul__

    def red(self):
        """drop a common constant factor when the node is constant"""
        if not isinstance(self.n, Node) and self.d != 1:
            f = Fraction(self.n) / self.d
            self.n, self.d = f.numerator, f.denominator
        return self

    def const(self):
        if isinstance(self.n, Node):
            self.fix()
        c = Fraction(ir.cvof(self.n)) / self.d
        if c == 0:
            raise ZeroDivisionError("division by zero")
        return c

    def __truediv__(self, o):
        def f(a, b):
            c = b.const()
            s = 1 if c > 0 else -1
            return Num(a.mode, ir.mul(a.n, s * c.denominator), a.d * abs(c.numerator), True).red()
        return self._bin(o, f)

    def __rtruediv__(self, o): return self._bin(o, lambda a, b: b / a)

    def __floordiv__(self, o):
        def f(a, b):
            q = math.floor(a / b)
            return q if not (a.fl or b.fl) else Num(q.mode, q.n, 1, True) if type(q) is Num else float(q)
        return self._bin(o, f)

    def __rfloordiv__(self, o): return self._bin(o, lambda a, b: b // a)
    def __mod__(self, o): return self._bin(o, lambda a, b: a - b * (a // b))
    def __rmod__(self, o): return self._bin(o, lambda a, b: b % a)
    def __divmod__(self, o): return self // o, self % o
    def __rdivmod__(self, o): return o // self, o % self

    def __pow__(self, o, m=None):
        k = o.fix() if type(o) is Num else o
        if isinstance(k, int) and 0 <= k <= 8 and m is None:
            r = Num(self.mode, 1, 1, self.fl)
            for _ in range(k):
                r = r * self
            return r
        return pow(self.fix(), k, m)

    def __rpow__(self, o): return o ** self.fix()
    def __abs__(self): return Num(self.mode, ir.absv(self.n), self.d, self.fl)
    def __floor__(self): return Num(self.mode, ir.fdivc(self.n, self.d) if self.d != 1 else self.n)
    def __ceil__(self):
        if self.d == 2:
            return Num(self.mode, self.n) - self.__floor__()
        return -((-self).__floor__())
    def __trunc__(self): return math.floor(self) if self >= 0 else math.ceil(self)

    def __round__(self, n=None):
        if n is not None:
            return round(self.fix(), n)
        if self.d == 1:
            return Num(self.mode, self.n)
        f = math.floor(self + Fraction1(self, 1, 2))
        tie = self - math.floor(self) == 0.5
        return f - 1 if tie and f % 2 == 1 else f

    # -- definite values
    def __int__(self): return int(self.fix())
    def __index__(self):
        if self.fl:
            raise TypeError("'float' object cannot be interpreted as an integer")
        return int(self.fix())
    def __float__(self): return float(self.fix())
    def __repr__(self): return repr(self.fix())
    __str__ = __repr__
    def __format__(self, s): return format(self.fix(), s)
    def is_integer(self): return self == math.floor(self)
    def __lshift__(self, o): return self * 2 ** int(o)
    def __rshift__(self, o): return self // 2 ** int(o)
    def __and__(self, o): return self.fix() & int(o)
    def __or__(self, o): return self.fix() | int(o)
    def __xor__(self, o): return self.fix() ^ int(o)
    __rand__, __ror__, __rxor__ = __and__, __or__, __xor__


def Fraction1(like, a, b):
    return Num(like.mode, a, b, True)
