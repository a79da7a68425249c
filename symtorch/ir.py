"""Symbolic expression DAG with exact dyadic intervals.

Three kinds of node
  'b'  boolean
  'n'  exact number: value = V / 2**g with integer V in [L, H]
  'f'  IEEE float (fmt 'f32'/'f64'), used only when the float result is not exact
Constants are plain python values: bool, int, Fraction (dyadic), or FC (non finite / float const).

Every node carries cv, the value it takes under the concrete inputs the code is
executed with; the dispatch mode compares it with what torch really computed, so
every encoded operation is checked against torch on every run.
"""
from fractions import Fraction
import math
import sys
import numpy as np

sys.setrecursionlimit(max(20000, sys.getrecursionlimit()))


class Unsupported(Exception):
    """The engine cannot encode this operation: an error of the check, never a verdict."""


class FC:
    """A float constant that an exact number cannot stand for (nan, inf)."""
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return f"FC({self.v})"


class Node:
    __slots__ = ("op", "args", "kind", "L", "H", "g", "cv", "id", "fmt", "_dom", "extra", "_poly", "_root", "__weakref__")

    def __repr__(self):
        return f"<{self.kind}:{self.op}#{self.id}>"

    # arithmetic sugar for oracles (exact semantics)
    def __add__(a, b): return add(a, b)
    def __radd__(a, b): return add(b, a)
    def __sub__(a, b): return sub(a, b)
    def __rsub__(a, b): return sub(b, a)
    def __mul__(a, b): return mul(a, b)
    def __rmul__(a, b): return mul(b, a)
    def __neg__(a): return neg(a)
    def __abs__(a): return absv(a)
    def __lt__(a, b): return lt(a, b)
    def __le__(a, b): return le(a, b)
    def __gt__(a, b): return lt(b, a)
    def __ge__(a, b): return le(b, a)
    def __and__(a, b): return And(a, b)
    def __rand__(a, b): return And(b, a)
    def __or__(a, b): return Or(a, b)
    def __ror__(a, b): return Or(b, a)
    def __bool__(a):
        raise TypeError("symbolic value used as a python bool in an oracle")


_cache = {}
_gvn = {}
_next = [0]


def reset():
    _cache.clear()
    _gvn.clear()
    _next[0] = 0


def is_node(x):
    return isinstance(x, Node)


def _k(a):
    if isinstance(a, Node):
        return ("N", a.id)
    if isinstance(a, FC):
        return ("F", repr(a.v))
    return (type(a).__name__[0], a)


def mk(op, args, kind, L=None, H=None, g=None, cv=None, fmt=None, extra=None, key=None):
    k = (op, tuple(_k(a) for a in args), key)
    n = _cache.get(k)
    if n is not None:
        return n
    n = Node()
    n.op, n.args, n.kind, n.L, n.H, n.g, n.cv, n.fmt, n.extra = op, tuple(args), kind, L, H, g, cv, fmt, extra
    n._dom = None
    n._poly = None
    n._root = 0
    n.id = _next[0]
    _next[0] += 1
    if op in GVN_OPS:
        m = canon(n)
        if m is not n:
            _cache[k] = m
            return m
    _cache[k] = n
    return n


# ---------------------------------------------------------------- value numbering
# Every boolean is a multilinear polynomial over its leaves, every sum a polynomial over
# boolean monomials and opaque numbers.  Two nodes with one polynomial are one node, so that
# sums taken in different orders and different spellings of a small boolean function meet.
GVN_OPS = {"and", "xor", "add", "sub", "rsub", "mulc", "ite"}
CAPB, CAPN = 24, 160
_E = frozenset()


def _padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + c * k
        if v == 0:
            r.pop(m, None)
        else:
            r[m] = v
    return r


def _pmul(p, q, cap):
    if len(p) * len(q) > 4 * cap:
        return None
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = m | n
            v = r.get(k, 0) + c * d
            if v == 0:
                r.pop(k, None)
            else:
                r[k] = v
    return r if len(r) <= cap else None


def poly(n):
    if not isinstance(n, Node):
        n = int(n) if isinstance(n, bool) else n
        return {_E: n} if n != 0 else {}
    if n._poly is None:
        p = _mkpoly(n)
        n._poly = p if p is not None else {frozenset((n.id,)): 1}
    return n._poly


def _mkpoly(n):
    o, a = n.op, n.args
    if o == "not":
        return _padd({_E: 1}, poly(a[0]), -1)
    if o == "b2i":
        return poly(a[0])
    if o == "and":
        if len(a) > 6:
            return None
        r = {_E: 1}
        for x in a:
            r = _pmul(r, poly(x), CAPB)
            if r is None:
                return None
        return r
    if o == "xor":
        p, q = poly(a[0]), poly(a[1])
        m = _pmul(p, q, CAPB)
        if m is None:
            return None
        r = _padd(_padd(p, q), m, -2)
        return r if len(r) <= CAPB else None
    if o == "add" or o == "sub":
        r = _padd(poly(a[0]), poly(a[1]), 1 if o == "add" else -1)
        return r if len(r) <= CAPN else None
    if o == "rsub":
        r = _padd(poly(a[1]), poly(a[0]), -1)
        return r if len(r) <= CAPN else None
    if o == "mulc":
        c = a[1]
        return {m: v * c for m, v in poly(a[0]).items()}
    if o == "ite":
        if is_fp(a[1]) or is_fp(a[2]):
            return None
        d = _padd(poly(a[1]), poly(a[2]), -1)
        m = _pmul(poly(a[0]), d, CAPB)
        if m is None:
            return None
        r = _padd(m, poly(a[2]))
        return r if len(r) <= CAPB else None
    return None


def canon(n):
    """n, an older node of the same value, or a constant"""
    p = poly(n)
    if len(p) == 0 or len(p) == 1 and _E in p:
        v = norm(p.get(_E, 0))
        if n.kind == "b":
            return bool(v)
        return int(v) if isinstance(v, bool) else v
    if len(p) == 1:
        (m, c), = p.items()
        if len(m) == 1 and n.id in m:
            return n
    k = (n.kind, frozenset(p.items()))
    o = _gvn.get(k)
    if o is None:
        if n.kind == "b":
            o2 = _gvn.get((n.kind, frozenset(_padd({_E: 1}, p, -1).items())))
            if o2 is not None:
                return Not(o2)
        _gvn[k] = n
        if len(p) == 1 and n.kind == "n":
            pass
        return n
    return o


# ---------------------------------------------------------------- constants
def norm(c):
    """normalise a python number to bool/int/Fraction/FC"""
    if isinstance(c, (bool, int, Node, FC)):
        return c
    if isinstance(c, Fraction):
        return int(c) if c.denominator == 1 else c
    if isinstance(c, float):
        if c != c or c in (math.inf, -math.inf):
            return FC(c)
        if c == int(c):
            return int(c)
        return Fraction(c)
    if isinstance(c, (np.integer,)):
        return int(c)
    if isinstance(c, (np.floating,)):
        return norm(float(c))
    if isinstance(c, np.bool_):
        return bool(c)
    raise Unsupported(f"constant {c!r}")


def sc(c):
    """constant -> (V, g) with V odd (or 0)"""
    if isinstance(c, bool):
        c = int(c)
    if isinstance(c, int):
        if c == 0:
            return 0, 0
        tz = (c & -c).bit_length() - 1
        return c >> tz, -tz
    d = c.denominator
    if d & (d - 1):
        raise Unsupported(f"non dyadic constant {c}")
    return c.numerator, d.bit_length() - 1


def val(V, g):
    return norm(Fraction(V) / (Fraction(2) ** g)) if g > 0 else V << (-g)


def LHg(a):
    if isinstance(a, Node):
        return a.L, a.H, a.g
    V, g = sc(a)
    return V, V, g


def cvof(a):
    return a.cv if isinstance(a, Node) else a


def lo(a):
    return val(a.L, a.g) if isinstance(a, Node) else a


def hi(a):
    return val(a.H, a.g) if isinstance(a, Node) else a


def is_num(a):
    return (isinstance(a, Node) and a.kind == "n") or (not isinstance(a, (Node, bool, FC)))


def is_bool(a):
    return isinstance(a, bool) or (isinstance(a, Node) and a.kind == "b")


def is_fp(a):
    return isinstance(a, FC) or (isinstance(a, Node) and a.kind == "f")


def num(a):
    """bool -> 0/1 number"""
    if isinstance(a, bool):
        return int(a)
    if isinstance(a, Node) and a.kind == "b":
        return b2i(a)
    return a


# ---------------------------------------------------------------- booleans
def bvar(name, cv):
    return mk("bvar", (), "b", cv=bool(cv), key=name, extra=name)


def Not(a):
    if isinstance(a, bool):
        return not a
    if a.op == "not":
        return a.args[0]
    return mk("not", (a,), "b", cv=not a.cv)


def And(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if not x:
                return False
            continue
        if x not in out:
            out.append(x)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    ids = {x.id for x in out}
    for x in out:
        if x.op == "not" and x.args[0].id in ids:
            return False
    out.sort(key=lambda n: n.id)
    return mk("and", out, "b", cv=all(x.cv for x in out))


def Or(*xs):
    return Not(And(*[Not(x) for x in xs]))


def Xor(a, b):
    if isinstance(a, bool):
        return Not(b) if a else b
    if isinstance(b, bool):
        return Not(a) if b else a
    if a is b:
        return False
    neg_ = False
    if a.op == "not":
        a, neg_ = a.args[0], not neg_
    if b.op == "not":
        b, neg_ = b.args[0], not neg_
    if a is b:
        return neg_
    if a.id > b.id:
        a, b = b, a
    r = mk("xor", (a, b), "b", cv=a.cv != b.cv)
    return Not(r) if neg_ else r


def Implies(a, b):
    return Or(Not(a), b)


def Iff(a, b):
    return Not(Xor(a, b))


# ---------------------------------------------------------------- numbers
def nvar(name, lo_, hi_, cv, g=0):
    """symbolic number on grid 2**-g, lo_/hi_/cv given as scaled integers"""
    if lo_ == hi_:
        return val(lo_, g)
    return mk("nvar", (), "n", lo_, hi_, g, cv=val(cv, g), key=name, extra=name)


def b2i(b):
    if isinstance(b, bool):
        return int(b)
    return mk("b2i", (b,), "n", 0, 1, 0, cv=int(b.cv))


def _fin(op, args, L, H, g, cv, extra=None, key=None):
    if L == H:
        return val(L, g)
    return mk(op, args, "n", L, H, g, cv=norm(cv), extra=extra, key=key)


def _al(a, b):
    La, Ha, ga = LHg(a)
    Lb, Hb, gb = LHg(b)
    # a zero constant has no grid of its own
    if not isinstance(a, Node) and a == 0:
        ga = gb
    if not isinstance(b, Node) and b == 0:
        gb = ga
    g = max(ga, gb)
    sa, sb = g - ga, g - gb
    return La << sa, Ha << sa, Lb << sb, Hb << sb, g


def _both(a, b):
    return not isinstance(a, Node) and not isinstance(b, Node)


def _f64(op, *xs):
    """arithmetic of the oracles on float values: double precision"""
    return fop(op, *[fop("fcast", x, fmt="f64") if isinstance(x, Node) and x.kind == "f" and x.fmt != "f64" else x for x in xs], fmt="f64")


def add(a, b):
    if is_fp(a) or is_fp(b):
        return _f64("fadd", a, b)
    a, b = num(a), num(b)
    if _both(a, b):
        return norm(a + b)
    if not isinstance(b, Node) and b == 0:
        return a
    if not isinstance(a, Node):
        if a == 0:
            return b
        a, b = b, a
    if not isinstance(b, Node):
        # (x + c1) + c2
        if a.op == "add" and not isinstance(a.args[1], Node):
            return add(a.args[0], norm(a.args[1] + b))
        if a.op == "rsub":
            return rsubc(norm(a.args[1] + b), a.args[0])
    else:
        if a.op == "ite" and b.op == "ite" and a.args[0] is b.args[0]:
            # complementary alternatives
            for i in (1, 2):
                if not isinstance(a.args[i], Node) and a.args[i] == 0 and not isinstance(b.args[3 - i], Node) and b.args[3 - i] == 0:
                    return ite(a.args[0], b.args[1], a.args[2]) if i == 1 else ite(a.args[0], a.args[1], b.args[2])
        # x + (c ? k - x : 0) selects between k and x
        for x, y in ((a, b), (b, a)):
            if y.op == "ite" and x.op != "b2i":
                for i in (1, 2):
                    if not isinstance(y.args[3 - i], Node) and y.args[3 - i] == 0 and isinstance(y.args[i], Node):
                        d = _padd(poly(x), poly(y.args[i]))
                        if len(d) == 0 or len(d) == 1 and _E in d:
                            k = norm(Fraction(d.get(_E, 0)))
                            return ite(y.args[0], k, x) if i == 1 else ite(y.args[0], x, k)
    La, Ha, Lb, Hb, g = _al(a, b)
    return _fin("add", (a, b), La + Lb, Ha + Hb, g, cvof(a) + cvof(b))


def rsubc(c, a):
    """constant c - a"""
    if a.op == "b2i" and c == 1:
        return b2i(Not(a.args[0]))
    La, Ha, Lb, Hb, g = _al(a, c)
    return _fin("rsub", (a, c), Lb - Ha, Hb - La, g, c - a.cv)


def neg(a):
    if is_fp(a):
        return _f64("fneg", a)
    a = num(a)
    if not isinstance(a, Node):
        return -a
    return rsubc(0, a)


def sub(a, b):
    if is_fp(a) or is_fp(b):
        return _f64("fsub", a, b)
    a, b = num(a), num(b)
    if _both(a, b):
        return norm(a - b)
    if not isinstance(b, Node):
        return add(a, -b)
    if not isinstance(a, Node):
        return rsubc(a, b)
    if a is b:
        return 0
    La, Ha, Lb, Hb, g = _al(a, b)
    return _fin("sub", (a, b), La - Hb, Ha - Lb, g, a.cv - b.cv)


def mul(a, b):
    if is_fp(a) or is_fp(b):
        return _f64("fmul", a, b)
    a, b = num(a), num(b)
    if _both(a, b):
        return norm(a * b)
    if not isinstance(a, Node):
        a, b = b, a
    if not isinstance(b, Node):
        if b == 0:
            return 0
        if b == 1:
            return a
        V, gc = sc(b)
        L, H = a.L * V, a.H * V
        if V < 0:
            L, H = H, L
        if a.op == "b2i":
            return ite(a.args[0], b, 0)
        return _fin("mulc", (a, b), L, H, a.g + gc, a.cv * b)
    if a.op == "b2i" and b.op == "b2i":
        return b2i(And(a.args[0], b.args[0]))
    if a.op == "b2i":
        return ite(a.args[0], b, 0)
    if b.op == "b2i":
        return ite(b.args[0], a, 0)
    if a is b:
        ps = [a.L * a.L, a.H * a.H]
        L = 0 if a.L <= 0 <= a.H else min(ps)
        return _fin("mul", (a, a), L, max(ps), 2 * a.g, a.cv * a.cv)
    ps = [a.L * b.L, a.L * b.H, a.H * b.L, a.H * b.H]
    if a.id > b.id:
        a, b = b, a
    return _fin("mul", (a, b), min(ps), max(ps), a.g + b.g, a.cv * b.cv)


def absv(a):
    if is_fp(a):
        return _f64("fabs", a)
    a = num(a)
    if not isinstance(a, Node):
        return abs(a)
    if a.L >= 0:
        return a
    if a.H <= 0:
        return neg(a)
    return _fin("abs", (a,), 0, max(-a.L, a.H), a.g, abs(a.cv))


def minv(a, b):
    if is_fp(a) or is_fp(b):
        return fite(lt(b, a), b, a)
    a, b = num(a), num(b)
    if _both(a, b):
        return min(a, b)
    if a is b:
        return a
    La, Ha, Lb, Hb, g = _al(a, b)
    if Ha <= Lb:
        return a
    if Hb <= La:
        return b
    return _fin("min", (a, b), min(La, Lb), min(Ha, Hb), g, min(cvof(a), cvof(b)))


def maxv(a, b):
    if is_fp(a) or is_fp(b):
        return fite(lt(a, b), b, a)
    a, b = num(a), num(b)
    if _both(a, b):
        return max(a, b)
    if a is b:
        return a
    La, Ha, Lb, Hb, g = _al(a, b)
    if La >= Hb:
        return a
    if Lb >= Ha:
        return b
    return _fin("max", (a, b), max(La, Lb), max(Ha, Hb), g, max(cvof(a), cvof(b)))


def clampv(x, a, b):
    return minv(maxv(x, a), b)


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if is_bool(a) and is_bool(b):
        if isinstance(a, bool) and isinstance(b, bool):
            if a == b:
                return a
            return c if a else Not(c)
        return Or(And(c, a), And(Not(c), b))
    if is_fp(a) or is_fp(b):
        return fite(c, a, b)
    a, b = num(a), num(b)
    if a is b or (_both(a, b) and a == b):
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if _both(a, b):
        if a == 1 and b == 0:
            return b2i(c)
        if a == 0 and b == 1:
            return b2i(Not(c))
    if isinstance(a, Node) and a.op == "b2i" and (not isinstance(b, Node)) and b == 0:
        return b2i(And(c, a.args[0]))
    if isinstance(a, Node) and isinstance(b, Node) and a.op == "b2i" and b.op == "b2i":
        return b2i(ite(c, a.args[0], b.args[0]))
    La, Ha, Lb, Hb, g = _al(a, b)
    return _fin("ite", (c, a, b), min(La, Lb), max(Ha, Hb), g, cvof(a) if c.cv else cvof(b))


def lt(a, b):
    if is_fp(a) or is_fp(b):
        return fcmp("flt", a, b)
    a, b = num(a), num(b)
    if _both(a, b):
        return a < b
    if a is b:
        return False
    La, Ha, Lb, Hb, g = _al(a, b)
    if Ha < Lb:
        return True
    if La >= Hb:
        return False
    r = _split(a, b, lt)
    if r is not None:
        return r
    return _cmp("lt", a, b, cvof(a) < cvof(b))


def le(a, b):
    if is_fp(a) or is_fp(b):
        return fcmp("fle", a, b)
    return Not(lt(b, a))


def _split(a, b, f):
    """push a comparison with a constant through b2i / ite-of-constants"""
    if isinstance(a, Node) and not isinstance(b, Node):
        n, c, sw = a, b, False
    elif isinstance(b, Node) and not isinstance(a, Node):
        n, c, sw = b, a, True
    else:
        return None
    if n.op == "b2i":
        t = f(c, 1) if sw else f(1, c)
        e = f(c, 0) if sw else f(0, c)
        return ite(n.args[0], t, e)
    if n.op == "ite" and not isinstance(n.args[1], Node) and not isinstance(n.args[2], Node):
        t = f(c, n.args[1]) if sw else f(n.args[1], c)
        e = f(c, n.args[2]) if sw else f(n.args[2], c)
        return ite(n.args[0], t, e)
    return None


def eq(a, b):
    if is_fp(a) or is_fp(b):
        return fcmp("feq", a, b)
    if is_bool(a) and is_bool(b):
        return Iff(a, b)
    a, b = num(a), num(b)
    if _both(a, b):
        return a == b
    if a is b:
        return True
    La, Ha, Lb, Hb, g = _al(a, b)
    if Ha < Lb or Hb < La:
        return False
    if isinstance(a, Node) and isinstance(b, Node) and a.op == "b2i" and b.op == "b2i":
        return Iff(a.args[0], b.args[0])
    if not isinstance(b, Node):
        # off grid constant
        V = Fraction(b) * (Fraction(2) ** a.g)
        if V.denominator != 1:
            return False
    if not isinstance(a, Node):
        V = Fraction(a) * (Fraction(2) ** b.g)
        if V.denominator != 1:
            return False
    r = _split(a, b, eq)
    if r is not None:
        return r
    if isinstance(a, Node) and isinstance(b, Node) and a.id > b.id:
        a, b = b, a
    return _cmp("eq", a, b, cvof(a) == cvof(b))


def _cmp(op, a, b, cv):
    """comparisons that differ by the same polynomial are one node"""
    d = _padd(poly(a), poly(b), -1)
    if len(d) == 0 or len(d) == 1 and _E in d:
        v = d.get(_E, 0)
        return v == 0 if op == "eq" else v < 0
    if len(d) > CAPN:
        return mk(op, (a, b), "b", cv=cv)
    k = (op, frozenset(d.items()))
    o = _gvn.get(k)
    if o is None:
        if op == "eq":
            o = _gvn.get((op, frozenset((m, -v) for m, v in d.items())))
        if o is None:
            o = mk(op, (a, b), "b", cv=cv)
        _gvn[k] = o
    return o


def ne(a, b):
    return Not(eq(a, b))


def floorv(a):
    a = num(a)
    if not isinstance(a, Node):
        return math.floor(a)
    if a.g <= 0:
        return a
    return _fin("floor", (a,), a.L >> a.g, a.H >> a.g, 0, math.floor(a.cv))


def ceilv(a):
    return neg(floorv(neg(a)))


def truncv(a):
    a = num(a)
    if not isinstance(a, Node):
        return math.trunc(a)
    if a.g <= 0:
        return a
    if a.L >= 0:
        return floorv(a)
    if a.H <= 0:
        return ceilv(a)
    return ite(lt(a, 0), ceilv(a), floorv(a))


def _rhe(V, g):
    f = Fraction(V, 1 << g)
    return round(f)


def roundv(a):
    """round half to even, to an integer"""
    a = num(a)
    if not isinstance(a, Node):
        return round(a)
    if a.g <= 0:
        return a
    return _fin("round", (a,), _rhe(a.L, a.g), _rhe(a.H, a.g), 0, round(Fraction(a.cv)))


def modc(a, m):
    """python modulo of an integer valued number by a positive constant integer"""
    a = num(a)
    if not isinstance(a, Node):
        return norm(Fraction(a) % m)
    if a.g > 0:
        return sub(a, mul(fdivc(a, m), m))
    lo_, hi_ = lo(a), hi(a)
    if m <= 0:
        raise Unsupported("modulo by non positive")
    if lo_ // m == hi_ // m:
        return sub(a, (lo_ // m) * m)
    return _fin("mod", (a, m), 0, m - 1, 0, a.cv % m)


def fdivc(a, m):
    """floor(a / m), m positive constant integer"""
    a = num(a)
    if not isinstance(a, Node):
        return math.floor(Fraction(a) / m)
    if m & (m - 1) == 0:
        return floorv(mul(a, Fraction(1, m)))
    a = floorv(a)
    if not isinstance(a, Node):
        return a // m
    return _fin("fdiv", (a, m), lo(a) // m, hi(a) // m, 0, a.cv // m)


def bitop(op, a, b, bits=64):
    """two's complement and/or/xor on integers"""
    a, b = num(a), num(b)
    if _both(a, b):
        return {"and": a & b, "or": a | b, "xor": a ^ b}[op]

    def bit(x):
        return (isinstance(x, Node) and x.op == "b2i") or (not isinstance(x, Node) and x in (0, 1))

    def tb(x):
        return x.args[0] if isinstance(x, Node) else bool(x)

    def bit01(x):
        return lo(x) >= 0 and hi(x) <= 1

    if bit01(a) and bit01(b):
        ta = tb(a) if bit(a) else eq(a, 1)
        tbb = tb(b) if bit(b) else eq(b, 1)
        return b2i({"and": And, "or": Or, "xor": Xor}[op](ta, tbb))
    la, ha, lb, hb = lo(a), hi(a), lo(b), hi(b)
    if op == "and" and (bit01(a) or bit01(b)):
        x, y = (a, b) if bit01(a) else (b, a)
        odd = eq(modc(y, 2), 1)
        return b2i(And(eq(x, 1), odd))
    n = max(int(abs(v)).bit_length() for v in (la, ha, lb, hb))
    if la >= 0 and lb >= 0:
        L, H = 0, (1 << n) - 1
        if op == "and":
            H = min(ha, hb)
    else:
        L, H = -(1 << n), (1 << n) - 1
    A, B = cvof(a), cvof(b)
    cv = {"and": A & B, "or": A | B, "xor": A ^ B}[op]
    return _fin("bit" + op, (a, b), L, H, 0, cv)


def wrap(a, bits, signed):
    """reduce an integer into the range of a machine integer"""
    lo_, hi_ = (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)
    if lo(a) >= lo_ and hi(a) <= hi_:
        return a
    if signed:
        return sub(modc(add(a, 1 << (bits - 1)), 1 << bits), 1 << (bits - 1))
    return modc(a, 1 << bits)


CAP = 4096


def dom(a, cap=CAP):
    """sorted tuple of every value a can take (a superset), or None when too many"""
    if not isinstance(a, Node):
        if isinstance(a, FC):
            return None
        return (num(a),)
    if a.kind == "b":
        return (0, 1)
    if a.kind != "n":
        return None
    if a._dom is None:
        a._dom = _dom(a, cap) or ()
    return a._dom or None


def _dom(a, cap):
    op = a.op
    n_grid = a.H - a.L + 1
    if op == "tab":
        return tuple(sorted(set(a.extra.values())))
    if op in ("nvar",) or n_grid <= 64 and op not in ("add", "sub", "mul", "min", "max", "mulc", "rsub", "ite", "abs"):
        if n_grid <= cap:
            return tuple(val(v, a.g) for v in range(a.L, a.H + 1))
        return None
    r = None
    if op == "b2i":
        return (0, 1)
    if op in ("add", "sub", "mul", "min", "max", "mulc", "rsub"):
        A, B = dom(a.args[0], cap), dom(a.args[1], cap)
        if A and B and len(A) * len(B) <= 65536:
            f = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y,
                 "mulc": lambda x, y: x * y, "rsub": lambda x, y: y - x, "min": min, "max": max}[op]
            r = {norm(f(x, y)) for x in A for y in B}
    elif op == "ite":
        A, B = dom(a.args[1], cap), dom(a.args[2], cap)
        if A and B:
            r = set(A) | set(B)
    elif op in ("floor", "round", "abs"):
        A = dom(a.args[0], cap)
        if A:
            f = {"floor": math.floor, "round": round, "abs": abs}[op]
            r = {norm(f(x)) for x in A}
    if r is not None:
        l_, h_ = lo(a), hi(a)
        r = {x for x in r if l_ <= x <= h_}
        if len(r) <= cap and len(r) <= n_grid:
            return tuple(sorted(r))
    if n_grid <= cap:
        return tuple(val(v, a.g) for v in range(a.L, a.H + 1))
    return None


def tab(a, mapping):
    """value of a finite map at a; mapping: value -> constant (number or bool)"""
    a = num(a)
    if not isinstance(a, Node):
        return mapping[a]
    vals = list(mapping.values())
    if any(isinstance(v, FC) for v in vals):
        if all(isinstance(v, FC) for v in vals) and len({repr(v.v) for v in vals}) == 1:
            return vals[0]
        raise Unsupported("table with non finite entries")
    if all(v == vals[0] and type(v) is type(vals[0]) for v in vals):
        return vals[0]
    if all(isinstance(v, bool) for v in vals):
        t = Or(*[eq(a, k) for k, v in mapping.items() if v])
        return t
    vals = [num(v) for v in vals]
    m = {k: num(v) for k, v in mapping.items()}
    if all(m[k] == k for k in m):
        return a
    if a.op == "b2i":
        return ite(a.args[0], m[1], m[0]) if 0 in m and 1 in m else vals[0]
    g = max(sc(v)[1] if v != 0 else -10 ** 9 for v in vals)
    S = [int(Fraction(v) * Fraction(2) ** g) for v in vals]
    cv = m[a.cv]
    return _fin("tab", (a,), min(S), max(S), g, cv, extra=m, key=tuple(sorted(m.items())))


# ---------------------------------------------------------------- floats
NPT = {"f32": np.float32, "f64": np.float64}


def fvar(name, cv, fmt="f32", lo_=None, hi_=None):
    n = mk("fvar", (), "f", cv=float(cv), fmt=fmt, key=name, extra=name)
    n.L, n.H = lo_, hi_
    return n


def _ff(a):
    """constant/exact-node/float-node concrete value as python float"""
    c = cvof(a)
    if isinstance(c, FC):
        return c.v
    return float(c)


def fmt_of(*xs):
    for x in xs:
        if isinstance(x, Node) and x.kind == "f":
            return x.fmt
    return "f32"


ONE = 128       # largest domain of a variable over which float results are tabulated


def root(a):
    """the only variable a depends on, None for a constant, False for several or an unsuitable one"""
    if not isinstance(a, Node):
        return None
    r = a._root
    if r != 0:
        return r
    if a.op in ("nvar", "bvar"):
        r = a if a.op == "bvar" or a.H - a.L < ONE else False
    elif a.op in EVAL:
        r = None
        for x in a.args:
            y = root(x)
            if y is False or (y is not None and r is not None and y is not r):
                r = False
                break
            r = y if r is None else r
        if r is None:
            r = False
    else:
        r = False
    a._root = r
    return r


EVAL = {"not": lambda x: not x, "and": lambda *x: all(x), "xor": lambda x, y: bool(x) != bool(y), "lt": lambda x, y: x < y, "eq": lambda x, y: x == y, "b2i": int,
        "add": lambda x, y: x + y, "sub": lambda x, y: x - y, "rsub": lambda x, y: y - x, "mul": lambda x, y: x * y, "mulc": lambda x, y: x * y, "abs": abs, "min": min, "max": max,
        "ite": lambda c, x, y: x if c else y, "floor": math.floor, "round": round, "tab": None}


def evaluate(a, var, v, memo):
    """the value of a where its only variable takes v"""
    if not isinstance(a, Node):
        return a
    if a is var:
        return v
    r = memo.get(a.id)
    if r is None:
        xs = [evaluate(x, var, v, memo) for x in a.args]
        r = memo[a.id] = norm(a.extra[num(xs[0])] if a.op == "tab" else EVAL[a.op](*xs))
    return r


def tabulated(op, args, fmt):
    """the float operation as a table over the only variable it depends on"""
    var = None
    for a in args:
        if isinstance(a, FC) or (isinstance(a, Node) and a.kind == "f"):
            return None
        r = root(a)
        if r is False or (r is not None and var is not None and r is not var):
            return None
        var = r if var is None else var
    if var is None:
        return None
    m = {}
    for v in ((False, True) if var.op == "bvar" else [val(V, var.g) for V in range(var.L, var.H + 1)]):
        memo = {}
        q = fop(op, *[evaluate(a, var, v, memo) for a in args], fmt=fmt)
        if isinstance(q, FC) or (q != 0 and not 2.0 ** -60 < abs(q) < 2.0 ** 60):
            return None
        m[num(v)] = q
    return tab(var, m)


def fop(op, *args, fmt=None):
    fmt = fmt or fmt_of(*args)
    args = tuple(num(a) for a in args)
    if any(isinstance(a, Node) for a in args):
        r = tabulated(op, args, fmt)
        if r is not None:
            return r
    t = NPT[fmt]
    xs = [t(_ff(a)) for a in args]
    with np.errstate(all="ignore"):
        if op == "fadd": r = xs[0] + xs[1]
        elif op == "fsub": r = xs[0] - xs[1]
        elif op == "fmul": r = xs[0] * xs[1]
        elif op == "fdiv": r = xs[0] / xs[1]
        elif op == "fneg": r = -xs[0]
        elif op == "fabs": r = abs(xs[0])
        elif op == "fround": r = np.round(xs[0])
        elif op == "ffloor": r = np.floor(xs[0])
        elif op == "fceil": r = np.ceil(xs[0])
        elif op == "ftrunc": r = np.trunc(xs[0])
        elif op == "fcast": r = t(_ff(args[0]))
        elif op == "fsqrt": r = np.sqrt(xs[0])
        else: raise Unsupported(op)
    if all(not isinstance(a, Node) for a in args):
        return norm(float(r))
    if op == "fadd" and isinstance(args[0], Node) and isinstance(args[1], Node) and all(a.op in ("fite", "ite") for a in args) and args[0].args[0] is args[1].args[0]:
        # complementary alternatives (the sign of a zero is not tracked)
        a, b = args
        for i in (1, 2):
            if not isinstance(a.args[i], Node) and a.args[i] == 0 and not isinstance(b.args[3 - i], Node) and b.args[3 - i] == 0:
                return ite(a.args[0], b.args[1], a.args[2]) if i == 1 else ite(a.args[0], a.args[1], b.args[2])
    return mk(op, args, "f", cv=float(r), fmt=fmt, key=fmt)


def fcmp(op, a, b):
    a, b = num(a), num(b)
    x, y = _ff(a), _ff(b)
    r = {"flt": x < y, "fle": x <= y, "feq": x == y}[op]
    if not isinstance(a, Node) and not isinstance(b, Node):
        return r
    return mk(op, (a, b), "b", cv=bool(r), key=fmt_of(a, b))


def fite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    a, b = num(a), num(b)
    if a is b:
        return a
    if c.op == "not":
        return fite(c.args[0], b, a)
    fmt = fmt_of(a, b)
    return mk("fite", (c, a, b), "f", cv=_ff(a) if c.cv else _ff(b), fmt=fmt)


def fisnan(a):
    if isinstance(a, FC):
        return a.v != a.v
    if not is_fp(a):
        return False
    return mk("fisnan", (a,), "b", cv=a.cv != a.cv)


def f2n(a, lo_, hi_):
    """integral float node -> exact integer; valid under lo_ <= a <= hi_ (checked by the caller)"""
    if not isinstance(a, Node):
        return a
    return _fin("f2n", (a,), lo_, hi_, 0, int(a.cv) if a.cv == a.cv and abs(a.cv) < 1e30 else 0)


def Sum(xs):
    r = 0
    for x in xs:
        r = add(r, x)
    return r
