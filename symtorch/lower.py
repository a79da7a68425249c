"""Lowering of the DAG to z3: bit-vectors of exactly sufficient width ('bv', no wrap
is possible: the width comes from the interval), integers ('int'), IEEE floats for
the 'f' nodes."""
from fractions import Fraction
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import numpy as np
import z3
from . import ir

SORT = {"f32": z3.Float32(), "f64": z3.Float64()}
RNE = z3.RNE()
MODES = {"fround": z3.RNE(), "ffloor": z3.RTN(), "fceil": z3.RTP(), "ftrunc": z3.RTZ()}


def width(L, H):
    return max(L.bit_length() + 1 if L >= 0 else (-L - 1).bit_length() + 1, H.bit_length() + 1)


class Lower:
    def __init__(self, backend="bv"):
        self.bk = backend
        self.m = {}
        self.vars = {}      # name -> (z3 const, node)
        self.side = []      # range constraints on variables
        self.count = 0
        self.has_fp = False

    # -- helpers -------------------------------------------------------
    def const(self, V, w):
        return z3.IntVal(V) if self.bk == "int" else z3.BitVecVal(V, w)

    def at(self, x, g, w):
        """number x at grid g and width w"""
        if not isinstance(x, ir.Node):
            V = Fraction(x) * Fraction(2) ** g
            if V.denominator != 1:
                raise ir.Unsupported("grid")
            return self.const(int(V), w)
        t = self.m[x.id]
        if self.bk == "int":
            return t * (1 << (g - x.g)) if g > x.g else t
        t = self.ext(t, w)
        if g > x.g:
            t = t << (g - x.g)
        return t

    def ext(self, t, w):
        s = t.size()
        if s == w:
            return t
        if s > w:
            return z3.Extract(w - 1, 0, t)
        return z3.SignExt(w - s, t)

    def pair(self, a, b, extra=0):
        La, Ha, Lb, Hb, g = ir._al(a, b)
        w = max(width(La, Ha), width(Lb, Hb)) + extra
        return self.at(a, g, w), self.at(b, g, w), g, w

    def fp(self, x, fmt):
        s = SORT[fmt]
        self.has_fp = True
        if isinstance(x, ir.FC):
            if x.v != x.v:
                return z3.fpNaN(s)
            return z3.fpPlusInfinity(s) if x.v > 0 else z3.fpMinusInfinity(s)
        if not isinstance(x, ir.Node):
            return z3.FPVal(float(x), s)
        t = self.m[x.id]
        if x.kind == "f":
            if x.fmt != fmt:
                return z3.fpFPToFP(RNE, t, s)
            return t
        if self.bk == "int":
            raise ir.Unsupported("fp in int backend")
        r = z3.fpSignedToFP(RNE, t, s)
        if x.g:
            r = z3.fpMul(RNE, r, z3.FPVal(2.0 ** -x.g, s))
        return r

    def b(self, x):
        return z3.BoolVal(x) if isinstance(x, bool) else self.m[x.id]

    # -- driver --------------------------------------------------------
    def lower(self, root):
        if isinstance(root, bool):
            return z3.BoolVal(root)
        stack = [root]
        m = self.m
        while stack:
            n = stack[-1]
            if n.id in m:
                stack.pop()
                continue
            todo = [a for a in n.args if isinstance(a, ir.Node) and a.id not in m]
            if todo:
                stack.extend(todo)
                continue
            m[n.id] = self.one(n)
            self.count += 1
            stack.pop()
        return m[root.id]

    def one(self, n):
        op, a = n.op, n.args
        I = self.bk == "int"
        # booleans
        if op == "bvar":
            v = z3.Bool(n.extra)
            self.vars[n.extra] = (v, n)
            return v
        if op == "not":
            return z3.Not(self.b(a[0]))
        if op == "and":
            return z3.And(*[self.b(x) for x in a])
        if op == "xor":
            return z3.Xor(self.b(a[0]), self.b(a[1]))
        if op in ("lt", "eq"):
            x, y, g, w = self.pair(a[0], a[1])
            return x < y if op == "lt" else x == y
        if op in ("flt", "fle", "feq"):
            fmt = n_fmt(a)
            if any(isinstance(x, ir.Node) and x.kind == "n" and width(x.L, x.H) > 25 for x in a) or any(isinstance(x, (int, Fraction)) and float(x) != np.float32(float(x)) for x in a):
                fmt = "f64"
            if any(isinstance(x, ir.Node) and x.kind == "n" and width(x.L, x.H) > 54 for x in a):
                raise ir.Unsupported("comparison of a float with a wide number")
            x, y = self.fp(a[0], fmt), self.fp(a[1], fmt)
            return {"flt": z3.fpLT, "fle": z3.fpLEQ, "feq": z3.fpEQ}[op](x, y)
        if op == "fisnan":
            return z3.fpIsNaN(self.m[a[0].id])
        # floats
        if n.kind == "f":
            s = SORT[n.fmt]
            self.has_fp = True
            if op == "fvar":
                v = z3.FP(n.extra, s)
                self.vars[n.extra] = (v, n)
                self.side.append(z3.Not(z3.fpIsNaN(v)))
                self.side.append(z3.Not(z3.fpIsInf(v)))
                if n.L is not None:
                    self.side.append(z3.fpLEQ(z3.FPVal(float(n.L), s), v))
                if n.H is not None:
                    self.side.append(z3.fpLEQ(v, z3.FPVal(float(n.H), s)))
                return v
            if op == "fite":
                return z3.If(self.b(a[0]), self.fp(a[1], n.fmt), self.fp(a[2], n.fmt))
            xs = [self.fp(x, n.fmt) for x in a]
            if op == "fadd": return z3.fpAdd(RNE, *xs)
            if op == "fsub": return z3.fpSub(RNE, *xs)
            if op == "fmul": return z3.fpMul(RNE, *xs)
            if op == "fdiv": return z3.fpDiv(RNE, *xs)
            if op == "fsqrt": return z3.fpSqrt(RNE, *xs)
            if op == "fneg": return z3.fpNeg(*xs)
            if op == "fabs": return z3.fpAbs(*xs)
            if op == "fcast": return xs[0]
            if op in MODES: return z3.fpRoundToIntegral(MODES[op], xs[0])
            raise ir.Unsupported(op)
        # numbers
        w = width(n.L, n.H)
        if op == "nvar":
            if I:
                v = z3.Int(n.extra)
            else:
                v = z3.BitVec(n.extra, w)
            self.vars[n.extra] = (v, n)
            if I or n.L != -(1 << (w - 1)):
                self.side.append(v >= self.const(n.L, w))
            if I or n.H != (1 << (w - 1)) - 1:
                self.side.append(v <= self.const(n.H, w))
            return v
        if op == "b2i":
            return z3.If(self.b(a[0]), self.const(1, 2), self.const(0, 2))
        if op == "add":
            return self._trim(self.at(a[0], n.g, w) + self.at(a[1], n.g, w), w)
        if op == "sub":
            return self.at(a[0], n.g, w) - self.at(a[1], n.g, w)
        if op == "rsub":
            return self.at(a[1], n.g, w) - self.at(a[0], n.g, w)
        if op == "mulc":
            V, gc = ir.sc(a[1])
            x = self.m[a[0].id]
            if I:
                return x * V
            return self.ext(x, w) * self.const(V, w)
        if op == "mul":
            x, y = self.m[a[0].id], self.m[a[1].id]
            if I:
                return x * y
            return self.ext(x, w) * self.ext(y, w)
        if op == "abs":
            x = self.m[a[0].id]
            if I:
                return z3.If(x < 0, -x, x)
            x = self.ext(x, w)
            return z3.If(x < 0, -x, x)
        if op in ("min", "max"):
            x, y, g, w2 = self.pair(a[0], a[1])
            c = x <= y if op == "min" else x >= y
            r = z3.If(c, x, y)
            return r if I else self.ext(r, w)
        if op == "ite":
            g = n.g
            w2 = w
            return z3.If(self.b(a[0]), self.at(a[1], g, w2), self.at(a[2], g, w2))
        if op == "floor":
            x = self.m[a[0].id]
            if I:
                return x / (1 << a[0].g)
            return self.ext(x >> a[0].g, w)
        if op == "round":
            g = a[0].g
            x = self.m[a[0].id]
            if I:
                q = x / (1 << g)
                lsb = q % 2
                return (x + ((1 << (g - 1)) - 1) + lsb) / (1 << g)
            ww = x.size() + 1
            x = self.ext(x, ww)
            lsb = (x >> g) & 1
            r = (x + ((1 << (g - 1)) - 1) + lsb) >> g
            return self.ext(r, w)
        if op == "mod":
            mm = a[1]
            x = self.m[a[0].id]
            s = -min(a[0].g, 0)
            if I:
                return (x * (1 << s)) % mm
            ww = max(x.size() + s, width(0, mm)) + 1
            x = self.ext(x, ww) << s
            if mm & (mm - 1) == 0:
                return self.ext(x & (mm - 1), w)
            r = z3.SRem(x, self.const(mm, ww))
            r = z3.If(r < 0, r + mm, r)
            return self.ext(r, w)
        if op == "fdiv":
            mm = a[1]
            x = self.m[a[0].id]
            s = -min(a[0].g, 0)
            if I:
                return (x * (1 << s)) / mm
            ww = max(x.size() + s, width(0, mm)) + 1
            x = self.ext(x, ww) << s
            q = x / mm
            r = z3.SRem(x, self.const(mm, ww))
            q = z3.If(r < 0, q - 1, q)
            return self.ext(q, w)
        if op == "tab":
            x = a[0]
            items = sorted(n.extra.items())
            g = n.g
            # group equal results into ranges of keys
            runs = []
            for k, v in items:
                if runs and runs[-1][1] == v:
                    runs[-1][2] = k
                else:
                    runs.append([k, v, k])
            t = self.at(runs[-1][1], g, w)
            for k, v, kk in reversed(runs[:-1]):
                t = z3.If(self._le_const(x, kk), self.at(v, g, w), t)
            return t
        if op.startswith("bit"):
            if I:
                raise ir.Unsupported("bit operation in int backend")
            ww = w
            for q in a:
                if isinstance(q, ir.Node):
                    ww = max(ww, self.m[q.id].size() + max(-q.g, 0))
            x, y = self.at(a[0], 0, ww), self.at(a[1], 0, ww)
            r = {"bitand": x & y, "bitor": x | y, "bitxor": x ^ y}[op]
            return self.ext(r, w)
        if op == "f2n":
            if I:
                raise ir.Unsupported("f2n")
            return z3.fpToSBV(z3.RTZ(), self.m[a[0].id], z3.BitVecSort(w))
        raise ir.Unsupported(op)

    def _trim(self, t, w):
        return t

    def _le_const(self, x, k):
        V = Fraction(k) * Fraction(2) ** x.g
        t = self.m[x.id]
        V = V.numerator // V.denominator
        if self.bk == "int":
            return t <= V
        w = t.size()
        if V >= (1 << (w - 1)) - 1:
            return z3.BoolVal(True)
        if V < -(1 << (w - 1)):
            return z3.BoolVal(False)
        return t <= z3.BitVecVal(V, w)


def n_fmt(a):
    return ir.fmt_of(*a)


def model_value(model, v, node):
    x = model.eval(v, model_completion=True)
    if node.kind == "b":
        return bool(z3.is_true(x))
    if node.kind == "n":
        V = x.as_signed_long() if z3.is_bv_value(x) else x.as_long()
        return V          # scaled integer
    # float
    if z3.is_fp_value(x):
        import struct
        bv = z3.simplify(z3.fpToIEEEBV(x))
        n = bv.as_long()
        return struct.unpack(">f", n.to_bytes(4, "big"))[0] if node.fmt == "f32" else struct.unpack(">d", n.to_bytes(8, "big"))[0]
    raise ir.Unsupported("model value")
