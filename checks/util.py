"""Shared by the scenarios: shorthands and independent reference semantics."""
from fractions import Fraction
import math
import numpy as np
import torch
from symtorch import ir
from symtorch.ir import And, Or, Not, Xor, Iff, Implies, ite, eq, ne, lt, le, minv, maxv, clampv, absv, floorv, ceilv, truncv, roundv, modc, fdivc, Sum, b2i

F32, F64, F16, BF16, I8 = torch.float32, torch.float64, torch.float16, torch.bfloat16, torch.int8
DT = {"f32": torch.float32, "f64": torch.float64, "f16": torch.float16, "bf16": torch.bfloat16, "i8": torch.int8, "u8": torch.uint8, "i16": torch.int16, "i32": torch.int32, "i64": torch.int64}


def ge(a, b): return le(b, a)
def gt(a, b): return lt(b, a)


def isbit(x):
    return Or(eq(x, 0), eq(x, 1))


def allof(xs):
    return And(*list(xs))


def same(A, B):
    A, B = np.asarray(A, dtype=object), np.asarray(B, dtype=object)
    if A.shape != B.shape:
        return False
    return And(*[eq(x, y) for x, y in zip(A.ravel(), B.ravel())])


def arr(shape, f):
    """object array built lane by lane"""
    a = np.empty(tuple(shape), dtype=object)
    for i in np.ndindex(*shape):
        a[i] = f(i)
    return a


def vmap(f, *As):
    As = np.broadcast_arrays(*[np.asarray(a, dtype=object) for a in As])
    return arr(As[0].shape, lambda i: f(*[a[i] for a in As]))


def eqv(x, c):
    """x == c as a boolean usable in ite"""
    return eq(x, c)


def bitv(b):
    return b2i(b)


def bitstream(ctx, name, T, shape, k, dtype=F32, where=None, style=None):
    """T steps of input bits, k of them symbolic: the last ones, or spread over the whole history.
    The others are a concrete history (random, all ones, all zeros, alternating) drawn from the seed;
    "ones:n" stands for n ones followed by zeros, "zeros:n" the other way round."""
    s_ = ctx.pick(["random", "random", "ones", "zeros", "alt"])
    style = style or s_
    p = ctx.rng.random()
    w_ = ctx.pick(["tail", "spread"])
    where = where or w_
    if where == "tail" or T <= k:
        sy = set(range(max(0, T - k), T))
    else:
        sy = set(ctx.rng.sample(range(T), k - k // 2)) | set(range(T - k // 2, T))
    n = int(np.prod(shape)) if len(shape) else 1
    fixed = {}
    for t in range(T):
        if t not in sy:
            kind, _, turn = style.partition(":")
            if turn and t >= int(turn):
                kind = "zeros" if kind == "ones" else "ones"
            fixed[t] = {"ones": [1] * n, "zeros": [0] * n, "alt": [t % 2] * n}.get(kind) or [int(ctx.rng.random() < p) for _ in range(n)]
    # the concrete history is drawn first, so that it does not depend on how many inputs are given
    for t in range(T):
        if t in sy:
            yield t, ctx.bits(f"{name}{t}", shape, dtype)
        else:
            yield t, torch.tensor(fixed[t]).to(dtype).reshape(tuple(shape))


def late(f, n=3, T=320, k=2, **kw):
    """the configurations of f and, for n of them drawn from the seed, one whose symbolic steps come after T others"""
    def g(tier, rng):
        out = f(tier, rng)
        return out + [{**c, "k": min(k, c["k"]), "T": T + 7 * j, **({"it": "i8"} if "it" in c and j == 0 else {}), **kw} for j, c in enumerate(rng.sample(out, min(n if tier == "quick" else 3 * n, len(out))))]
    return g


def deep(f, depths, turn, back=None, styles=("ones", "zeros"), key="d", **kw):
    """configurations of f with large registers: turn(depth) steps of one kind bring the register to its limit,
    back(depth) steps of the other kind bring it back; the last steps are symbolic"""
    def g(tier, rng):
        out = f(tier, rng)
        base = [c for c in out if c.get("bt", "f32") == "f32" and len(c["shape"]) == 1 and c["shape"][0] < 3]
        return out + [{**rng.choice(base), key: d, "k": 3, "T": turn(d) + (back(d) if back else 0), "style": f"{s}:{turn(d)}", "where": "tail", **kw} for d in depths for s in styles]
    return g


def meta(ctx, name, t, shape, dtype):
    """shape and dtype of an output (concrete facts)"""
    ctx.isvalue(t)
    ctx.check(f"{name} shape", tuple(t.shape) == tuple(shape))
    ctx.check(f"{name} dtype", t.dtype == dtype)


# ---------------------------------------------------------------- reference sequences
def vdc_gray(w):
    """first dimension of the Sobol sequence, scaled to integers"""
    out = []
    for t in range(2 ** w):
        g = t ^ (t >> 1)
        out.append(int(format(g, f"0{w}b")[::-1], 2) if w else 0)
    return out


def sobol_int(w, dim):
    """Sobol dimension as drawn by torch, taken one dimension at a time from an independent engine"""
    e = torch.quasirandom.SobolEngine(dim)
    x = e.draw(2 ** w)[:, dim - 1]
    return [int(v * 2 ** w) for v in x.double().tolist()]


def rng_ref(kind, w, dim):
    kind = kind.lower()
    if kind in ("sobol", "rc"):
        return vdc_gray(w) if dim == 1 else sobol_int(w, dim)
    if kind in ("race", "tc"):
        return list(range(2 ** w))
    if kind in ("race10", "tc10"):
        return list(range(2 ** w))[::-1]
    raise ValueError(kind)


def qbin(x, w, mode):
    """the integer a source value is quantised to"""
    y = x if mode == "unipolar" else (x + 1) * Fraction(1, 2)
    return roundv(y * (2 ** w))


def select(idx, table):
    """table[idx] for a symbolic index"""
    r = table[-1]
    for i in range(len(table) - 2, -1, -1):
        r = ite(eq(idx, i), table[i], r)
    return r


# ---------------------------------------------------------------- reference machines, one lane each
class RAdd:
    def __init__(s, mode, entry, scale, depth):
        s.off = Fraction(0) if mode == "unipolar" else (Fraction(entry) - Fraction(scale)) * Fraction(1, 2)
        s.off, s.scale, s.cap, s.acc = ir.norm(s.off), ir.norm(Fraction(scale)), Fraction(2) ** (depth - 2), 0
        s.cap = ir.norm(s.cap)
        s.sat = False

    def step(s, total):
        a = s.acc + total - s.off
        s.sat = Or(s.sat, gt(a, s.cap), lt(a, -s.cap))
        a = clampv(a, -s.cap, s.cap)
        o = b2i(ge(a, s.scale))
        s.acc = clampv(a - o * s.scale, -s.cap, s.cap)
        return o


class RSync:
    def __init__(s, depth):
        s.top, s.cnt = 2 ** depth - 1, 0

    def step(s, a, b):
        up, dn = And(eq(a, 1), eq(b, 0)), And(eq(a, 0), eq(b, 1))
        o = ite(up, b2i(eq(s.cnt, s.top)), ite(dn, b2i(gt(s.cnt, 0)), a))
        s.cnt = ite(And(up, lt(s.cnt, s.top)), s.cnt + 1, ite(And(dn, gt(s.cnt, 0)), s.cnt - 1, s.cnt))
        return o, b


class RB2U:
    def __init__(s, depth):
        s.cap, s.acc = 2 ** (depth - 2), 0

    def step(s, x):
        a = clampv(s.acc + x * 2 - 1, -s.cap, s.cap)
        o = b2i(ge(a, 1))
        s.acc = a - o
        return o


class RU2B:
    def __init__(s, depth):
        s.cap, s.acc = 2 ** (depth - 2), 0

    def step(s, x):
        a = clampv(s.acc + x + 1, -s.cap, s.cap)
        o = b2i(ge(a, 2))
        s.acc = a - o * 2
        return o


class RSignAbs:
    def __init__(s, depth):
        s.top, s.half = 2 ** depth - 1, 2 ** (depth - 1)
        s.acc = s.half

    def step(s, x):
        s.acc = clampv(s.acc + x * 2 - 1, 0, s.top)
        g = b2i(lt(s.acc, s.half))
        return g, xor01(g, x)


class RShift:
    def __init__(s, n):
        s.q = [i % 2 for i in range(n)]

    def step(s, x, en=1, index=0):
        o, c = s.q[index], Sum(s.q)
        nq = s.q[1:] + [x]
        s.q = [ite(eq(en, 1), a, b) for a, b in zip(nq, s.q)] if not isinstance(en, int) else (nq if en else s.q)
        return o, c


class RCordiv:
    def __init__(s, n, seq):
        s.sr, s.seq, s.t, s.n = RShift(n), seq, 0, n

    def step(s, x, d):
        q = ite(eq(d, 1), x, s.sr.q[s.seq[s.t % s.n]])
        s.t += 1
        s.sr.step(q, d)
        return q


class RJK:
    def __init__(s):
        s.q = 0

    def step(s, j, k):
        s.q = ite(And(eq(j, 1), eq(k, 1)), 1 - s.q, ite(eq(j, 1), 1, ite(eq(k, 1), 0, s.q)))
        return s.q


def xor01(a, b):
    return b2i(ne(a, b))


def machines(shape, f):
    return arr(shape, lambda i: f())


def ulog2(n):
    return n.bit_length() - 1


def fdiv32(a, b):
    """the float32 quotient of two exact numbers"""
    a, b = ir.norm(a), ir.norm(b)
    if not isinstance(a, ir.Node) and not isinstance(b, ir.Node):
        return ir.norm(float(np.float32(float(a)) / np.float32(float(b))))
    from symtorch import mode
    return mode.t_div(a, b, F32)
