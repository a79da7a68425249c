"""The SystemVerilog in /repo/hw against the Python simulators it is the hardware of.

Both sides are executed symbolically on the same inputs: the RTL by rtl/sv.py (elaborated from the current source, cycle by cycle, registers
unknown until reset), the simulator by the tensor engine."""
import os
from . import scenario
from .util import *
from symtorch.ctx import REPO
from rtl import sv

HW = os.path.join(REPO, "hw")


class Rtl:
    """a design after power-up (registers unknown) and reset"""
    def __init__(s, ctx, path, top=None, par=None, override=None, rst="rst_n", active=0):
        s.ctx, s.k = ctx, 0
        s.tag = os.path.splitext(os.path.basename(path))[0]
        top = top or s.tag
        # names of its own for every instance in a scenario
        n = ctx.rtl = getattr(ctx, "rtl", 0) + 1
        s.var = f"{s.tag}#{n}"
        s.ok = True
        try:
            s.sim = sv.Sim(os.path.join(HW, path), top, par, fresh=s.fresh, override=override)
        except sv.SVIllegal as e:
            # no tool accepts the source
            s.ok = False
            ctx.check(f"{s.tag} is legal: {e}", False)
            return
        for f in s.sim.files:
            sv.SEEN.add(os.path.relpath(os.path.realpath(f), REPO) + ":" + top)
        s.sim.power_up()
        # the inputs may be anything during reset
        s.sim.reset(rst, active=active, **{n: s.any(n) for n in s.sim.ins() if n not in ("clk", rst)})

    def fresh(s, n, w):
        s.k += 1
        return s.word(f"{s.var}.{n}.{s.k}", w)

    def word(s, n, w):
        if w == 1:
            return s.ctx.vals(s.ctx.bits(n, (1,), I8))[0]
        return s.ctx.vals(s.ctx.int_(n, 0, 2 ** w - 1))[0]

    def any(s, n):
        g = s.sim.top.sigs[n]
        return [s.word(f"{s.var}.rst.{n}.{i}", g.width) for i in range(g.count)] if g.udims else s.word(f"{s.var}.rst.{n}", g.width)

    def step(s, **k):
        s.ctx.nsteps += 1
        return s.sim.step(**k)


def bit(ctx, n, dt=F32):
    """one input bit, for the simulator and for the RTL"""
    t = ctx.bits(n, (1,), dt)
    return t, ctx.vals(t)[0]


def history(ctx, name, T, k, dt=F32):
    for t, x in bitstream(ctx, name, T, (1,), k, dt):
        yield t, x, ctx.vals(x)[0]


def balanced(ctx, name, T, k):
    """a history of value about 0, the last k steps arbitrary"""
    acc = 0
    for t in range(T):
        v = 1 if acc < 0 else ctx.rng.randint(0, 1)
        if t < T - k:
            acc = min(acc + 2 * v - 1, 0)
            yield t, torch.tensor([float(v)]), v
        else:
            yield (t, *bit(ctx, f"{name}{t}"))


def two_histories(ctx, T, k):
    return [(t, x, a, y, b) for (t, x, a), (_, y, b) in zip(history(ctx, "x", T, k), history(ctx, "y", T, k))]


# ------------------------------------------------------------------ H01 stream converters and the skewed synchroniser
def h01_cfgs(tier, rng):
    out = []
    for d in (2, 3, 4, 5, 6) if tier == "quick" else (2, 3, 4, 5, 6, 7, 8):
        out.append(dict(d=d, T=10 if tier == "quick" else 14, k=10 if tier == "quick" else 14))
        out.append(dict(d=d, T=40 if tier == "quick" else 120, k=8 if tier == "quick" else 12, i=1))
    return out


@scenario("H01", h01_cfgs)
def rtl_bi2uni(ctx, cfg):
    """the bit the simulator gives for step t leaves the register one cycle later, as long as the accumulated value is representable in both"""
    from UnarySim.stream import Bi2Uni
    d = cfg["d"]
    m = Bi2Uni({"depth": d}, {"stype": F32, "btype": F32})
    r = Rtl(ctx, "stream/shuffle/Bi2Uni.sv", par={"DEP": d})
    if not r.ok:
        return
    half, cap = 2 ** (d - 1), 2 ** (d - 2)
    acc, wide, same_, py, ex = 0, True, True, None, None
    for t, x, b in balanced(ctx, "x", cfg["T"], cfg["k"]):
        o = r.step(**{"in": b})["out"]
        if t == 0:
            ctx.check("zero after reset", eq(o, 0))
        else:
            ctx.check(f"exact@{t}", Or(Not(wide), eq(o, ex)))
            ctx.check(f"simulator@{t}", Or(Not(same_), eq(o, py)))
        if t == cfg["T"] - 1:
            ctx.cover("still in range", And(wide, same_))
        # the accumulator with unlimited range
        a = acc + b * 2 - 1
        wide = And(wide, ge(a, -half), le(a, half - 1))
        same_ = And(same_, ge(a, -cap), le(a, min(cap, half - 1)))
        ex = b2i(ge(a, 1))
        acc = a - ex
        py = ctx.vals(ctx.step(m, x))[0]


@scenario("H01", lambda tier, rng: [dict(T=T, k=k) for T, k in (((12, 12), (60, 10)) if tier == "quick" else ((16, 16), (200, 14)))])
def rtl_uni2bi(ctx, cfg):
    from UnarySim.stream import Uni2Bi
    m = Uni2Bi({"depth": 4}, {"stype": F32, "btype": F32})
    r = Rtl(ctx, "stream/shuffle/Uni2Bi.sv")
    if not r.ok:
        return
    py, ones, outs = None, 0, 0
    for t, x, b in history(ctx, "x", cfg["T"], cfg["k"]):
        o = r.step(**{"in": b})["out"]
        ctx.check(f"simulator@{t}", eq(o, 0 if t == 0 else py))
        outs = outs + o
        # value (1 + x) / 2 at any time: the ones so far are half of (steps + ones in), rounded down
        ctx.check(f"ones@{t}", eq(outs, fdivc(t + ones, 2)))
        ones = ones + b
        py = ctx.vals(ctx.step(m, x))[0]


@scenario("H01", h01_cfgs)
def rtl_skewedsync(ctx, cfg):
    from UnarySim.stream import SkewedSync
    d = cfg["d"] - 1
    m = SkewedSync({"depth": d}, {"stype": F32, "btype": F32})
    r = Rtl(ctx, "stream/shuffle/SkewedSync.sv", par={"DEP": d})
    if not r.ok:
        return
    k = cfg["k"] // 2 + 1
    ones = outs = 0
    for t, x, a, y, b in two_histories(ctx, cfg["T"], k):
        o = r.step(in0=a, in1=b)
        p, q = ctx.step(m, x, y)
        ctx.check(f"out0@{t}", eq(o["out0"], ctx.vals(p)[0]))
        ctx.check(f"out1@{t}", And(eq(o["out1"], b), eq(ctx.vals(q)[0], b)))
        ones, outs = ones + a, outs + o["out0"]
        ctx.check(f"never ahead@{t}", And(le(outs, ones), le(ones - outs, 2 ** d - 1)))


def wide_cfgs(tier, rng):
    return [dict(bw=w, d=d, T=T) for w, d in ((1, 2), (1, 3), (2, 2), (2, 4), (3, 3), (4, 6)) for T in ((7,) if tier == "quick" else (7, 12))]


@scenario("H01", wide_cfgs)
def rtl_skewedsyncint(ctx, cfg):
    """the integer synchroniser holds what is left over while in1 is 0 and releases all of it with the next 1; it saturates and never loses count below that"""
    d, bw = cfg["d"], cfg["bw"]
    r = Rtl(ctx, "stream/shuffle_int/SkewedSyncInt.sv", par={"DEP": d, "BWIN": bw, "BWOUT": d})
    if not r.ok:
        return
    cnt, top = 0, 2 ** d - 1
    for t in range(cfg["T"]):
        a = r.word(f"a{t}", bw)
        _, b = bit(ctx, f"b{t}")
        o = r.step(in0=a, in1=b)
        s = minv(cnt + a, top)
        want = s * b
        ctx.check(f"out0@{t}", eq(o["out0"], want))
        ctx.check(f"out1@{t}", eq(o["out1"], b))
        cnt = minv(cnt + a - want, top)


# ------------------------------------------------------------------ H02 sign, absolute value, JK flip-flop
@scenario("H02", h01_cfgs)
def rtl_sign_abs(ctx, cfg):
    """the sign of step t leaves the register one cycle later; abs is the input against that sign"""
    from UnarySim.kernel import FSUSignAbs
    d = cfg["d"]
    m = FSUSignAbs({"depth": d}, {"stype": F32, "btype": F32})
    A, S = Rtl(ctx, "kernel/abs/Abs.sv", par={"DEP": d}), Rtl(ctx, "kernel/sign/Sign.sv", par={"DEP": d})
    if not (A.ok and S.ok):
        return
    py = 0
    for t, x, b in history(ctx, "x", cfg["T"], cfg["k"]):
        a, s = A.step(value=b), S.step(value=b)
        ctx.check(f"sign@{t}", And(eq(a["sign"], py), eq(s["sign"], py)))
        ctx.check(f"abs@{t}", eq(a["abs"], xor01(b, py)))
        py = ctx.vals(ctx.step(m, x)[0])[0]


@scenario("H02", lambda tier, rng: [dict(T=8 if tier == "quick" else 14)])
def rtl_jkff(ctx, cfg):
    from UnarySim.kernel import JKFF
    m = JKFF({"stype": F32})
    r = Rtl(ctx, "kernel/jkff/JKFF.sv")
    if not r.ok:
        return
    py = 0
    for t in range(cfg["T"]):
        j, a = bit(ctx, f"j{t}")
        k, b = bit(ctx, f"k{t}")
        ctx.check(f"out@{t}", eq(r.step(J=a, K=b)["out"], py))
        py = ctx.vals(ctx.step(m, j, k))[0]


# ------------------------------------------------------------------ H03 division
class Delay:
    def __init__(s, init=0):
        s.v = init

    def step(s, x):
        o, s.v = s.v, x
        return o


class HCordiv:
    """the RTL kernel remembers every quotient, valid or not"""
    def __init__(s, n):
        s.q = [i % 2 for i in range(n)]

    def step(s, x, d, i):
        o = ite(eq(d, 1), x, select(i, s.q) if len(s.q) > 1 else s.q[0])
        s.q = s.q[1:] + [o]
        return o


class HB2U:
    """accumulator of the registered converter; ok while its value is representable"""
    def __init__(s, d):
        s.half, s.acc, s.ok, s.o = 2 ** (d - 1), 0, True, 0

    def peek(s):
        return s.o

    def step(s, x):
        a = s.acc + x * 2 - 1
        s.ok = And(s.ok, ge(a, -s.half), le(a, s.half - 1))
        s.o = b2i(ge(a, 1))
        s.acc = a - s.o


class HU2B:
    def __init__(s):
        s.acc, s.o = 0, 0

    def step(s, x):
        a = s.acc + x + 1
        s.o = b2i(ge(a, 2))
        s.acc = a - s.o * 2


def idx(r, n, t):
    """an arbitrary index into n registers, and what the RTL is given for it"""
    w = max(1, ulog2(n))
    return r.word(f"rand{t}", w) if n > 1 else 0


@scenario("H03", lambda tier, rng: [dict(n=n, T=T) for n in (1, 2, 4, 8) for T in ((6,) if tier == "quick" else (6, 10))])
def rtl_cordiv(ctx, cfg):
    from UnarySim.kernel import CORDIV_kernel
    n = cfg["n"]
    r = Rtl(ctx, "kernel/div/CORDIV_kernel.sv", par={"DEP": n, "DEPLOG": max(1, ulog2(n))})
    if not r.ok:
        return
    ref = HCordiv(n)
    for t in range(cfg["T"]):
        i = idx(r, n, t)
        _, a = bit(ctx, f"x{t}")
        _, b = bit(ctx, f"y{t}")
        o = r.step(randNum=i, dividend=a, divisor=b)["quotient"]
        ctx.check(f"quotient@{t}", eq(o, ref.step(a, b, i)))
        ctx.check(f"valid step@{t}", Or(eq(b, 0), eq(o, a)))


@scenario("H03", lambda tier, rng: [dict(T=8 if tier == "quick" else 14, i=i) for i in range(2)])
def rtl_iscbdiv_simulator(ctx, cfg):
    """with one register in the kernel the divider and the simulator are the same machine"""
    from UnarySim.kernel import FSUDiv
    d = 2 + cfg["i"]
    m = FSUDiv({"depth_sa": 3, "depth_ss": d, "entry_kn": 1, "mode": "unipolar", "rng": "Sobol", "dimr": 1}, {"stype": F32, "btype": F32})
    r = Rtl(ctx, "kernel/div/ISCBDIV_U.sv", par={"DEP_KERNEL": 1, "DEPLOG_KERNEL": 1, "DEP_SYNC": d})
    if not r.ok:
        return
    for t in range(cfg["T"]):
        x, a = bit(ctx, f"x{t}")
        y, b = bit(ctx, f"y{t}")
        ctx.check(f"quotient@{t}", eq(r.step(randNum=0, dividend=a, divisor=b)["quotient"], ctx.vals(ctx.step(m, x, y))[0]))


@scenario("H03", lambda tier, rng: [dict(n=n, d=d, T=6 if tier == "quick" else 9) for n in (1, 2, 4) for d in (1, 2, 3)])
def rtl_iscbdiv_u(ctx, cfg):
    n, d = cfg["n"], cfg["d"]
    r = Rtl(ctx, "kernel/div/ISCBDIV_U.sv", par={"DEP_KERNEL": n, "DEPLOG_KERNEL": max(1, ulog2(n)), "DEP_SYNC": d})
    if not r.ok:
        return
    sync, kern = RSync(d), HCordiv(n)
    for t in range(cfg["T"]):
        i = idx(r, n, t)
        _, a = bit(ctx, f"x{t}")
        _, b = bit(ctx, f"y{t}")
        o = r.step(randNum=i, dividend=a, divisor=b)["quotient"]
        p, q = sync.step(a, b)
        ctx.check(f"quotient@{t}", eq(o, kern.step(p, q, i)))


@scenario("H03", lambda tier, rng: [dict(n=n, d=d, a=a, T=6 if tier == "quick" else 8) for n, d, a in ((1, 2, 3), (2, 2, 3), (2, 1, 2), (4, 2, 4))])
def rtl_iscbdiv_b(ctx, cfg):
    """absolute values, unipolar division, sign of the result: the composition of the parts, in range of the converters"""
    n, d, da = cfg["n"], cfg["d"], cfg["a"]
    r = Rtl(ctx, "kernel/div/ISCBDIV_B.sv", par={"DEP_ABS": da, "DEP_KERNEL": n, "DEPLOG_KERNEL": max(1, ulog2(n)), "DEP_SYNC": d})
    if not r.ok:
        return
    S = [RSignAbs(da), RSignAbs(da)]
    g = [0, 0]
    B = [HB2U(3), HB2U(3)]
    sync, kern, U = RSync(d), HCordiv(n), HU2B()
    for t in range(cfg["T"]):
        i = idx(r, n, t)
        x = [bit(ctx, f"x{t}")[1], bit(ctx, f"y{t}")[1]]
        o = r.step(randNum=i, dividend=x[0], divisor=x[1])["quotient"]
        ok = And(B[0].ok, B[1].ok)
        p, q = sync.step(B[0].peek(), B[1].peek())
        z = kern.step(p, q, i)
        want = xor01(xor01(U.o, g[0]), g[1])
        ctx.check(f"quotient@{t}", Or(Not(ok), eq(o, want)))
        if t == cfg["T"] - 1:
            ctx.cover("in range", ok)
        U.step(z)
        for j in (0, 1):
            B[j].step(xor01(x[j], g[j]))
            g[j] = S[j].step(x[j])[0]


class HCnt:
    """the saturating counter of the feedback dividers and square roots"""
    def __init__(s, w):
        s.top, s.c = 2 ** w - 1, 2 ** (w - 1)

    def out(s, rnd):
        return b2i(gt(s.c, rnd))

    def step(s, inc, dec):
        s.c = clampv(s.c + inc - dec, 0, s.top)


def cnt_cfgs(tier, rng):
    return [dict(kind=k, w=w, T=5 if tier == "quick" else 8) for k in ("U", "B") for w in (2, 3, 5, 8)] + [dict(kind=k, w=2, T=8 if tier == "quick" else 11) for k in "UB"]


@scenario("H03", cnt_cfgs)
def rtl_gdiv(ctx, cfg):
    w, k = cfg["w"], cfg["kind"]
    r = Rtl(ctx, f"kernel/div/GDIV_{k}.sv", par={"DEP": w})
    if not r.ok:
        return
    c, prev = HCnt(w), 0
    for t in range(cfg["T"]):
        rnd = r.word(f"rand{t}", w)
        _, a = bit(ctx, f"x{t}")
        _, b = bit(ctx, f"y{t}")
        o = r.step(randNum=rnd, dividend=a, divisor=b)["quotient"]
        q = c.out(rnd)
        ctx.check(f"quotient@{t}", eq(o, q))
        if k == "U":
            c.step(a, b * q)
        else:
            # up when the dividend agrees with the divisor and the decorrelated product is negative, down in the opposite case
            agree = b2i(eq(a, b))
            prod = b2i(ne(b2i(eq(b, prev)), q))
            c.step(agree * prod, (1 - agree) * (1 - prod))
            prev = b


# ------------------------------------------------------------------ H04 square root
@scenario("H04", lambda tier, rng: [dict(T=10 if tier == "quick" else 16)])
def rtl_sqrt_jk_u(ctx, cfg):
    from UnarySim.kernel import FSUSqrt
    m = FSUSqrt({"mode": "unipolar", "jk_trace": True, "emit": False, "entry_kn": 1, "entry_sr": 2, "rng": "Sobol", "dimr": 1}, {"stype": F32, "btype": F32})
    r = Rtl(ctx, "kernel/sqrt/BISQRT_S_JK_U.sv")
    if not r.ok:
        return
    for t in range(cfg["T"]):
        x, a = bit(ctx, f"x{t}")
        ctx.check(f"out@{t}", eq(r.step(**{"in": a})["out"], ctx.vals(ctx.step(m, x))[0]))


@scenario("H04", lambda tier, rng: [dict(d=d, T=9 if tier == "quick" else 14) for d in (3, 4)])
def rtl_sqrt_jk_b(ctx, cfg):
    """the trace is the flip-flop over the converted output, the converter being registered"""
    d = cfg["d"]
    r = Rtl(ctx, "kernel/sqrt/BISQRT_S_JK_B.sv", par={"DEP": d})
    if not r.ok:
        return
    B, J = HB2U(d), RJK()
    for t in range(cfg["T"]):
        _, a = bit(ctx, f"x{t}")
        o = r.step(**{"in": a})["out"]
        want = b2i(Or(eq(a, 1), eq(J.q, 1)))
        ctx.check(f"out@{t}", Or(Not(B.ok), eq(o, want)))
        if t == cfg["T"] - 1:
            ctx.cover("in range", B.ok)
        J.step(B.peek(), 1)
        B.step(want)


@scenario("H04", lambda tier, rng: [dict(n=n, b=b, T=8 if tier == "quick" else 12) for n in (1, 2, 4) for b in (False, True)])
def rtl_sqrt_is(ctx, cfg):
    """the trace is out / (out + 1), divided in stream against a toggling flip-flop"""
    n, bi = cfg["n"], cfg["b"]
    r = Rtl(ctx, f"kernel/sqrt/BISQRT_S_IS_{'B' if bi else 'U'}.sv", par={"DEP": n, "DEPLOG": max(1, ulog2(n))})
    if not r.ok:
        return
    kern, dff, out, B = HCordiv(n), 0, 0, HB2U(3)
    for t in range(cfg["T"]):
        i = idx(r, n, t)
        _, a = bit(ctx, f"x{t}")
        o = r.step(randNum=i, **{"in": a})["out"]
        fb = B.peek() if bi else out
        dvd = fb if dff == 0 else 0
        q = kern.step(dvd, 1 if dff else dvd, i)
        nxt = b2i(Or(eq(a, 1), eq(q, 1)))
        ctx.check(f"out@{t}", Or(Not(B.ok), eq(o, nxt)) if bi else eq(o, out))
        if t == cfg["T"] - 1:
            ctx.cover("in range", B.ok)
        out, dff = nxt, 1 - dff
        B.step(nxt)


@scenario("H04", lambda tier, rng: [dict(n=n, d=d, T=9 if tier == "quick" else 14) for n in (2, 4, 8) for d in (4, 6)])
def rtl_sqrt_o_u(ctx, cfg):
    """the emitting square root is the simulator's, on the input one cycle later"""
    from UnarySim.kernel import FSUSqrt
    n, d = cfg["n"], cfg["d"]
    m = FSUSqrt({"mode": "unipolar", "jk_trace": False, "emit": True, "entry_kn": 1, "entry_sr": n, "rng": "Sobol", "dimr": 1}, {"stype": F32, "btype": F32})
    r = Rtl(ctx, "kernel/sqrt/BISQRT_O_U.sv", par={"DEP": d, "DEP_SR": n, "DEPLOG_SR": ulog2(n)})
    if not r.ok:
        return
    prev, acc, out, sr, ok = torch.zeros(1), 0, 0, RShift(n), True
    for t in range(cfg["T"]):
        x, a = bit(ctx, f"x{t}")
        o = r.step(randNum=0, **{"in": a})["out"]
        p = ctx.vals(ctx.step(m, prev))[0]
        ctx.check(f"out@{t}", Or(Not(ok), eq(o, p)))
        if t == cfg["T"] - 1:
            ctx.cover("in range", ok)
        prev = x
        # range of the RTL's accumulator
        emit = out * sr.q[0]
        sr.step(1 - out)
        acc = acc - out + a + emit
        ok = And(ok, le(acc, 2 ** (d - 1) - 1))
        out = b2i(ge(acc, 1))


@scenario("H04", lambda tier, rng: [dict(b=b, n=n, d=d, T=6 if tier == "quick" else 9) for b in (False, True) for n, d in ((2, 4), (4, 3), (4, 5), (8, 4))])
def rtl_sqrt_o(ctx, cfg):
    """an arbitrary register of the inverted output is emitted with the (converted) output and accumulated with the input"""
    n, d, bi = cfg["n"], cfg["d"], cfg["b"]
    r = Rtl(ctx, f"kernel/sqrt/BISQRT_O_{'B' if bi else 'U'}.sv", par={"DEP": d, "DEP_SR": n, "DEPLOG_SR": ulog2(n)})
    if not r.ok:
        return
    acc, out, sr, ok, B = 0, 0, [i % 2 for i in range(n)], True, HB2U(3)
    for t in range(cfg["T"]):
        i = idx(r, n, t)
        _, a = bit(ctx, f"x{t}")
        o = r.step(randNum=i, **{"in": a})["out"]
        ctx.check(f"out@{t}", Or(Not(And(ok, B.ok) if bi else ok), eq(o, out)))
        emit = (B.peek() if bi else out) * select(i, sr)
        sr = sr[1:] + [1 - out]
        B.step(out)
        acc = acc - out + a + emit
        ok = And(ok, le(acc, 2 ** (d - 1) - 1))
        out = b2i(ge(acc, 1))


@scenario("H04", cnt_cfgs)
def rtl_gsqrt(ctx, cfg):
    w, k = cfg["w"], cfg["kind"]
    r = Rtl(ctx, f"kernel/sqrt/GSQRT_{k}.sv", par={"DEP": w})
    if not r.ok:
        return
    c, prev = HCnt(w), 0
    for t in range(cfg["T"]):
        rnd = r.word(f"rand{t}", w)
        _, a = bit(ctx, f"x{t}")
        o = r.step(randNum=rnd, **{"in": a})["out"]
        q = c.out(rnd)
        ctx.check(f"out@{t}", eq(o, q))
        c.step(a, q * prev if k == "U" else b2i(eq(q, prev)))
        prev = q


# ------------------------------------------------------------------ H05 Sobol generators
def widths(w):
    """the width the source is configured for (one `define of SobolRNGDef.sv)"""
    import re
    return lambda s: re.sub(r'(?m)^[ \t]*`define[ \t]+INWD\d+[ \t]*$', f"`define INWD{w}", s)


def sobol_cfgs(tier, rng):
    out = []
    for w in range(3, 11):
        out.append(dict(f="stream/old/SobolRNG/SobolRNGDim1.sv", top="SobolRNGDim1", w=w))
        out.append(dict(f=f"stream/old/SobolRNGs/SobolRNGDim1_{w}b.sv", top=f"SobolRNGDim1_{w}b", w=w))
    for k in ("uMUL_uni", "uMUL_bi", "gMUL_uni", "gMUL_bi", "tMUL_uni", "tMUL_bi", "dMUL_uni", "dMUL_bi", "muxADD", "apcADD", "dADD"):
        out.append(dict(f=f"kernel/old/{k}/SobolRNGDim1.sv", top="SobolRNGDim1", w=rng.choice([3, 4, 5, 6])))
    return out


@scenario("H05", sobol_cfgs)
def rtl_sobol(ctx, cfg):
    """after k enabled cycles the register shows draw k of the simulator's Sobol sequence, whatever the enables; every later period is a permutation too"""
    from UnarySim.stream import RNG
    w = cfg["w"]
    n = 2 ** w
    r = Rtl(ctx, cfg["f"], cfg["top"], override=widths(w))
    if not r.ok:
        return
    seq = [int(v) for v in RNG({"width": w, "dimr": 1, "rng": "Sobol"}, {"rtype": F32})().tolist()]
    b = r.word("b", w)
    # arbitrary enables for the first cycles, then a run over more than a period
    k, K = 0, 6
    for t in range(K):
        e = bit(ctx, f"e{t}")[1]
        o = r.step(enable=e)["sobolSeq"]
        ctx.check(f"draw@{t}", eq(o, select(k, seq[:K + 1])))
        k = k + e
    r = Rtl(ctx, cfg["f"], cfg["top"], override=widths(w))
    got = []
    for t in range(2 * n):
        got.append(r.step(enable=1)["sobolSeq"])
    for t in range(n):
        ctx.check(f"sequence@{t}", eq(got[t], seq[t]))
    if w <= 6:
        for p in (0, n):
            ctx.check(f"count@{p}", eq(Sum([b2i(gt(b, x)) for x in got[p:p + n]]), b))


# ------------------------------------------------------------------ H06 arithmetic
def mul_cfgs(tier, rng):
    out = []
    for k in ("uni", "bi"):
        for w in (3, 4, 5):
            out.append(dict(k=k, w=w, f=f"kernel/old/uMUL_{k}/uMUL_{k}.sv", T=6 if tier == "quick" else 10))
    out.append(dict(k="uni", w=8, f="kernel/old/uMUL_uni/uMUL_uni.sv", T=5))
    out.append(dict(k="bi", w=8, f="kernel/old/uMUL_bi/uMUL_bi.sv", T=5))
    return out


@scenario("H06", mul_cfgs)
def rtl_umul(ctx, cfg):
    """the conditional-generation multiplier is FSUMul with a static operand"""
    from UnarySim.kernel import FSUMul
    w, k = cfg["w"], cfg["k"]
    n = 2 ** w
    r = Rtl(ctx, cfg["f"], override=widths(w))
    if not r.ok:
        return
    g = ctx.grid("B", (1,), 0, n - 1, w) if k == "uni" else ctx.grid("B", (1,), -n // 2, n // 2 - 1, w - 1)
    v = ctx.vals(g)[0]
    B = v * n if k == "uni" else (v + 1) * (n // 2)
    mode = "unipolar" if k == "uni" else "bipolar"
    m = FSUMul(in_1_prob=g, hwcfg={"width": w, "mode": mode, "static": True, "rng": "Sobol", "dimr": 1}, swcfg={"rtype": F32, "stype": F32})
    if k == "bi":
        # its generator advances with zeros: load under a one, and restart both afterwards
        pass
    # the operand is loaded in a cycle whose product bit is not used
    o = r.step(iA=1 if k == "uni" else 1, iB=B, loadB=1)["oC"]
    first = ctx.step(m, torch.ones(1))
    for t in range(cfg["T"]):
        x, a = bit(ctx, f"x{t}")
        o = r.step(iA=a, iB=r.word(f"iB{t}", w), loadB=0)["oC"]
        ctx.check(f"product@{t}", eq(o, ctx.vals(ctx.step(m, x))[0]))


@scenario("H06", lambda tier, rng: [dict(n=8, T=4 if tier == "quick" else 6), dict(n=16, T=3 if tier == "quick" else 4)])
def rtl_usadd(ctx, cfg):
    """the scaled adder is FSUAdd: same bit, same cycle"""
    from UnarySim.kernel import FSUAdd
    n = cfg["n"]
    m = FSUAdd({"mode": "unipolar", "scale": n, "dima": 0, "depth": 10, "entry": n}, {"btype": F32, "stype": F32})
    r = Rtl(ctx, f"kernel/old/uSADD/uSADD{n}.sv")
    if not r.ok:
        return
    ones = outs = 0
    for t in range(cfg["T"]):
        x = ctx.bits(f"x{t}", (n, 1), F32)
        v = ctx.vals(x)[:, 0]
        o = r.step(**{"in": Sum([b * 2 ** i for i, b in enumerate(v)])})["out"]
        ctx.check(f"simulator@{t}", eq(o, ctx.vals(ctx.step(m, x))[0]))
        ones, outs = ones + Sum(v), outs + o
        ctx.check(f"exact@{t}", eq(outs, fdivc(ones, n)))


@scenario("H06", lambda tier, rng: [dict(n=7), dict(n=15)])
def rtl_parallelcnt(ctx, cfg):
    n = cfg["n"]
    r = Rtl(ctx, f"kernel/old/parallelCnt/parallelCnt{n}.sv", rst="none")
    if not r.ok:
        return
    v = [bit(ctx, f"x{i}")[1] for i in range(n)]
    o = r.sim.outputs(**{"in": Sum([b * 2 ** i for i, b in enumerate(v)])})["out"]
    ctx.check("count", eq(o, Sum(v)))


@scenario("H06", lambda tier, rng: [dict(k=k, w=w) for k in ("uni", "bi") for w in (3, 4)])
def rtl_gmul(ctx, cfg):
    """two generators of the same dimension: the product bit of every cycle, for all operands"""
    w, k = cfg["w"], cfg["k"]
    n = 2 ** w
    r = Rtl(ctx, f"kernel/old/gMUL_{k}/gMUL_{k}.sv", override=widths(w))
    if not r.ok:
        return
    A, B, seq = r.word("A", w), r.word("B", w), vdc_gray(w)
    r.step(iA=A, iB=B, loadA=1, loadB=1)
    for t in range(1, n):
        o = r.step(iA=r.word(f"iA{t}", w), iB=r.word(f"iB{t}", w), loadA=0, loadB=0)["oC"]
        a, b = gt(A, seq[t]), gt(B, seq[t])
        ctx.check(f"product@{t}", eq(o, b2i(And(a, b)) if k == "uni" else b2i(Iff(a, b))))


@scenario("H06", lambda tier, rng: [dict(w=w) for w in (3, 4)])
def rtl_tmul(ctx, cfg):
    """the temporal multiplier: A cycles of the stream of B, then it stops; over A cycles it counts what B's stream holds"""
    w = cfg["w"]
    n = 2 ** w
    r = Rtl(ctx, "kernel/old/tMUL_uni/tMUL_uni.sv", override=widths(w))
    if not r.ok:
        return
    A, B, seq = r.word("A", w), r.word("B", w), vdc_gray(w)
    r.step(iA=A, iB=B, loadA=1, loadB=1)
    o = r.step(iA=0, iB=0, loadA=0, loadB=0)
    ctx.check("idle", And(eq(o["oC"], 0), eq(o["stop"], 1)))
    for t in range(n):
        o = r.step(iA=r.word(f"iA{t}", w), iB=r.word(f"iB{t}", w), loadA=0, loadB=0)
        run = lt(t, A)
        ctx.check(f"stop@{t}", eq(o["stop"], b2i(Not(run))))
        ctx.check(f"product@{t}", eq(o["oC"], b2i(And(run, gt(B, seq[t % n])))))


@scenario("H06", lambda tier, rng: [dict(k=k, T=3) for k in ("bADD", "bMUL", "muxADD", "orADD")])
def rtl_binary(ctx, cfg):
    """registered binary arithmetic and the one-cycle selecting adders"""
    k = cfg["k"]
    r = Rtl(ctx, f"kernel/old/{k}/{k}.sv")
    if not r.ok:
        return
    past = []
    for t in range(cfg["T"]):
        if k in ("bADD", "bMUL"):
            hi_ = 255 if k == "bADD" else 255
            a, b = r.word(f"a{t}", 8), r.word(f"b{t}", 8) if k == "bADD" or t else 0
            if k == "bMUL":
                # one symbolic factor at a time
                b = [3, 255, 129][t % 3]
            o = r.step(iA=a, iB=b)["oC"]
            past.append(a + b if k == "bADD" else a * b)
            ctx.check(f"result@{t}", eq(o, past[t - 2] if t >= 2 else 0))
        else:
            v = [bit(ctx, f"x{t}.{i}")[1] for i in range(8)]
            x = Sum([b * 2 ** i for i, b in enumerate(v)])
            s = r.word(f"s{t}", 3)
            o = (r.step(sel=s, **{"in": x}) if k == "muxADD" else r.step(**{"in": x}))["out"]
            ctx.check(f"result@{t}", eq(o, past[-1] if past else 0))
            past.append(select(s, v) if k == "muxADD" else b2i(Or(*[eq(b, 1) for b in v])))


@scenario("H06", lambda tier, rng: [dict(k="cordiv", T=6 if tier == "quick" else 9)])
def rtl_cordiv_old(ctx, cfg):
    """the first divider kernel keeps valid quotients only"""
    r = Rtl(ctx, "kernel/old/cordiv/cordiv.sv")
    if not r.ok:
        return
    q = [0, 0]
    for t in range(cfg["T"]):
        _, a = bit(ctx, f"x{t}")
        _, b = bit(ctx, f"y{t}")
        _, s = bit(ctx, f"s{t}")
        o = r.step(srSel=s, dividend=a, divisor=b)
        old = select(s, q)
        want = ite(eq(b, 1), a, old)
        ctx.check(f"quotient@{t}", And(eq(o["quotient"], want), eq(o["srOut"], old)))
        q = [ite(eq(b, 1), want, q[0]), ite(eq(b, 1), q[0], q[1])]


@scenario("H07", lambda tier, rng: [dict(k=f"uMUL_{k}", w=8, T=5 if tier == "quick" else 8, dir=f"MAC16/uMAC_{k}_{s}") for k in ("uni", "bi") for s in ("scaled", "nonscaled")])
@scenario("H06", lambda tier, rng: [dict(k=k, w=w, T=T) for k in ("uMUL_uni", "uMUL_bi", "gMUL_uni", "gMUL_bi", "tMUL_uni") for w, T in ((3, 5 if tier == "quick" else 8), (4, 4 if tier == "quick" else 6))])
def rtl_reload(ctx, cfg):
    """operands loaded in any cycle count from the next one, zero before the first; the sequences go on regardless"""
    k, w = cfg["k"], cfg["w"]
    n = 2 ** w
    r = Rtl(ctx, f"kernel/old/{cfg.get('dir', k)}/{k}.sv", override=widths(w))
    if not r.ok:
        return
    seq = vdc_gray(w)
    A = B = ones = zeros = 0
    left, stop = 0, 1
    for t in range(cfg["T"]):
        b, lb = r.word(f"iB{t}", w), bit(ctx, f"lB{t}")[1]
        if k.startswith("uMUL"):
            a = bit(ctx, f"x{t}")[1]
            o = r.step(iA=a, iB=b, loadB=lb)["oC"]
            one = And(eq(a, 1), gt(B, select(ones, seq[:t + 1])))
            nil = And(eq(a, 0), le(B, select(zeros, seq[:t + 1])))
            ctx.check(f"product@{t}", eq(o, b2i(one if k == "uMUL_uni" else Or(one, nil))))
            ones, zeros = ones + a, zeros + 1 - a
        else:
            a, la = r.word(f"iA{t}", w), bit(ctx, f"lA{t}")[1]
            o = r.step(iA=a, iB=b, loadA=la, loadB=lb)
            if k == "tMUL_uni":
                run = eq(stop, 0)
                ctx.check(f"stop@{t}", eq(o["stop"], stop))
                ctx.check(f"product@{t}", eq(o["oC"], b2i(And(run, gt(B, select(ones, seq[:t + 1]))))))
                ones = ones + 1 - stop
                idle = Or(eq(la, 1), eq(left, 0))
                left = ite(eq(la, 1), a, ite(eq(left, 0), 0, left - 1))
                stop = b2i(idle)
            else:
                p, q = gt(A, seq[t % n]), gt(B, seq[t % n])
                ctx.check(f"product@{t}", eq(o["oC"], b2i(And(p, q) if k == "gMUL_uni" else Iff(p, q))))
                A = ite(eq(la, 1), a, A)
        B = ite(eq(lb, 1), b, B)


@scenario("H06", lambda tier, rng: [dict(k=k, T=5 if tier == "quick" else 8) for k in ("gdiv4b", "gdiv5b", "gsqrt4b", "gsqrt5b")])
def rtl_feedback_old(ctx, cfg):
    """the first feedback divider and square root: a saturating counter compared with the random number"""
    k, w = cfg["k"], int(cfg["k"][-2])
    r = Rtl(ctx, f"kernel/old/{k[:-2]}/{k}.sv")
    if not r.ok:
        return
    c, prev = 2 ** (w - 1), 0
    for t in range(cfg["T"]):
        rnd, a, b = r.word(f"rand{t}", w), bit(ctx, f"x{t}")[1], bit(ctx, f"y{t}")[1]
        q = b2i(ge(c, rnd))
        if "div" in k:
            ctx.check(f"quotient@{t}", eq(r.step(randNum=rnd, dividend=a, divisor=b)["quotient"], q))
            dec = q * b
        else:
            ctx.check(f"root@{t}", eq(r.step(randNum=rnd, **{"in": a})["out"], q))
            dec = q * prev
        c = clampv(c + a - dec, 0, 2 ** w - 1)
        prev = q


@scenario("H06", lambda tier, rng: [dict(T=5 if tier == "quick" else 8)])
def rtl_cordivall(ctx, cfg):
    """operands regenerated from their running difference, then divided"""
    r = Rtl(ctx, "kernel/old/cordivall/cordivall.sv")
    if not r.ok:
        return
    x = y = 128
    q = [0, 0]
    for t in range(cfg["T"]):
        rnd, s, a, b = r.word(f"rand{t}", 8), bit(ctx, f"s{t}")[1], bit(ctx, f"x{t}")[1], bit(ctx, f"y{t}")[1]
        o = r.step(randNum=rnd, sel=s, dividend=a, divisor=b)["quotient"]
        one = ge(y, rnd)
        want = ite(one, b2i(ge(x, rnd)), select(s, q))
        ctx.check(f"quotient@{t}", eq(o, want))
        q = [ite(one, want, q[0]), ite(one, q[0], q[1])]
        x, y = x + 2 * a - 1, y + 2 * b - 1


@scenario("H06", lambda tier, rng: [dict(w=w, T=T) for w, T in ((3, 8), (4, 6))])
def rtl_tmul_bi(ctx, cfg):
    """the temporal operand runs, the other is compared while it does; agreement is a one"""
    w = cfg["w"]
    r = Rtl(ctx, "kernel/old/tMUL_bi/tMUL_bi.sv", override=widths(w))
    if not r.ok:
        return
    A, B, seq = r.word("A", w), r.word("B", w), vdc_gray(w)
    r.step(iA=A, iB=B, loadA=1, loadB=1)
    r.step(iA=0, iB=0, loadA=0, loadB=0)
    for t in range(cfg["T"]):
        o = r.step(iA=r.word(f"iA{t}", w), iB=r.word(f"iB{t}", w), loadA=0, loadB=0)
        run = lt(t, A)
        ctx.check(f"stop@{t}", eq(o["stop"], b2i(Not(run))))
        # the sequence stands still when the run is over
        ctx.check(f"product@{t}", eq(o["oC"], b2i(Iff(run, gt(B, select(ite(run, t, A), seq))))))


@scenario("H06", lambda tier, rng: [dict(T=3 if tier == "quick" else 5)])
def rtl_apcadd(ctx, cfg):
    """the approximate counter adds the ors of pairs, all but the last twice, and is compared with a random number"""
    r = Rtl(ctx, "kernel/old/apcADD/apcADD.sv")
    if not r.ok:
        return
    n = 0
    for t in range(cfg["T"]):
        v = [bit(ctx, f"x{t}.{i}")[1] for i in range(8)]
        rnd = r.word(f"rand{t}", 3)
        ctx.check(f"out@{t}", eq(r.step(randNum=rnd, **{"in": Sum([b * 2 ** i for i, b in enumerate(v)])})["out"], b2i(gt(n, rnd))))
        m = [b2i(Or(eq(v[2 * i], 1), eq(v[2 * i + 1], 1))) for i in range(4)]
        n = 2 * (m[0] + m[1] + m[2]) + m[3]


# ------------------------------------------------------------------ H07 multiply-accumulate units, non-scaled adders, deterministic multipliers
MAC = "kernel/old/MAC16/"


def lanes(ctx, k, few=False):
    """16 operands, k of them symbolic (few: the others mostly zero)"""
    free = set(ctx.rng.sample(range(16), k))
    return [None if i in free else ctx.rng.choice([0] * 12 * few + [0, 1, 255, ctx.rng.randrange(256)]) for i in range(16)], free


def pack(bits):
    return Sum([b * 2 ** i for i, b in enumerate(bits)])


def operands(ctx, r, k, few):
    """two vectors of operands, both symbolic in k - 1 lanes, one in one more lane each"""
    v, free = lanes(ctx, k, few)
    one, two = sorted(free)[:2]
    mk = lambda p, skip: [r.word(f"{p}{i}", 8) if x is None and i != skip else 200 if x is None else x for i, x in enumerate(v)]
    return mk("A", one), mk("B", two)


@scenario("H07", lambda tier, rng: [dict(kind=k, scaled=s, k=3, T=6 if tier == "quick" else 9, free=f) for k in ("uni", "bi") for s in (True, False) for f in (2, 4)] + [dict(kind=k, scaled=s, k=1, T=6 if tier == "quick" else 9, free=2, full=v) for k in ("uni", "bi") for s in (True, False) for v in (0, 1)])
def rtl_umac(ctx, cfg):
    """16 conditional-generation multipliers and an adder: the simulator's multiplier and adder, bit for bit; the scaled unipolar one is FSULinear"""
    from UnarySim.kernel import FSUMul, FSUAdd, FSULinear
    uni, scaled = cfg["kind"] == "uni", cfg["scaled"]
    name = f"uMAC_{cfg['kind']}_{'' if scaled else 'non'}scaled"
    r = Rtl(ctx, f"{MAC}{name}/{name}.sv")
    if not r.ok:
        return
    mode = "unipolar" if uni else "bipolar"
    v, free = lanes(ctx, cfg["k"])
    full = cfg.get("full")
    if full is not None:
        # nearly all products the same: large and small sums
        v = [x if x is None else 255 * full for x in v]
    vals = []
    for i, x in enumerate(v):
        if i in free:
            g = ctx.grid(f"B{i}", (1,), 0, 255, 8) if uni else ctx.grid(f"B{i}", (1,), -128, 127, 7)
        else:
            g = torch.tensor([x / 256.0 if uni else x / 128.0 - 1.0])
        vals.append(g)
    W = torch.cat(vals)
    Bs = [v * 256 if uni else (v + 1) * 128 for v in ctx.vals(W)]
    mul = FSUMul(in_1_prob=W, hwcfg={"width": 8, "mode": mode, "static": True, "rng": "Sobol", "dimr": 1}, swcfg={"rtype": F32, "stype": F32})
    add = FSUAdd({"mode": "unipolar", "scale": 16 if scaled else 1, "dima": 0, "depth": 12, "entry": 16}, {"btype": F32, "stype": F32})
    lin = None
    if uni:
        lin = FSULinear(16, 1, bias=False, weight_ext=W.reshape(1, 16), hwcfg={"width": 8, "mode": mode, "scale": None if scaled else 1, "depth": 12, "rng": "Sobol", "dimr": 1}, swcfg={"btype": F32, "rtype": F32, "stype": F32})
    # loaded in a cycle that multiplies by zero whatever the operands were (they are zero): all zeros for unipolar, all ones for bipolar
    r.step(iA=0 if uni else 2 ** 16 - 1, iB=Bs, loadB=1)
    total, out, prev = 0, 0, 0
    if not uni:
        ctx.step(mul, torch.ones(16))
        total = -15
    some = ctx.rng.sample(range(16), cfg["free"])
    for t in range(cfg["T"]):
        x = torch.tensor([float(ctx.rng.randint(0, 1)) for _ in range(16)]) if full is None else torch.ones(16)
        for i in some:
            x[i] = ctx.bits(f"x{t}.{i}", (1,))[0]
        o = r.step(iA=pack(ctx.vals(x)), iB=[r.word(f"iB{t}", 8)] * 16, loadB=0)["oC"]
        p = ctx.step(mul, x)
        if scaled or uni:
            q = ctx.vals(ctx.step(add, p.reshape(16, 1)))[0]
            ctx.check(f"simulator@{t}", eq(o, q if scaled else prev))
            if lin is not None:
                ctx.check(f"linear@{t}", eq(ctx.vals(ctx.step(lin, x.reshape(1, 16)))[0, 0], q))
            prev = q
        else:
            ctx.check(f"sum@{t}", eq(o, b2i(gt(total, 2 * out))))
            out, total = out + o, total + 2 * Sum(list(ctx.vals(p))) - 15


@scenario("H07", lambda tier, rng: [dict(n=n, T=T, k=k) for n in (8, 16) for T, k in (((3, 3), (6, 3), (30, 3)) if tier == "quick" else ((4, 4), (12, 5), (33, 5)))])
def rtl_unsadd(ctx, cfg):
    """the non-scaled bipolar adder emits a one exactly while the sum so far is ahead of what it has emitted"""
    n, T = cfg["n"], cfg["T"]
    r = Rtl(ctx, f"kernel/old/uNSADD/uNSADD{n}.sv")
    if not r.ok:
        return
    total = out = 0
    bias = ctx.rng.choice([.2, .5, .8])
    for t in range(T):
        v = [ctx.vals(ctx.bits(f"x{t}.{i}", (1,)))[0] if t >= T - cfg["k"] or T == cfg["k"] else int(ctx.rng.random() < bias) for i in range(n)]
        o = r.step(**{"in": pack(v)})["out"]
        ctx.check(f"sum@{t}", eq(o, b2i(gt(total, 2 * out))))
        out, total = out + o, total + 2 * Sum(v) - (n - 1)


def draw(w, k):
    """draw k of the hardware sequence: the Gray-ordered one; at the end of a period the first direction number is used, so that periods differ by a mask"""
    n = 2 ** w
    s = vdc_gray(w)
    return s[k % n] ^ ((k // n % 2) * (s[n - 1] ^ n // 2))


def mac_cfgs(tier, rng):
    out = [dict(name=n, k=5, T=40 if tier == "quick" else 300) for n in ("gainMAC_uni_nonscaled", "gainMAC_uni_scaled", "gainMAC_bi_scaled")]
    return out + [dict(name=n, k=4, T=300 if tier == "quick" else 800, _cost=9) for n in ("dMAC_uni_nonscaled", "dMAC_uni_scaled", "dMAC_bi_scaled")]


@scenario("H07", mac_cfgs)
def rtl_mac(ctx, cfg):
    """comparator multipliers (independent or clock-divided sequences) and a selecting or or-ing adder: the bit of every cycle"""
    nm = cfg["name"]
    r = Rtl(ctx, f"{MAC}{nm}/{nm}.sv")
    if not r.ok:
        return
    few = nm.endswith("nonscaled")
    A, B = operands(ctx, r, cfg["k"], few)
    other = [ctx.rng.randrange(256) for _ in range(16)]
    bi, d = "_bi_" in nm, nm.startswith("dMAC")
    a, b, want = [0] * 16, [0] * 16, 0
    for t in range(cfg["T"]):
        o = r.step(iA=A if t == 0 else other, iB=B if t == 0 else other, loadA=int(t == 0), loadB=int(t == 0))["oC"]
        ctx.check(f"bit@{t}", eq(o, want))
        i, j, k = (draw(8, t), draw(8, t // 256), draw(4, t // 65536)) if d else (draw(8, t), draw(8, t), draw(4, t))
        bit_ = lambda n: b2i((Iff if bi else And)(gt(a[n], i), gt(b[n], j)))
        want = bit_(k) if "_scaled" in nm else b2i(Or(*[eq(bit_(n), 1) for n in range(16)]))
        if t == 0:
            a, b = A, B


@scenario("H07", lambda tier, rng: [dict(k=k, w=w) for k in ("uni", "bi") for w in ((3, 4) if tier == "quick" else (3, 4, 5))])
def rtl_dmul(ctx, cfg):
    """one sequence goes once round for every draw of the other, so the product over 2**(2w) cycles is exact"""
    w, k = cfg["w"], cfg["k"]
    n = 2 ** w
    r = Rtl(ctx, f"kernel/old/dMUL_{k}/dMUL_{k}.sv", override=widths(w))
    if not r.ok:
        return
    A, B = r.word("A", w), r.word("B", w)
    r.step(iA=A, iB=B, loadA=1, loadB=1)
    rows = [0] * n
    for t in range(1, n * n + 1):
        o = r.step(iA=r.word(f"iA{t}", w), iB=r.word(f"iB{t}", w), loadA=0, loadB=0)["oC"]
        p, q = gt(A, draw(w, t)), gt(B, draw(w, t // n))
        ctx.check(f"product@{t}", eq(o, b2i(And(p, q) if k == "uni" else Iff(p, q))))
        rows[t // n % n] = rows[t // n % n] + o
    # every full turn counts A under a one of B (and the complement under a zero in bipolar), and B of the turns are ones
    for j in range(1, n):
        ctx.check(f"turn@{j}", eq(rows[j], ite(gt(B, draw(w, j)), A, 0 if k == "uni" else n - A)))
    ctx.check("turns", eq(Sum([b2i(gt(B, draw(w, j))) for j in range(n)]), B))


@scenario("H07", lambda tier, rng: [dict(k=2, T=20 if tier == "quick" else 24)])
def rtl_tmac(ctx, cfg):
    """temporal multipliers, a counter each, and the sum of the counts (two cycles later) compared with the sequence"""
    r = Rtl(ctx, f"{MAC}tMAC_uni_nonscaled/tMAC_uni_nonscaled.sv")
    if not r.ok:
        return
    A, B = operands(ctx, r, cfg["k"], True)
    a, b, left, stop, cnt, half, total = [0] * 16, [0] * 16, [0] * 16, [1] * 16, [0] * 16, 0, 0
    for t in range(cfg["T"]):
        load = int(t == 0)
        o = r.step(iA=A, iB=B if t == 0 else A, loadA=load, loadB=load)["oC"]
        s = draw(8, t)
        ctx.check(f"bit@{t}", eq(o, b2i(gt(total, s))))
        # eight bits wide
        total, half = half, Sum(cnt) - 256 * fdivc(Sum(cnt), 256)
        for i in range(16):
            cnt[i] = cnt[i] + b2i(And(eq(stop[i], 0), gt(b[i], s)))
            if t == 0:
                left[i], b[i] = A[i], B[i]
            else:
                stop[i] = b2i(eq(left[i], 0))
                left[i] = left[i] - 1 + stop[i]


@scenario("H07", lambda tier, rng: [dict(name=f"tMAC_{k}_scaled", k=3, T=T) for k in ("uni", "bi") for T in ((8, 24) if tier == "quick" else (12, 60))])
def rtl_tmac_scaled(ctx, cfg):
    """temporal multipliers over one running sequence and a selecting adder"""
    nm = cfg["name"]
    bi = "_bi_" in nm
    r = Rtl(ctx, f"{MAC}{nm}/{nm}.sv")
    if not r.ok:
        return
    A, B = operands(ctx, r, cfg["k"], False)
    a, b, want = [0] * 16, [0] * 16, 0
    for t in range(cfg["T"]):
        o = r.step(iA=A, iB=B if t == 0 else A, loadA=int(t == 0), loadB=int(t == 0))["oC"]
        ctx.check(f"bit@{t}", eq(o, want))
        k = draw(4, t)
        # the run starts two cycles after the load
        run, one = And(lt(t - 2, a[k]), t >= 2), gt(b[k], draw(8, t))
        want = b2i(Iff(run, one) if bi else And(run, one))
        if t == 0:
            a, b = A, B


@scenario("H07", lambda tier, rng: [dict(T=4 if tier == "quick" else 7)])
def rtl_bmac(ctx, cfg):
    """the binary unit multiplies and adds to its result or to what it is given"""
    r = Rtl(ctx, f"{MAC}bMAC_SIMD/mac.sv")
    if not r.ok:
        return
    c = 0
    for t in range(cfg["T"]):
        a, b, d, e = r.word(f"a{t}", 8), [255, 3, 128, 77][t % 4], r.word(f"c{t}", 20), bit(ctx, f"e{t}")[1]
        a, b = (a, b) if t % 2 else (b, a)
        ctx.check(f"result@{t}", eq(r.step(iA=a, iB=b, iC=d, acc_en=e)["oC"], c))
        c = a * b + ite(eq(e, 1), c, d)
        c = c - 2 ** 20 * fdivc(c, 2 ** 20)


# ------------------------------------------------------------------ H08 number sequences, trace roots and the remaining old units
def beside(*files):
    """the compilation unit of a source that includes its definitions but not the modules it instantiates"""
    inc = "".join(f'`include "{f}"\n' for f in files[1:])
    return lambda s: inc + s if f"module {files[0]} " in s or f"module {files[0]}(" in s else s


def digits(t, b, n):
    v = 0
    for _ in range(n):
        v, t = v * b + t % b, t // b
    return v


@scenario("H08", lambda tier, rng: [dict(b=2, n=8), dict(b=3, n=5), dict(b=5, n=3)])
def rtl_halton(ctx, cfg):
    """the radical inverse of the cycle number in base b: over a period every value once"""
    b, n = cfg["b"], cfg["n"]
    name = f"HaltonSeq{b}"
    r = Rtl(ctx, f"stream/old/{name}/{name}.sv", override=beside(name, f"ModCnt{b}.sv"), rst="rst", active=1)
    if not r.ok:
        return
    p = b ** n
    B = r.word("B", (p - 1).bit_length())
    late, got = int(b > 2), []
    for t in range(2 * p + late):
        o = r.step()["out"]
        if late and t == 0:
            ctx.check("zero after reset", eq(o, 0))
            continue
        got.append(o)
        ctx.check(f"sequence@{t}", eq(o, digits((t - late) % p, b, n)))
    for q in (0, p):
        ctx.check(f"count@{q}", eq(Sum([b2i(gt(B, v)) for v in got[q:q + p]]), minv(B, p)))


@scenario("H08", lambda tier, rng: [dict(b=b, T=8 if tier == "quick" else 14) for b in (2, 3, 5)])
def rtl_modcnt(ctx, cfg):
    """one digit: counts the carries it is given modulo b and hands on a carry when it wraps"""
    b = cfg["b"]
    r = Rtl(ctx, f"stream/old/HaltonSeq{b}/ModCnt{b}.sv", rst="rst", active=1)
    if not r.ok:
        return
    c = 0
    for t in range(cfg["T"]):
        e = bit(ctx, f"c{t}")[1]
        o = r.step(cin=e)
        ctx.check(f"digit@{t}", eq(o["out"], c))
        ctx.check(f"carry@{t}", eq(o["cout"], b2i(And(eq(e, 1), eq(c, b - 1)))))
        c = modc(c + e, b)


@scenario("H08", lambda tier, rng: [dict(f=f, o=o, w=w) for f, o, w in (("GrayCode", "grayOutBin", 4), ("Sobol8bit", "grayOut", 8))])
def rtl_gray(ctx, cfg):
    """the Gray code of the cycle number: one bit changes per cycle"""
    w = cfg["w"]
    r = Rtl(ctx, f"stream/old/{cfg['f']}/grayCode.sv")
    if not r.ok:
        return
    B = r.word("B", w)
    got = [r.step()[cfg["o"]] for _ in range(2 ** w + 3)]
    for t, v in enumerate(got):
        u = t % 2 ** w
        ctx.check(f"sequence@{t}", eq(v, u ^ (u >> 1)))
    ctx.check("count", eq(Sum([b2i(gt(B, v)) for v in got[:2 ** w]]), B))


def lowzero(v, w):
    """index of the least significant 0 of w bits, w if there is none"""
    i = w
    for j in reversed(range(w)):
        i = ite(eq(modc(fdivc(v, 2 ** j), 2), 0), j, i)
    return i


@scenario("H08", lambda tier, rng: [dict(f="SobolSeq2/LSZ2"), dict(f="Sobol8bit/LSZ")])
def rtl_lsz(ctx, cfg):
    """the least significant zero of the counter"""
    r = Rtl(ctx, f"stream/old/{cfg['f']}.sv")
    if not r.ok:
        return
    v = r.word("v", 8)
    o = r.step(**{"in": v})
    i = lowzero(v, 8)
    if "LSZ2" in cfg["f"]:
        # three bits: position 8 reads 0, all ones 9 reads 1
        ctx.check("index", eq(o["out"], modc(i + 1, 8)))
        return
    one = Sum([b2i(eq(i, j)) * 2 ** j for j in range(8)])
    ctx.check("one hot", eq(o["outoh"], one))
    ctx.check("index", eq(o["lszidx"], minv(i, 7)))
    ctx.check("reverse", And(eq(o["lszidxr"], 7 - minv(i, 7)), eq(o["outohr"], Sum([b2i(eq(i, 7 - j)) * 2 ** j for j in range(8)]))))


@scenario("H08", lambda tier, rng: [dict(T=2 if tier == "quick" else 4, i=i) for i in range(2)])
def rtl_soboltwo(ctx, cfg):
    """two Sobol sequences from one merged table of direction vectors: each register takes up the vector its index names"""
    r = Rtl(ctx, "stream/old/Sobol8bit/SobolRNGtwo.sv")
    if not r.ok:
        return
    # the table is merged: entry i holds vector i of the first sequence (i + 1 bits) above vector 7 - i of the second (8 - i bits)
    pick = [ctx.rng.randrange(8) for _ in range(2)]
    vec = [[[r.word(f"v{s}.{i}.{k}", 1) if i == pick[s] else ctx.rng.randint(0, 1) for k in range(i + 1)] for i in range(8)] for s in range(2)]
    table = [Sum([b * 2 ** (8 - k) for k, b in enumerate(vec[0][i])]) + Sum([b * 2 ** (7 - i - k) for k, b in enumerate(vec[1][7 - i])]) for i in range(8)]
    acc = [[0] * 8 for _ in range(2)]
    for t in range(cfg["T"] + 1):
        ix = [r.word(f"i{t}.{s}", 3) for s in range(2)]
        o = r.step(vecIdx=ix, dirVec=table)["out"]
        for s in range(2):
            ctx.check(f"sequence{s}@{t}", eq(o[s], Sum([b * 2 ** (7 - k) for k, b in enumerate(acc[s])])))
            acc[s] = [xor01(acc[s][k], select(ix[s], [vec[s][i][k] if k <= i else 0 for i in range(8)])) for k in range(8)]


@scenario("H08", lambda tier, rng: [dict(f=f, T=10 if tier == "quick" else 16) for f in ("jkdivbisqrt/jkdivbisqrt", "sqrt/sqrtJK")])
def rtl_sqrt_trace(ctx, cfg):
    """bit for bit FSUSqrt with the JK trace"""
    from UnarySim.kernel import FSUSqrt
    m = FSUSqrt({"mode": "unipolar", "jk_trace": True, "emit": False, "entry_kn": 1, "entry_sr": 2, "rng": "Sobol", "dimr": 4}, {"stype": F32, "btype": F32})
    r = Rtl(ctx, f"kernel/old/{cfg['f']}.sv")
    if not r.ok:
        return
    for t in range(cfg["T"]):
        x, a = bit(ctx, f"x{t}")
        ctx.check(f"root@{t}", eq(r.step(**{"in": a})["out"], ctx.vals(ctx.step(m, x))[0]))


class OldKernel:
    """the first divider kernel: two valid quotients, the index given from outside"""
    def __init__(s):
        s.q = [0, 0]

    def step(s, x, d, i):
        old = select(i, s.q)
        o = ite(eq(d, 1), x, old)
        s.q = [ite(eq(d, 1), o, s.q[0]), ite(eq(d, 1), s.q[0], s.q[1])]
        return o, old


@scenario("H08", lambda tier, rng: [dict(T=8 if tier == "quick" else 13)])
def rtl_sqrt_divider_trace(ctx, cfg):
    """out = in while the trace bit is 1, else 1; the trace divides the toggling bit by itself or the output"""
    r = Rtl(ctx, "kernel/old/iscbdivbisqrt/iscbdivbisqrt.sv")
    if not r.ok:
        return
    k = OldKernel()
    for t in range(cfg["T"]):
        a, s = bit(ctx, f"x{t}")[1], bit(ctx, f"s{t}")[1]
        o = r.step(**{"in": a, "sel": s})["out"]
        want = ite(eq(select(s, k.q), 1), a, 1)
        ctx.check(f"root@{t}", eq(o, want))
        k.step(t % 2, 1 if t % 2 else want, s)


@scenario("H08", lambda tier, rng: [dict(f=f, T=9 if tier == "quick" else 14, n=n) for f in ("stream/old/skewedSync/skewedSync", "kernel/old/iscbdiv/skewedSync", "kernel/old/iscbdiv/iscbdiv") for n in (0, 40)])
def rtl_sync_old(ctx, cfg):
    """the synchroniser of depth 2 is SkewedSync; the divider is the first kernel behind it"""
    from UnarySim.stream import SkewedSync
    m = SkewedSync({"depth": 2}, {"stype": F32, "btype": F32})
    r = Rtl(ctx, cfg["f"] + ".sv")
    if not r.ok:
        return
    k = OldKernel()
    for t, x, a, y, b in two_histories(ctx, cfg["T"] + cfg["n"], cfg["T"]):
        u, v = (ctx.vals(q)[0] for q in ctx.step(m, x, y))
        if "iscbdiv.sv" in cfg["f"] + ".sv":
            s = bit(ctx, f"s{t}")[1]
            ctx.check(f"quotient@{t}", eq(r.step(dividend=a, divisor=b, sel=s)["quotient"], k.step(u, v, s)[0]))
        else:
            ctx.check(f"streams@{t}", eq(r.step(**{"in": a + 2 * b})["out"], u + 2 * v))


@scenario("H08", lambda tier, rng: [dict(d=d, T=9 if tier == "quick" else 14, n=n) for d in (2, 3, 4) for n in (0, 40)])
def rtl_relu_old(ctx, cfg):
    """passes the input while the saturating counter of ones against zeros, from half scale, is in its upper half"""
    d = cfg["d"]
    r = Rtl(ctx, "kernel/old/relu/relu.sv", par={"DEPTH": d})
    if not r.ok:
        return
    c = 2 ** (d - 1)
    for t, _, a in history(ctx, "x", cfg["T"] + cfg["n"], cfg["T"]):
        ctx.check(f"out@{t}", eq(r.step(**{"in": a})["out"], ite(ge(c, 2 ** (d - 1)), a, 0)))
        c = clampv(c + a * 2 - 1, 0, 2 ** d - 1)


@scenario("H08", lambda tier, rng: [dict(T=5 if tier == "quick" else 8, n=n) for n in (0, 60)])
def rtl_sqrt_old(ctx, cfg):
    """saturating counter from half scale, up with the input, down with two outputs in a row, compared with a random number"""
    r = Rtl(ctx, "kernel/old/sqrt/sqrt.sv")
    if not r.ok:
        return
    c, last = 32, 0
    for t, _, a in history(ctx, "x", cfg["T"] + cfg["n"], cfg["T"]):
        rnd = r.word(f"rand{t}", 6) if t >= cfg["n"] else ctx.rng.randrange(64)
        o = r.step(randNum=rnd, **{"in": a})["out"]
        want = b2i(ge(c, rnd))
        ctx.check(f"out@{t}", eq(o, want))
        c = clampv(c + a - b2i(And(eq(want, 1), eq(last, 1))), 0, 63)
        last = want


@scenario("H08", lambda tier, rng: [dict(k=k, T=3 if tier == "quick" else 5) for k in ("add/fixed_point_add16bit", "mul/fixed_point_mul16bit", "add/add16", "add/add2", "add/fulladder")])
def rtl_words(ctx, cfg):
    """binary sum and product one cycle later; selecting adders; full adder"""
    k = cfg["k"]
    r = Rtl(ctx, f"kernel/old/{k}.sv")
    if not r.ok:
        return
    last = 0
    for t in range(cfg["T"]):
        if "fixed" in k:
            a, b = r.word(f"a{t}", 16), r.word(f"b{t}", 16)
            if "mul" in k:
                # one operand arbitrary, the other drawn: the solver multiplies by constants
                b = ctx.rng.choice([0, 1, 65535, 32768, ctx.rng.randrange(65536)])
                a, b = (a, b) if t % 2 else (b, a)
            ctx.check(f"result@{t}", eq(r.step(a=a, b=b)["c"], last))
            last = a * b if "mul" in k else a + b
        elif k == "add/fulladder":
            a, b, c = (bit(ctx, f"{n}{t}")[1] for n in "abc")
            o = r.step(a=a, b=b, ci=c)
            ctx.check(f"sum@{t}", eq(o["sum"] + 2 * o["co"], a + b + c))
        else:
            n = int(k[7:])
            v = [bit(ctx, f"x{t}.{i}")[1] for i in range(n)]
            i = r.word(f"i{t}", max(1, ulog2(n)))
            ctx.check(f"selected@{t}", eq(r.step(randNum=i, **{"in": pack(v)})["out"], select(i, v)))
