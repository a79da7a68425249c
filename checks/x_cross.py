"""Guarantees shared by all streaming components: independent lanes, determinism and isolation, dtype independence.

The oracle is the real code itself, run a second way: one lane alone, a second instance, another dtype."""
import copy, inspect
from . import scenario
from .util import *
from .l_layers import weights, SW
from symtorch.ctx import HarnessError


class Comp:
    def __init__(s, kind, params, static, ins, make, dts=None, cls=(), T=(4, 7), k=4):
        # kind: how lanes are laid out ("elem": all dims, "add": all but the first, "batch": the first)
        s.kind, s.params, s.static, s.ins, s.make, s.cls, s.T, s.k = kind, params, static, ins, make, cls, T, k
        s.dts = dts or (lambda rng: [dict(st="f32", bt="f32", rt="f32", it="f32")])


def lanes_of(kind, S):
    return [(b,) for b in range(S[0])] if kind == "batch" else list(np.ndindex(*S))


def cut(kind, x, i):
    """one lane, all dims kept"""
    if kind == "batch":
        return x[i[0]:i[0] + 1].clone()
    if kind == "add":
        return x[(slice(None),) + tuple(slice(j, j + 1) for j in i)].clone()
    return x[tuple(slice(j, j + 1) for j in i)].clone()


def none(ctx, P, S):
    return {}


def one(P, S):
    return [tuple(S)]


def two(P, S):
    return [tuple(S), tuple(S)]


def call1(m, xs, t):
    o = m(*xs)
    return o if isinstance(o, tuple) else (o,)


def src_grid(lo_, hi_, g):
    return lambda ctx, P, S: {"src": ctx.grid("src", tuple(S), lo_, hi_, g)}


def bsgen(P, D, A):
    from UnarySim.stream import BSGen
    hw, sw = {}, {"stype": DT[D["st"]]}
    m = BSGen(A["src"], A["seq"], sw)
    return m, (lambda m, xs, t: (m(xs[0].type(DT[D["ct"]])),)), [sw]


def bsgen_static(ctx, P, S):
    return {"src": ctx.grid("src", tuple(S), 0, P["n"]), "seq!": ctx.grid("seq", (P["n"],), 0, P["n"] - 1)}


def kern(name, hwf, swf, call=call1, mod="kernel"):
    def make(P, D, A):
        import UnarySim.kernel, UnarySim.stream
        cls = getattr(UnarySim.kernel if mod == "kernel" else UnarySim.stream, name)
        hw, sw = hwf(P), {k: DT[D[v]] for k, v in swf.items()}
        return cls(hw, sw), call, [hw, sw]
    return make


def mul_static(P, D, A):
    from UnarySim.kernel import FSUMul
    hw, sw = {"width": P["w"], "mode": P["mode"], "static": True, "rng": P["rng"], "dimr": P["d"]}, {"rtype": DT[D["rt"]], "stype": DT[D["st"]]}
    return FSUMul(in_1_prob=A["src"], hwcfg=hw, swcfg=sw), call1, [hw, sw]


def mul_stream(P, D, A):
    from UnarySim.kernel import FSUMul
    hw, sw = {"width": P["w"], "mode": P["mode"], "static": False, "rng": P["rng"], "dimr": P["d"]}, {"rtype": DT[D["rt"]], "stype": DT[D["st"]]}
    return FSUMul(hwcfg=hw, swcfg=sw), call1, [hw, sw]


def call_mask(m, xs, t):
    return m(xs[0], mask=xs[1]) if t % 3 else m(xs[0])


def lin_static(ctx, P, S):
    W, _ = weights(ctx, "w", (P["o"], P["i"]), P["w"], P["mode"], P["sym"])
    A = {"w!": W}
    if P["bias"]:
        A["b!"], _ = weights(ctx, "b", (P["o"],), P["w"], P["mode"], P["sym"])
    return A


def linear(P, D, A):
    from UnarySim.kernel import FSULinear
    hw, sw = {"width": P["w"], "mode": P["mode"], "scale": P["scale"], "depth": P["depth"], "rng": P["rng"], "dimr": P["d"]}, dict(SW)
    return FSULinear(P["i"], P["o"], bias=P["bias"], weight_ext=A["w!"], bias_ext=A.get("b!"), hwcfg=hw, swcfg=sw), call1, [hw, sw]


def conv_static(ctx, P, S):
    W, _ = weights(ctx, "w", (P["o"], P["i"], 2, 1), P["w"], P["mode"], P["sym"])
    A = {"w!": W}
    if P["bias"]:
        A["b!"], _ = weights(ctx, "b", (P["o"],), P["w"], P["mode"], P["sym"])
    return A


def conv(P, D, A):
    from UnarySim.kernel import FSUConv2d
    hw, sw = {"width": P["w"], "mode": P["mode"], "scale": P["scale"], "depth": P["depth"], "rng": P["rng"], "dimr": P["d"]}, dict(SW)
    return FSUConv2d(P["i"], P["o"], (2, 1), padding=P["pd"], bias=P["bias"], weight_ext=A["w!"], bias_ext=A.get("b!"), hwcfg=hw, swcfg=sw), call1, [hw, sw]


def mgu_static(ctx, P, S):
    H, I, w = P["o"], P["i"], P["w"]
    A = {}
    for g in "fn":
        A["w" + g + "!"], _ = weights(ctx, "w" + g, (H, H + I), w, "bipolar", False)
        if P["bias"]:
            A["b" + g + "!"], _ = weights(ctx, "b" + g, (H,), w, "bipolar", False)
    A["hx"], _ = weights(ctx, "hx", (S[0], H), w, "bipolar", P["sym"])
    return A


def mgu(P, D, A):
    from UnarySim.kernel import FSUMGUCell
    hw, sw = {"width": P["w"], "mode": "bipolar", "depth": P["depth"], "depth_ismul": 2, "rng": "Sobol", "dimr": P["d"]}, dict(SW)
    m = FSUMGUCell(P["i"], P["o"], bias=P["bias"], weight_ext_f=A["wf!"], bias_ext_f=A.get("bf!"), weight_ext_n=A["wn!"], bias_ext_n=A.get("bn!"), hx_buffer=A["hx"], hwcfg=hw, swcfg=sw)
    return m, call1, [hw, sw]


def metric(name):
    def make(P, D, A):
        import UnarySim.metric as MM
        hw = {"scale": P["scale"], "mode": P["mode"], "threshold": 0.25}
        m = MM.Correlation() if name == "Correlation" else getattr(MM, name)(A["src"], hw)

        def call(m, xs, t):
            m.Monitor(*xs)
            o = m()
            return o if isinstance(o, tuple) else (o,)
        return m, call, [hw]
    return make


def choose(g, /, **kw):
    return {k: g.choice(v) if isinstance(v, (list, tuple)) else v for k, v in kw.items()}


MODES = ["unipolar", "bipolar"]
KINDS = ["Sobol", "race", "tc10"]


def dts(tie=False, **kw):
    """all listed dtype choices, rotated: each row differs from the next in as much as possible
    tie: the component takes its input streams in the declared stream dtype"""
    def f(rng):
        n = max(len(v) for v in kw.values())
        base = dict(st="f32", bt="f32", rt="f32", it="f32")
        rows = [dict(base, **{k: v[0] for k, v in kw.items()})]
        for j in range(1, n + 1):
            rows.append(dict(base, **{k: v[(j + (rng.randrange(len(v)) if j == n else 0)) % len(v)] for k, v in kw.items()}))
        return [dict(r, it=r["st"]) for r in rows] if tie else rows
    return f


ACC = dict(st=["f32", "i8", "f64", "i32"], bt=["f32", "f64", "i32", "f32"], it=["f32", "i8", "f32", "f64"])
def LAY(rng):
    while True:
        P = lay(rng)
        # bipolar non-scaled addition excludes temporal coding
        if not (P["mode"] == "bipolar" and P["rng"] == "race" and P["scale"] == 1):
            return P


lay = lambda rng: choose(rng, mode=MODES, w=[1, 2, 3], i=[1, 2], o=[1, 2], bias=[True, False], scale=[None, None, 1], depth=[4, 10], rng=["Sobol", "Sobol", "race"], d=[1, 2], sym=[True, False], pd=[0, 1])
COMPS = {
    "BSGen": Comp("elem", lambda rng: choose(rng, n=[2, 4, 8]), bsgen_static, one, bsgen, dts(st=["f32", "i8", "f64"], ct=["i64", "f32", "i32"])),
    "SkewedSync": Comp("elem", lambda rng: choose(rng, d=[1, 2, 3]), none, two, kern("SkewedSync", lambda P: {"depth": P["d"]}, {"btype": "bt", "stype": "st"}, mod="stream"), dts(True, st=["f32", "i8", "f64"], bt=["f32", "i8", "i32"], it=["f32", "i8", "f64"])),
    "Bi2Uni": Comp("elem", lambda rng: choose(rng, d=[2, 3, 5]), none, one, kern("Bi2Uni", lambda P: {"depth": P["d"]}, {"btype": "bt", "stype": "st"}, mod="stream"), dts(**ACC)),
    "Uni2Bi": Comp("elem", lambda rng: choose(rng, d=[3, 4, 6]), none, one, kern("Uni2Bi", lambda P: {"depth": P["d"]}, {"btype": "bt", "stype": "st"}, mod="stream"), dts(**ACC)),
    "FSUAdd": Comp("add", lambda rng: choose(rng, mode=MODES, e=[2, 3], scale=[None, 1, 2], depth=[3, 6, 10]), none, lambda P, S: [(P["e"],) + tuple(S)],
                   kern("FSUAdd", lambda P: {"mode": P["mode"], "scale": P["scale"], "dima": 0, "depth": P["depth"], "entry": None}, {"btype": "bt", "stype": "st"}), dts(**ACC), k=3),
    "FSUMulStatic": Comp("elem", lambda rng: choose(rng, mode=MODES, w=[1, 2, 3], rng=KINDS, d=[1, 2]), lambda ctx, P, S: {"src": ctx.grid("src", tuple(S), 0 if P["mode"] == "unipolar" else -2 ** (P["w"] + 1), 2 ** (P["w"] + 1), P["w"] + 1)}, one, mul_static,
                         dts(st=["f32", "i8", "f64"], rt=["f32", "i64", "f32"], it=["f32", "i8", "f64"])),
    "FSUMulStream": Comp("elem", lambda rng: choose(rng, mode=MODES, w=[1, 2], rng=["Sobol", "tc"], d=[1, 2]), none, two, mul_stream, dts(st=["f32", "i8", "f64"], rt=["f32", "f64", "f32"], it=["f32", "i8", "f64"]), k=3),
    "ShiftReg": Comp("elem", lambda rng: choose(rng, n=[1, 2, 3, 5]), none, two, kern("ShiftReg", lambda P: {"entry": P["n"]}, {"stype": "st"}, call_mask), dts(True, st=["f32", "i8", "f64"], it=["f32", "i8", "f64"])),
    "JKFF": Comp("elem", lambda rng: {}, none, two, lambda P, D, A: jk(P, D), dts(st=["f32", "i8", "f64"], it=["i8", "f32", "f64"])),
    "FSUSignAbs": Comp("elem", lambda rng: choose(rng, d=[2, 3, 6]), none, one, kern("FSUSignAbs", lambda P: {"depth": P["d"]}, {"btype": "bt", "stype": "st"}), dts(**ACC)),
    "FSUReLU": Comp("elem", lambda rng: choose(rng, d=[1, 2, 5]), none, one, kern("FSUReLU", lambda P: {"depth": P["d"]}, {"btype": "bt", "stype": "st"}), dts(**ACC)),
    "FSUHardsigmoid": Comp("elem", lambda rng: choose(rng, mode=MODES, d=[4, 8]), none, one, kern("FSUHardsigmoid", lambda P: {"mode": P["mode"], "depth": P["d"]}, {"btype": "bt", "stype": "st"}), dts(st=["f32", "i8"], bt=["f32", "f64"])),
    "CORDIV": Comp("elem", lambda rng: choose(rng, n=[2, 4], rng=["Sobol", "race"], d=[1, 4]), none, two, kern("CORDIV_kernel", lambda P: {"entry": P["n"], "rng": P["rng"], "dimr": P["d"]}, {"stype": "st"}), dts(True, st=["f32", "i8", "f64"], it=["f32", "i8", "f64"])),
    "FSUDiv": Comp("elem", lambda rng: choose(rng, mode=MODES, sa=[2, 3], ss=[1, 2], n=[2, 4], rng=["Sobol", "race"], d=[1, 4]), none, two,
                   kern("FSUDiv", lambda P: {"depth_sa": P["sa"], "depth_ss": P["ss"], "entry_kn": P["n"], "mode": P["mode"], "rng": P["rng"], "dimr": P["d"]}, {"stype": "st", "btype": "bt"}), dts(True, st=["f32", "i8", "f64"], it=["f32", "i8", "f64"], bt=["f32", "i32", "f64"]), k=3),
    "FSUSqrt": Comp("elem", lambda rng: choose(rng, mode=MODES, em=[True, False], jk=[True, False], sr=[2, 4], rng=["Sobol", "race"]), none, one,
                    kern("FSUSqrt", lambda P: {"mode": P["mode"], "jk_trace": P["jk"], "emit": P["em"], "entry_kn": 1, "entry_sr": P["sr"], "rng": P["rng"], "dimr": 4}, {"stype": "st", "btype": "bt"}), dts(st=["f32", "i8", "f64"], it=["f32", "i8", "f32"], bt=["f32", "f64", "i32"])),
    "FSULinear": Comp("batch", LAY, lin_static, lambda P, S: [(S[0], P["i"])], linear, k=3),
    "FSUConv2d": Comp("batch", LAY, conv_static, lambda P, S: [(S[0], P["i"], 2, 1)], conv, k=2),
    "FSUMGUCell": Comp("batch", lambda rng: choose(rng, i=1, o=[1, 2], w=[2, 3], bias=[True, False], depth=[4, 10], d=[1, 2], sym=[True, False]), mgu_static, lambda P, S: [(S[0], P["i"]), (S[0], P["o"])], mgu, k=2),
    "Correlation": Comp("elem", lambda rng: choose(rng, scale=1, mode="unipolar", two=[True, False]), none, lambda P, S: [tuple(S)] * (1 + P["two"]), metric("Correlation"), dts(it=["f32", "i8", "f64"]), k=2),
    "ProgError": Comp("elem", lambda rng: choose(rng, scale=[1, 2], mode=MODES), src_grid(-8, 8, 2), one, metric("ProgError"), dts(it=["f32", "i8", "f64"])),
    "Stability": Comp("elem", lambda rng: choose(rng, scale=[1, 2], mode=MODES), src_grid(-4, 4, 2), one, metric("Stability"), dts(it=["f32", "i8", "f64"]), k=3),
}


def jk(P, D):
    from UnarySim.kernel import JKFF
    sw = {"stype": DT[D["st"]]}
    return JKFF(sw), call1, [sw]


STREAMED = [n for n in COMPS if n not in ("Correlation", "ProgError", "Stability")]


def history(ctx, name, c, cfg):
    """the input history: per step a list of tensors (the last k symbolic, or spread)"""
    P, S = cfg["P"], cfg["S"]
    if cfg["comp"] == "BSGen":
        # the cycle index of each element
        for t in range(cfg["T"]):
            yield t, [ctx.grid(f"{name}.c{t}", tuple(S), 0, 3 * P["n"] - 1, 0, torch.int64)]
        return
    gens = [bitstream(ctx, f"{name}{j}_", cfg["T"], sh, cfg["k"], DT[cfg["D"]["it"]]) for j, sh in enumerate(c.ins(P, S))]
    for items in zip(*gens):
        yield items[0][0], [x for _, x in items]


def only(kind, A, i):
    return {k: v if k.endswith("!") else cut(kind, v, i) for k, v in A.items()}


def clone(A):
    return {k: v.clone() for k, v in A.items()}


def twins(ctx, name, A):
    return {k: ctx.twin(f"{name}{k}", v) for k, v in A.items()}


def strip(A):
    """names as make() expects them"""
    return {**A, **({"seq": A["seq!"]} if "seq!" in A else {})}


def snap(ctx, xs):
    return [ctx.vals(x).copy() for x in xs]


def allsame(ctx, snaps, xs):
    return And(*[same(s, ctx.vals(x)) for s, x in zip(snaps, xs)])


def base_cfg(name, c, tier, rng, S, D):
    more = 0 if tier == "quick" else 2
    cells = int(np.prod(S))
    k = max(1, c.k + more - (cells > 2))
    return dict(comp=name, P=c.params(rng), D=D, S=S, k=k, T=k + rng.choice([0, 3, 9]))


# ------------------------------------------------------------------ X01
def lane_cfgs(tier, rng):
    out = []
    for name, c in COMPS.items():
        shapes = ([2], [3]) if c.kind == "batch" else ([2], [2, 1], [1, 2], [2, 2], [1, 2, 1])
        if c.kind == "add":
            shapes = ([2], [1, 2], [2, 2])
        if name == "Correlation":
            shapes = ([2], [1, 2])
        for S in shapes:
            for r in range(1 if tier == "quick" and c.kind != "batch" else 3):
                out.append(base_cfg(name, c, tier, rng, S, rng.choice(c.dts(rng))))
    return out


@scenario("X01", lane_cfgs)
def lanes(ctx, cfg):
    c = COMPS[cfg["comp"]]
    P, D, S = cfg["P"], cfg["D"], cfg["S"]
    A = c.static(ctx, P, S)
    L = lanes_of(c.kind, S)
    whole, call, _ = c.make(P, D, strip(clone(A)))
    B = twins(ctx, "2", A)
    alone = {i: c.make(P, D, strip(only(c.kind, B, i)))[0] for i in L}
    outk = "batch" if c.kind == "batch" else "elem"
    for t, xs in history(ctx, "x", c, cfg):
        ys = [ctx.twin(f"y{t}_{j}", x) for j, x in enumerate(xs)]
        parts = {i: [cut(c.kind, y, i) for y in ys] for i in L}
        ctx.nsteps += 1
        o = call(whole, [x.clone() for x in xs], t)
        for i in L:
            p = call(alone[i], parts[i], t)
            ctx.check("outputs", len(p) == len(o))
            for u, v in zip(o, p):
                u = cut(outk, u, i)
                ctx.isvalue(u)
                ctx.check(f"shape@{t}", tuple(u.shape) == tuple(v.shape))
                ctx.check(f"lane@{t}", same(ctx.vals(u), ctx.vals(v)))


# ------------------------------------------------------------------ X02
def iso_cfgs(tier, rng):
    out = []
    for name, c in COMPS.items():
        for S in (([1], [2]) if c.kind == "batch" else ([1], [2], [2, 1])):
            for how in ("lockstep", "behind", "after", "reuse"):
                cfg = base_cfg(name, c, tier, rng, S, rng.choice(c.dts(rng)))
                # the bystander: another instance of the same class with its own configuration
                cfg.update(how=how, Q=c.params(rng))
                for key in ("w", "i", "o", "n", "e", "two"):
                    if key in cfg["P"] and key not in ("w", "n"):
                        cfg["Q"][key] = cfg["P"][key]
                out.append(cfg)
    return out


def defaults(cls):
    """the dictionaries used as default arguments, as a comparable snapshot"""
    return [(k, copy.deepcopy(q.default)) for k, q in inspect.signature(cls.__init__).parameters.items() if isinstance(q.default, dict)]


@scenario("X02", iso_cfgs)
def isolation(ctx, cfg):
    c = COMPS[cfg["comp"]]
    P, Q, D, S = cfg["P"], cfg["Q"], cfg["D"], cfg["S"]
    A = c.static(ctx, P, S)
    A0 = {k: ctx.vals(v).copy() for k, v in A.items()}
    given = strip(clone(A))
    given0 = {k: v for k, v in given.items()}
    g0 = {k: ctx.vals(v).copy() for k, v in given.items()}
    import torch as _t
    one_, call, cf1 = c.make(P, D, given)
    d0 = defaults(type(one_))
    saved = [dict(x) for x in cf1]
    two_, _, cf2 = c.make(P, D, strip(twins(ctx, "2", A)))
    # the bystander takes static data of its own, drawn concretely
    other = None
    hist = [(t, xs) for t, xs in history(ctx, "x", c, cfg)]
    kept = []
    pend = []

    def bystander(t):
        nonlocal other
        if other is None:
            b = SubDraw(ctx)
            other = c.make(Q, D, strip(c.static(b, Q, S)))
        m, cl, _ = other
        ins = c.ins(Q, S)
        xs = [torch.tensor([ctx.rng.randint(0, 1) for _ in range(int(np.prod(sh)))]).reshape(sh).type(DT[D["it"]]) for sh in ins]
        cl(m, xs, t)
    outs1, outs2 = [], []

    def run(m, xs, t, outs):
        before = snap(ctx, xs)
        ctx.nsteps += 1
        o = call(m, xs, t)
        ctx.check(f"inputs untouched@{t}", allsame(ctx, before, xs))
        outs.append((o, snap(ctx, o)))
    buf = []

    def refill(u, ys):
        """the second instance's inputs: tensors of their own, or one buffer per input that the caller overwrites every cycle"""
        ts = [ctx.twin(f"y{u}_{j}", y) for j, y in enumerate(ys)]
        if cfg["how"] != "reuse":
            return ts
        if not buf:
            buf.extend(ts)
        else:
            for b, t_ in zip(buf, ts):
                b.copy_(t_)
        return buf
    lag = {"lockstep": 0, "behind": ctx.rng.randint(1, 2), "after": 10 ** 6, "reuse": 0}[cfg["how"]]
    for t, xs in hist:
        run(one_, [x.clone() for x in xs], t, outs1)
        bystander(t)
        pend.append((t, xs))
        if len(pend) > lag:
            u, ys = pend.pop(0)
            run(two_, refill(u, ys), u, outs2)
    while pend:
        u, ys = pend.pop(0)
        run(two_, refill(u, ys), u, outs2)
    for t, ((o, s), (p, r)) in enumerate(zip(outs1, outs2)):
        for a, b in zip(s, r):
            ctx.check(f"same outputs@{t}", same(a, b))
        ctx.check(f"output stays@{t}", And(allsame(ctx, s, o), cfg["how"] == "reuse" or allsame(ctx, r, p)))
    for k, v in given0.items():
        ctx.check(f"static data untouched: {k}", same(g0[k], ctx.vals(v)))
    for s, d, e in zip(saved, cf1, cf2):
        ctx.check("configuration untouched", s == d and s == e)
    ctx.check("defaults untouched", d0 == defaults(type(one_)))


# the components of the binary domain: a call has no history, so repeated calls agree and stand alone
BINARY = {
    "HUBHardtanh": lambda g: {}, "HUBReLU": lambda g: dict(scale=g.choice([0.5, 1, 2])), "HUBHardsigmoid": lambda g: dict(scale=g.choice([1, 3])), "FSUHardtanh": lambda g: {},
    "RawScale": lambda g: dict(q=g.choice([1, 0.75])), "BinGen": lambda g: choose(g, mode=MODES, w=[2, 5], bt=["f32", "i8"]),
    **{k + n: (lambda k: lambda g: dict(kind=k, wi=4, ww=4, r=g.choice(["round", "floor", "ceil"]), qi=1, qw=1, ri=g.choice(["Sobol", "rc"]), rw="Sobol", cycle=g.choice([None, 3]), temporal=g.choice("iw"), t=2,
                                     **dict(zip(("fi", "fw"), g.choice([("fxp", "fxp"), ("fxp", "bfloat16"), ("bfloat16", "float32")]))), bias=g.choice([True, False])))(k) for k in ("fxp", "hub", "tlut") for n in ("Linear", "Conv2d")},
    "HardMGUCell": lambda g: dict(i=1, o=2, bias=g.choice([True, False])),
}


def binary_make(name, P, W):
    import UnarySim.kernel as K, UnarySim.stream as ST
    from .b_layers import hwcfg
    if name in ("HUBHardtanh", "FSUHardtanh"):
        return getattr(K, name)(), []
    if name in ("HUBReLU", "HUBHardsigmoid"):
        return getattr(K, name)(P["scale"]), []
    if name == "RawScale":
        hw = {"quantile": P["q"]}
        m = ST.RawScale(hw)
        return m, [hw]
    if name == "BinGen":
        hw, sw = {"width": P["w"], "mode": P["mode"]}, {"rtype": DT[P["bt"]]}
        return lambda x: ST.BinGen(x, hw, sw)(), [hw, sw]
    if "kind" in P:
        hw = hwcfg(P["kind"], P)
        cls = getattr(K, P["kind"].upper() + name[len(P["kind"]):])
        b = W["b"] if P["bias"] else None
        if name.endswith("Linear"):
            return cls(2, 2, bias=P["bias"], weight_ext=W["l"], bias_ext=b, hwcfg=hw), [hw]
        return cls(1, 2, (2, 1), bias=P["bias"], weight_ext=W["c"], bias_ext=b, hwcfg=hw), [hw]
    if name == "HardMGUCell":
        return K.HardMGUCell(P["i"], P["o"], bias=P["bias"], hard=True), []
    raise KeyError(name)


BIN_IN = {"Linear": [(2, 2)], "Conv2d": [(1, 1, 3, 1)], "HardMGUCell": [(1, 1), (1, 2)]}


def binary_cfgs(tier, rng):
    out = []
    for name in BINARY:
        for r in range(3 if tier == "quick" else 8):
            ins = next((v for k, v in BIN_IN.items() if name.endswith(k)), [rng.choice([(2,), (1, 2), (1, 1, 2)])])
            out.append(dict(name=name, P=BINARY[name](rng), Q=BINARY[name](rng), ins=[list(x) for x in ins], g=rng.choice([2, 3])))
    return out


@scenario("X02", binary_cfgs, max_paths=200)
def isolation_binary(ctx, cfg):
    name, P, Q = cfg["name"], cfg["P"], cfg["Q"]
    d = SubDraw(ctx)
    W = {"l": d.grid("l", (2, 2), -16, 16, 4), "c": d.grid("c", (2, 1, 2, 1), -16, 16, 4), "b": d.grid("b", (2,), -16, 16, 4)}
    W0 = {k: v.clone() for k, v in W.items()}
    # raw data whose bounds are both zero have no scale, so one element is fixed; sources of a conversion are legal
    top = 2 ** cfg["g"] * (2 if name not in ("BinGen",) else 1)
    bot = 0 if name == "BinGen" and P["mode"] == "unipolar" else -top

    def make_input(nm, sh):
        n = int(np.prod(sh))
        if name == "HardMGUCell":
            return (ctx if nm == "x0" else d).grid(nm, sh, -top // 2, top // 2, cfg["g"])
        if name == "BinGen":
            return ctx.grid(nm, sh, bot, top, cfg["g"])
        sym = n - 1 if n <= 3 else 2
        parts = [ctx.grid(nm, (sym,), -top, top, cfg["g"]), torch.tensor([float(ctx.rng.choice([-2, 2]))] + [ctx.rng.randint(-top, top) / 2 ** cfg["g"] for _ in range(n - 1 - sym)])]
        return torch.cat(parts).reshape(sh)
    xs = [make_input(f"x{j}", tuple(sh)) for j, sh in enumerate(cfg["ins"])]
    x0 = snap(ctx, xs)
    one_, c1 = binary_make(name, P, W)
    s1 = copy.deepcopy(c1)
    pd = [p.clone() for p in getattr(one_, "parameters", lambda: [])()]
    with torch.no_grad():
        ctx.nsteps += 1
        o1 = one_(*xs)
        v1 = ctx.vals(o1).copy()
        ctx.check("inputs untouched", allsame(ctx, x0, xs))
        other, c2 = binary_make(name, Q, {k: v * 0.5 for k, v in W.items()})
        zs = [x * 0.5 for x in xs] if name != "BinGen" else [x.abs() for x in xs]
        z0 = snap(ctx, zs)
        other(*zs)
        ctx.check("other inputs untouched", allsame(ctx, z0, zs))
        u = snap(ctx, [one_(*zs)])[0]
        two_, c3 = binary_make(name, P, W)
        if hasattr(two_, "load_state_dict") and name == "HardMGUCell":
            two_.load_state_dict(one_.state_dict())
        ctx.nsteps += 2
        o2 = two_(*[x.clone() for x in xs])
        o3 = one_(*xs)
        ctx.check("first output stays", same(v1, ctx.vals(o1)))
        ctx.check("another instance agrees", same(v1, ctx.vals(o2)))
        ctx.check("the same call agrees", same(v1, ctx.vals(o3)))
        ctx.check("inputs untouched again", allsame(ctx, x0, xs))
        ctx.check("other call agrees", same(u, ctx.vals(two_(*zs))))
        # the caller reuses an input buffer
        xs[0].copy_(zs[0])
        ctx.check("output is not the input's buffer", name == "FSUHardtanh" or same(v1, ctx.vals(o3)))
    for p, q in zip(pd, getattr(one_, "parameters", lambda: [])()):
        ctx.check("parameters untouched", same(ctx.vals(p), ctx.vals(q)))
    for k in W:
        ctx.check(f"static data untouched: {k}", same(ctx.vals(W0[k]), ctx.vals(W[k])))
    ctx.check("configuration untouched", s1 == c1)


class SubDraw:
    """concrete draws with the context's interface"""
    def __init__(s, ctx):
        s.rng, s.ctx = ctx.rng, ctx

    def grid(s, name, shape, lo_, hi_, g=0, dtype=F32):
        return torch.tensor([s.rng.randint(lo_, hi_) for _ in range(int(np.prod(shape)))]).div(2.0 ** g).reshape(tuple(shape)).type(dtype)

    def vals(s, t):
        return s.ctx.vals(t)


# ------------------------------------------------------------------ X03
def dtype_cfgs(tier, rng):
    out = []
    for name in STREAMED:
        c = COMPS[name]
        if c.kind == "batch":
            continue
        rows = c.dts(rng)
        for D in rows[1:]:
            for S in ([1], [2]):
                for r in range(1 if tier == "quick" else 3):
                    cfg = base_cfg(name, c, tier, rng, S, rows[0])
                    cfg["E"] = D
                    out.append(cfg)
            if name == "BSGen":
                continue
            # counters past what a narrow type holds, and large registers
            for T in (140, 270):
                cfg = base_cfg(name, c, tier, rng, [1], rows[0])
                cfg["P"].update({k: v for k, v in dict(w=8, n=rng.choice([16, 64]), depth=10, d=9).items() if k in cfg["P"]})
                if name in ("SkewedSync", "FSUDiv"):
                    cfg["P"].update({k: v for k, v in dict(d=6, ss=6).items() if k in cfg["P"]})
                if name == "ShiftReg":
                    cfg["P"]["n"] = rng.choice([130, 260])
                if name in ("FSUMulStatic", "FSUMulStream", "CORDIV"):
                    cfg["P"]["d"] = rng.choice([1, 4])
                cfg.update(E=D, T=T, k=3)
                out.append(cfg)
    return out


@scenario("X03", dtype_cfgs)
def dtypes(ctx, cfg):
    c = COMPS[cfg["comp"]]
    P, D, E, S = cfg["P"], cfg["D"], cfg["E"], cfg["S"]
    A = c.static(ctx, P, S)
    m, call, _ = c.make(P, D, strip(clone(A)))
    n, call2, _ = c.make(P, E, strip(twins(ctx, "2", A)))
    for t, xs in history(ctx, "x", c, cfg):
        ctx.nsteps += 2
        o = call(m, [x.clone() for x in xs], t)
        ys = [ctx.twin(f"y{t}_{j}", x) for j, x in enumerate(xs)]
        p = call2(n, [y if cfg["comp"] == "BSGen" else y.type(DT[E["it"]]) for y in ys], t)
        for j, (u, v) in enumerate(zip(o, p)):
            if cfg["comp"] != "ShiftReg":
                ctx.check(f"declared dtype {j}", u.dtype == DT[D["st"]] and v.dtype == DT[E["st"]])
            ctx.isvalue(u)
            ctx.check(f"shape@{t}", tuple(u.shape) == tuple(v.shape))
            ctx.check(f"same bits@{t}", same(ctx.vals(u), ctx.vals(v)))


# ------------------------------------------------------------------ X04
def strided(x):
    """the same values in every other cell of a larger buffer"""
    b = torch.full(tuple(x.shape) + (2,), 7).type(x.dtype)
    b[..., 0] = x
    return b[..., 0]


def turned(x):
    """the same values with the dimensions laid out the other way round"""
    order = list(range(x.dim()))[::-1]
    return x.permute(*order).contiguous().permute(*order)


def inside(x):
    """the same values in the middle of a larger buffer"""
    b = torch.full(tuple(n + 2 for n in x.shape), 7).type(x.dtype)
    q = tuple(slice(1, n + 1) for n in x.shape)
    b[q] = x
    return b[q]


def last(x):
    return x.contiguous(memory_format=torch.channels_last) if x.dim() == 4 else turned(x)


def tracked(x):
    return torch.nn.Parameter(x.clone()) if x.is_floating_point() else x.clone()


LAYOUTS = {"strided": strided, "turned": turned, "inside": inside, "last": last}


def duplicate(ctx, m):
    try:
        return copy.deepcopy(m)
    except RuntimeError as e:
        ctx.check("can be copied", False)
        raise HarnessError(str(e))


def value_cfgs(tier, rng):
    out = []
    for name, c in COMPS.items():
        shapes = ([2], [3]) if c.kind == "batch" else ([2, 2], [1, 3])
        hows = ["layout", "layout", "copy", "copy", "mode"] + (["tracked"] if c.static is not none else [])
        for n, how in enumerate(hows * (1 if tier == "quick" else 3)):
            cfg = base_cfg(name, c, tier, rng, shapes[n % 2], rng.choice(c.dts(rng)))
            cfg.update(how=how, T=max(cfg["T"], 4))
            if how == "layout":
                cfg.update(lx=rng.choice(list(LAYOUTS)), ls=rng.choice(list(LAYOUTS)))
            if how == "copy":
                cfg.update(at=cfg["T"] - rng.choice([1, 2, 3]), who=n % 2)
            out.append(cfg)
    return out


@scenario("X04", value_cfgs)
def values_only(ctx, cfg):
    c, how = COMPS[cfg["comp"]], cfg["how"]
    P, D, S = cfg["P"], cfg["D"], cfg["S"]
    A = c.static(ctx, P, S)
    plain, call, _ = c.make(P, D, strip(clone(A)))
    B = twins(ctx, "2", A)
    if how == "layout":
        B = {k: LAYOUTS[cfg["ls"]](v) for k, v in B.items()}
    if how == "tracked":
        B = {k: tracked(v) for k, v in B.items()}
    other, call2, _ = c.make(P, D, strip(B))
    stray = None
    for t, xs in history(ctx, "x", c, cfg):
        if how == "copy" and t == cfg["at"]:
            dup = duplicate(ctx, other)
            other, stray = (dup, other) if cfg["who"] else (other, dup)
        if stray is not None:
            # the other one of the two goes its own way
            if cfg["comp"] == "BSGen":
                junk = [torch.tensor([ctx.rng.randrange(P["n"]) for _ in range(int(np.prod(S)))]).reshape(tuple(S))]
            else:
                junk = [torch.tensor([ctx.rng.randint(0, 1) for _ in range(int(np.prod(sh)))]).reshape(sh).type(DT[D["it"]]) for sh in c.ins(P, S)]
            call2(stray, junk, t)
        ctx.nsteps += 2
        ys = [ctx.twin(f"y{t}_{j}", x) for j, x in enumerate(xs)]
        if how == "layout":
            ys = [LAYOUTS[cfg["lx"]](y) for y in ys]
        o = call(plain, [x.clone() for x in xs], t)
        if how == "mode":
            # evaluation mode, gradients off
            if isinstance(other, torch.nn.Module):
                other.train(t % 3 == 2)
            with torch.set_grad_enabled(t % 2 == 1):
                p = call2(other, ys, t)
        else:
            p = call2(other, ys, t)
        for u, v in zip(o, p):
            ctx.isvalue(u)
            ctx.check(f"shape@{t}", tuple(u.shape) == tuple(v.shape) and u.dtype == v.dtype)
            ctx.check(f"same results@{t}", same(ctx.vals(u), ctx.vals(v)))


def layer_value_cfgs(tier, rng):
    return [dict(name=k + n, P=BINARY[k + n](rng), how=how, ls=rng.choice(list(LAYOUTS)), lx=rng.choice(list(LAYOUTS)), sym=rng.choice("xw"), b=rng.choice([1, 2]))
            for k in ("fxp", "hub", "tlut") for n in ("Linear", "Conv2d") for how in ("layout", "layout", "last", "tracked", "copy", "mode") * (1 if tier == "quick" else 3)]


@scenario("X04", layer_value_cfgs, max_paths=200)
def values_only_binary(ctx, cfg):
    name, P, how, B = cfg["name"], cfg["P"], cfg["how"], cfg["b"]
    lin = name.endswith("Linear")

    def some(nm, sh, sym, top):
        n = int(np.prod(sh))
        first = [ctx.grid(nm, (1,), -top, top, 3)] if sym else []
        return torch.cat(first + [torch.tensor([float(top) / 8] + [ctx.rng.randint(-top, top) / 8 for _ in range(n - 1 - len(first))])]).reshape(sh)
    W = some("w", (2, 2) if lin else (2, 2, 2, 1), cfg["sym"] == "w", 8)
    b = some("b", (2,), False, 16)
    x = some("x", (B, 2) if lin else (B, 2, 3, 2), cfg["sym"] == "x", 8)
    use = {"l": W, "c": W, "b": b}

    def make(use):
        import UnarySim.kernel as K
        from .b_layers import hwcfg
        hw = hwcfg(P["kind"], P)
        cls = getattr(K, P["kind"].upper() + name[len(P["kind"]):])
        if lin:
            return cls(2, 2, bias=P["bias"], weight_ext=use["l"], bias_ext=use["b"] if P["bias"] else None, hwcfg=hw)
        return cls(2, 2, (2, 1), bias=P["bias"], weight_ext=use["c"], bias_ext=use["b"] if P["bias"] else None, hwcfg=hw)
    plain = make({k: v.clone() for k, v in use.items()})
    fs = {"layout": LAYOUTS[cfg["ls"]], "last": last, "tracked": tracked, "copy": torch.clone, "mode": torch.clone}[how]
    fx = {"layout": LAYOUTS[cfg["lx"]], "last": last}.get(how, torch.clone)
    other = make({k: fs(ctx.twin("2" + k, v)) if k != ("c" if lin else "l") else v for k, v in use.items()})
    with torch.no_grad():
        ctx.nsteps += 2
        o = plain(x.clone())
        y = fx(ctx.twin("y", x))
        if how == "copy":
            other(y * 0.5)
            dup = duplicate(ctx, other)
            dup.weight.mul_(2)
            q = dup(y)
            ctx.check("the copy has weights of its own", same(ctx.vals(other.weight), ctx.vals(W)))
            if P["bias"]:
                dup.bias.add_(1)
                ctx.check("the copy has a bias of its own", same(ctx.vals(other.bias), ctx.vals(b)))
        if how == "mode":
            other.eval()
        with torch.set_grad_enabled(how == "mode" and not P["bias"]):
            p = other(y)
    ctx.isvalue(o)
    ctx.check("shape", tuple(o.shape) == tuple(p.shape) and o.dtype == p.dtype)
    ctx.check("same results", same(ctx.vals(o), ctx.vals(p)))
