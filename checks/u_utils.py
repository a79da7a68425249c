"""Utilities: shapes and paddings, weight clipping, truncated initialisation, shift offsets, fixed-point rounding."""
from . import scenario
from .util import *
from .b_layers import exponents, bycase, magnitude, operand


# ------------------------------------------------------------------ U01
def shape_cfgs(tier, rng):
    out = []
    top = 100 if tier == "quick" else 2000
    for st in ([1, 1], [2, 3], [3, 1], [4, 2], [1, 5], [7, 2]):
        for form in ("pairs", "scalar", "nested"):
            out.append(dict(st=st, form=form, top=top))
    return out


def pyint(v):
    return type(v) is int or isinstance(v, int)


def num(ctx, v):
    return ctx.vals(v).ravel()[0]


def params(ctx, cfg):
    """sizes, kernel, dilation and padding per axis, as symbolic integers: (as given, per axis)"""
    st = list(cfg["st"])
    I = ctx.int_
    n = cfg["top"]
    if cfg["form"] == "scalar":
        h, k, d, p = I("h", 1, n), I("k", 1, 11), I("d", 1, 4), I("p", 0, 9)
        s = st[0]
        return (h, k, s, p, d), [(h, k, s, (p, p), d)] * 2
    H, K, D = (I("h", 1, n), I("w", 1, n)), (I("kh", 1, 11), I("kw", 1, 11)), (I("dh", 1, 4), I("dw", 1, 4))
    S = tuple(st)
    if cfg["form"] == "nested":
        P = ((I("pt", 0, 5), I("pb", 0, 5)), (I("pl", 0, 5), I("pr", 0, 5)))
        ax = P
    else:
        P = (I("ph", 0, 5), I("pw", 0, 5))
        ax = ((P[0], P[0]), (P[1], P[1]))
    return (H, K, S, P, D), [(H[i], K[i], S[i], ax[i], D[i]) for i in (0, 1)]


def axes(ctx, ax):
    n = lambda v: num(ctx, v)
    return [(n(h), n(k), s, n(p[0]) + n(p[1]), n(d)) for h, k, s, p, d in ax]


@scenario("U01", shape_cfgs, max_paths=200)
def conv_shape(ctx, cfg):
    from UnarySim.kernel import conv2d_output_shape
    (h, k, s, p, d), ax = params(ctx, cfg)
    A = axes(ctx, ax)
    for H, K, S, P, D in A:
        ctx.assume(ge(H + P, D * (K - 1) + 1))
    o = conv2d_output_shape(h, kernel_size=k, stride=s, pad=p, dilation=d)
    ctx.check("a pair", len(o) == 2)
    ctx.check("integers", pyint(o[0]) and pyint(o[1]))
    for a, (v, (H, K, S, P, D)) in enumerate(zip(o, A)):
        v = num(ctx, v)
        # the last window fits and the next one does not
        ctx.check(f"last window fits, axis {a}", le((v - 1) * S + D * (K - 1) + 1, H + P))
        ctx.check(f"no further window, axis {a}", gt(v * S + D * (K - 1) + 1, H + P))


@scenario("U01", shape_cfgs, max_paths=200)
def transposed_shape(ctx, cfg):
    from UnarySim.kernel import convtransp2d_output_shape
    (h, k, s, p, d), ax = params(ctx, cfg)
    A = axes(ctx, ax)
    op = ctx.int_("op", 0, 3)
    o = convtransp2d_output_shape(h, kernel_size=k, stride=s, pad=p, dilation=d, out_pad=op)
    ctx.check("integers", pyint(o[0]) and pyint(o[1]))
    for a, (v, (H, K, S, P, D)) in enumerate(zip(o, A)):
        ctx.check(f"size, axis {a}", eq(num(ctx, v), (H - 1) * S + D * (K - 1) + 1 + num(ctx, op) - P))


@scenario("U01", lambda tier, rng: [c for c in shape_cfgs(tier, rng) if c["form"] != "nested"], max_paths=200)
def get_padding(ctx, cfg):
    from UnarySim.kernel import conv2d_get_padding, conv2d_output_shape, convtransp2d_get_padding, convtransp2d_output_shape
    (h, k, s, _, d), ax = params(ctx, cfg)
    n = cfg["top"]
    out = ctx.int_("oh", 1, n) if cfg["form"] == "scalar" else (ctx.int_("oh", 1, n), ctx.int_("ow", 1, n))
    want = [num(ctx, out)] * 2 if cfg["form"] == "scalar" else [num(ctx, v) for v in out]
    op = ctx.int_("op", 0, 3)
    for name, get, shape, kw in (("conv", conv2d_get_padding, conv2d_output_shape, {}), ("transposed", convtransp2d_get_padding, convtransp2d_output_shape, dict(out_pad=op))):
        p = get(h, out, kernel_size=k, stride=s, dilation=d, **kw)
        o = shape(h, kernel_size=k, stride=s, pad=p, dilation=d, **kw)
        for a in (0, 1):
            lo_, hi_ = (num(ctx, v) for v in p[a])
            H, K, S, _, D = axes(ctx, ax)[a]
            ctx.check(f"{name} integers, axis {a}", pyint(p[a][0]) and pyint(p[a][1]))
            ctx.check(f"{name} split, axis {a}", And(ge(hi_ - lo_, 0), le(hi_ - lo_, 1)))
            ctx.check(f"{name} reached, axis {a}", eq(num(ctx, o[a]), want[a]))
            total = (want[a] - 1) * S - H + D * (K - 1) + 1 if name == "conv" else (H - 1) * S + D * (K - 1) + 1 + num(ctx, op) - want[a]
            ctx.check(f"{name} total, axis {a}", eq(lo_ + hi_, total))


@scenario("U01", lambda tier, rng: [dict(i=i) for i in range(6)])
def real_convolution(ctx, cfg):
    """the reference above against torch's own convolutions, and the layers' shapes (values symbolic, sizes concrete)"""
    from UnarySim.kernel import conv2d_output_shape, convtransp2d_output_shape, FXPConv2d
    r = ctx.rng
    k, s, d, p = [(r.randint(1, 3), r.randint(1, 3)) for _ in range(4)]
    p = (p[0] - 1, p[1] - 1)
    h = tuple(d[i] * (k[i] - 1) + 1 + r.randint(0, 4) for i in (0, 1))
    x = ctx.grid("x", (1, 1) + h, -2, 2, 1)
    w = torch.ones(1, 1, *k)
    o = torch.nn.functional.conv2d(x, w, None, s, p, d)
    ctx.isvalue(o)
    ctx.check("convolution", tuple(o.shape[2:]) == tuple(conv2d_output_shape(h, k, s, p, d)))
    op = tuple(r.randint(0, max(s[i], d[i]) - 1) for i in (0, 1))
    q = tuple(min(p[i], (d[i] * (k[i] - 1)) // 2) for i in (0, 1))
    o = torch.nn.functional.conv_transpose2d(torch.ones(1, 1, *h), w, None, s, q, op, 1, d)
    ctx.isvalue(o)
    ctx.check("transposed", tuple(o.shape[2:]) == tuple(convtransp2d_output_shape(h, k, s, q, d, op)))


# ------------------------------------------------------------------ U02
def clip_cfgs(tier, rng):
    out = []
    for mode in ("unipolar", "bipolar"):
        for bw in (1, 2, 3, 5, 8) if tier == "quick" else (1, 2, 3, 4, 5, 6, 8, 10):
            for calls, freq in ((1, 1), (2, 1), (1, 2), (3, 5)):
                if calls == 1 and freq == 1 and bw > 5:
                    continue
                out.append(dict(mode=mode, bw=bw, calls=calls, freq=freq, shape=rng.choice([[1, 3], [2, 1], [3, 1], [2, 1, 1, 1]] if freq == 1 else [[2, 3], [1, 4], [2, 1, 2, 1]]), bias=rng.random() < .6,
                                extra=2 if freq > 1 else rng.choice([0, 1]), const=False))
        out.append(dict(mode=mode, bw=4, calls=1, freq=1, shape=[2, 1], bias=True, extra=1, const=True))
        for bw in (12, 16):
            out.append(dict(mode=mode, bw=bw, calls=1, freq=2, shape=[1, 3], bias=True, extra=2, const=False))
    return out


@scenario("U02", clip_cfgs, max_paths=200)
def clipper(ctx, cfg):
    from UnarySim.kernel import NN_SC_Weight_Clipper
    S = 2 ** cfg["bw"] if cfg["mode"] == "unipolar" else Fraction(2 ** cfg["bw"], 2)
    g = (cfg["bw"] if cfg["freq"] > 1 else 1) + cfg["extra"]
    amp = 2 if cfg["freq"] > 1 else 1.5
    sh = cfg["shape"]
    m = torch.nn.Linear(sh[1], sh[0], bias=cfg["bias"]) if len(sh) == 2 else torch.nn.Conv2d(sh[1], sh[0], tuple(sh[2:]), bias=cfg["bias"])
    for q in m.parameters():
        v = ctx.grid("p" + str(len(q.shape)), tuple(q.shape), int(-amp * 2 ** g), int(amp * 2 ** g), g)
        q.data.copy_(v[(0,) * v.dim()] if cfg["const"] else v)
    names = [n for n, _ in m.named_parameters()]
    ids = [q.data_ptr() for q in m.parameters()]
    clip = NN_SC_Weight_Clipper(frequency=cfg["freq"], mode=cfg["mode"], bitwidth=cfg["bw"])
    vals = {n: ctx.vals(q).copy() for n, q in m.named_parameters()}
    freq = cfg["freq"]
    for c in range(cfg["calls"]):
        ctx.nsteps += 1
        m.apply(clip)
        for n, q in m.named_parameters():
            old, new = vals[n], ctx.vals(q).copy()
            lo_, hi_ = (0, 1) if cfg["mode"] == "unipolar" else (-1, 1)
            L, H = old.ravel()[0], old.ravel()[0]
            for v in old.ravel():
                L, H = minv(L, v), maxv(H, v)
            for p in np.ndindex(*old.shape):
                o, w = new[p], old[p]
                tag = f"{n}{list(p)} call {c}"
                ctx.check(f"legal {tag}", And(ge(o, lo_), le(o, hi_)))
                u = o * S
                ctx.check(f"on the grid {tag}", eq(u, roundv(u)))
                near = eq(u, clampv(roundv(clampv(w, lo_, hi_) * S), lo_ * S, hi_ * S))
                if freq > 1:
                    ctx.check(f"nearest {tag}", near)
                else:
                    # normalised to the whole range: at most half a step from lo + (w - L) / (H - L) * (hi - lo)
                    R = H - L
                    d = (u - lo_ * S) * R - (w - L) * (hi_ - lo_) * S
                    ctx.check(f"normalised {tag}", Or(And(gt(R, 0), le(absv(d) * 2, R)), And(le(R, 0), near)))
            vals[n] = new
        freq += 1
    ctx.check("same parameters", names == [n for n, _ in m.named_parameters()] and ids == [q.data_ptr() for q in m.parameters()])


# ------------------------------------------------------------------ U03
def trunc_cfgs(tier, rng):
    out = []
    for mean, std in ((0.0, 0.01), (0.0, 1.0), (0.5, 0.25), (-1.0, 0.1)):
        for shape, R in (([1], 2), ([2], 2), ([1], 3), ([2, 1], 1), ([3], 1)):
            out.append(dict(mean=mean, std=std, shape=shape, R=R))
    out.append(dict(mean=None, std=None, shape=[2], R=2))
    return out


def _one(v):
    """the only value of a number or constant tensor"""
    return float(torch.as_tensor(v, dtype=torch.float64).reshape(-1)[0])


@scenario("U03", trunc_cfgs, max_paths=400)
def truncated(ctx, cfg):
    """the first R draws are arbitrary floats, later ones equal the mean"""
    from UnarySim.kernel import truncated_normal
    mean, std = (0.0, 0.01) if cfg["mean"] is None else (cfg["mean"], cfg["std"])
    draws, asked = [], []
    old = torch.Tensor.normal_

    def normal_(t, m=0, s=1, *, mean=None, std=None, generator=None):
        m, s = m if mean is None else mean, s if std is None else std
        asked.append((float(m), float(s), tuple(t.shape)))
        if len(draws) < cfg["R"]:
            d = ctx.floats(f"d{len(draws)}", tuple(t.shape), m - 8 * s, m + 8 * s)
            draws.append(ctx.vals(d).copy())
        else:
            d = torch.full(tuple(t.shape), float(m))
        return t.copy_(d)
    other = {n: getattr(torch, n) for n in ("normal", "randn", "randn_like")}

    def normal(m=0.0, s=1.0, size=None, *, mean=None, std=None, generator=None, out=None, **kw):
        m, s = m if mean is None else mean, s if std is None else std
        if size is None:
            return normal_(torch.zeros(m.shape if isinstance(m, torch.Tensor) else s.shape), _one(m), _one(s))
        return normal_(torch.zeros(tuple(size)), m, s)

    def randn(*size, **kw):
        scaled.append(True)
        return normal_(torch.zeros(tuple(size[0]) if size and not isinstance(size[0], int) else size or tuple(kw["size"])), 0.0, 1.0)
    torch.Tensor.normal_, torch.normal, torch.randn, torch.randn_like = normal_, normal, randn, lambda t, **kw: randn(*t.shape)
    scaled = []
    try:
        t = torch.zeros(*cfg["shape"])
        o = truncated_normal(t) if cfg["mean"] is None else truncated_normal(t, mean=mean, std=std)
    finally:
        torch.Tensor.normal_ = old
        for n, f in other.items():
            setattr(torch, n, f)
    ctx.isvalue(o)
    ctx.check("shape and dtype", tuple(o.shape) == tuple(cfg["shape"]) and o.dtype == F32)
    ctx.check("distribution", all(a[:2] == (mean, std) for a in asked) or bool(scaled))
    # code that draws the missing elements only: every element is still a draw, kept as it is
    whole = all(a[2] == tuple(cfg["shape"]) for a in asked)
    lo_, hi_ = (ir.norm(float(torch.tensor(v, dtype=F32))) for v in (mean - 2 * std, mean + 2 * std))
    ov = ctx.vals(o)
    for p in np.ndindex(*ov.shape):
        ctx.check(f"within@{list(p)}", And(ge(ov[p], lo_), le(ov[p], hi_)))
        want = ir.norm(float(torch.tensor(mean, dtype=F32)))
        if scaled:
            continue        # standard draws that the code scales itself
        if not whole:
            ctx.check(f"a draw@{list(p)}", Or(*[eq(ov[p], v) for v in [want] + [v for d in draws for v in d.ravel()]]))
            continue
        for d in draws[::-1]:
            want = ite(And(ge(d[p], lo_), le(d[p], hi_)), d[p], want)
        ctx.check(f"first legal draw@{list(p)}", eq(ov[p], want))


# ------------------------------------------------------------------ U04
def offset_cfgs(tier, rng):
    out = []
    for r in ("round", "floor", "ceil"):
        for n, (hx, hw) in enumerate((("free", "conc"), ("conc", "free"), ("anch", "anch"), ("free", "free"), ("zero", "free"), ("free", "zero"))):
            for nx, nw in ((1, 1), (2, 1), (1, 3)):
                q = rng.choice([1, 1, 0.5])
                out.append(dict(r=r, hx=hx, hw=hw, nx=nx, nw=nw, wi=rng.randint(1, 8), ww=rng.randint(1, 8), g=rng.choice([1, 2, 3]), qi=q if nx > 1 else 1, qw=rng.choice([1, 1, 0.75]) if nw > 1 else 1, amp=rng.choice([1, 2, 6])))
    # narrow quantiles, wide formats
    for r, nx, nw, qi, qw, wi, ww in (("round", 3, 3, 0.0625, 0.125, 8, 5), ("floor", 2, 3, 1, 0.0625, 16, 12), ("ceil", 3, 2, 0.03125, 0.125, 11, 20)):
        out.append(dict(r=r, hx="free" if nx == 3 else "conc", hw="conc" if nx == 3 else "free", nx=nx, nw=nw, wi=wi, ww=ww, g=1, qi=qi, qw=qw, amp=1))
    return out


@scenario("U04", offset_cfgs, max_paths=400)
def offsets(ctx, cfg):
    from UnarySim.kernel import rshift_offset
    x = operand(ctx, "x", (cfg["nx"],), cfg["hx"], cfg["g"], cfg["amp"])
    w = operand(ctx, "w", (cfg["nw"],), cfg["hw"], cfg["g"], 1)
    xv, wv = ctx.vals(x).copy(), ctx.vals(w).copy()
    si, sw, so = rshift_offset(x, w, cfg["wi"], cfg["ww"], cfg["r"], cfg["qi"], cfg["qw"])
    ei, ew = exponents(magnitude(xv, cfg["qi"]), cfg["r"]), exponents(magnitude(wv, cfg["qw"]), cfg["r"])
    a, b, c = ctx.val(si), ctx.val(sw), ctx.val(so)
    ki, kw = bycase(ei, lambda k: k), bycase(ew, lambda k: k)
    ctx.check("input offset", eq(a, ki - cfg["wi"]))
    ctx.check("weight offset", eq(b, kw - cfg["ww"]))
    ctx.check("output offset", eq(c, max(cfg["wi"], cfg["ww"]) - ki - kw))
    ctx.check("operands untouched", And(same(xv, ctx.vals(x)), same(wv, ctx.vals(w))))


# ------------------------------------------------------------------ B05
@scenario("B05", lambda tier, rng: [dict(i=i, f=f, n=n) for i, f, n in ((3, 4, 2), (1, 2, 3), (0, 3, 2), (4, 0, 1))])
def ste(ctx, cfg):
    """the gradient of the rounding function, and no rounding of nothing"""
    from UnarySim.kernel import Round, RoundSTE
    g = ctx.grid("g", (cfg["n"],), -16, 16, 3)
    gv = ctx.vals(g).copy()
    r = RoundSTE.backward(None, g)
    ctx.check("straight through", same(ctx.vals(r[0]), gv))
    ctx.check("nothing for the format", tuple(r[1:]) == (None,) * 3)
    m = Round(cfg["i"], cfg["f"])
    ctx.check("nothing stays nothing", m(None) is None)
    ctx.check("format", (m.intwidth, m.fracwidth) == (cfg["i"], cfg["f"]))


@scenario("B05", lambda tier, rng: [dict(i=i, f=f, n=n) for i, f, n in ((3, 4, 2), (1, 2, 3), (0, 3, 2), (4, 1, 1))])
def rounding(ctx, cfg):
    from UnarySim.kernel import Round
    f, top = cfg["f"], 2 ** (cfg["i"] + cfg["f"]) - 1
    x = ctx.grid("x", (cfg["n"],), -2 ** (cfg["i"] + f + 3), 2 ** (cfg["i"] + f + 3), f + 2)
    xv = ctx.vals(x).copy()
    x.requires_grad_(True)
    o = ctx.step(Round(cfg["i"], f), x)
    ov = ctx.vals(o)
    for p in range(cfg["n"]):
        ctx.check(f"value@{p}", eq(ov[p] * 2 ** f, clampv(roundv(xv[p] * 2 ** f), -top, top)))
    g = ctx.grid("g", (cfg["n"],), -16, 16, 3)
    gv = ctx.vals(g).copy()
    o.backward(g)
    ctx.check("gradient", same(ctx.vals(x.grad), gv))
    ctx.check("untouched", same(ctx.vals(x), xv))


@scenario("B05", lambda tier, rng: [dict(i=i, f=f, I=I, H=H, bias=b) for i, f in ((2, 3), (4, 1)) for I, H in ((2, 1), (1, 3)) for b in (True, False)])
def fxp_parts(ctx, cfg):
    """the fixed-point recurrent cell as constructed: parameters of the right shape within two standard deviations, and its format"""
    from UnarySim.kernel import HardMGUCellFXP
    I, H = cfg["I"], cfg["H"]
    m = HardMGUCellFXP(I, H, bias=cfg["bias"], hard=True, intwidth=cfg["i"], fracwidth=cfg["f"])
    want = {"weight_f": (H, H + I), "weight_n": (H, H + I)}
    if cfg["bias"]:
        want.update(bias_f=(H,), bias_n=(H,))
    got = {k: tuple(v.shape) for k, v in m.named_parameters()}
    ctx.check("parameters", got == want)
    for k, v in m.named_parameters():
        ctx.check(f"initial {k}", bool((v.detach().abs() <= 2 / math.sqrt(H)).all()))
    ctx.check("format", [(q.intwidth, q.fracwidth) for q in m.modules() if hasattr(q, "fracwidth")] == [(cfg["i"], cfg["f"])])


@scenario("B05", lambda tier, rng: [dict(i=2, f=3, hard=h) for h in (True, False)])
def fxp_cell(ctx, cfg):
    """the fixed-point recurrent cell runs"""
    from UnarySim.kernel import HardMGUCellFXP
    m = HardMGUCellFXP(2, 1, bias=True, hard=cfg["hard"], intwidth=cfg["i"], fracwidth=cfg["f"])
    x = ctx.grid("x", (1, 2), -8, 8, 3)
    o = ctx.step(m, x, torch.zeros(1, 1))
    ctx.check("in range", And(ge(ctx.val(o), -1), le(ctx.val(o), 1)))
