"""Binary-domain layers: quantised operands, exact accumulation, straight-through gradients."""
from . import scenario
from .util import *
from .l_layers import unfold_ref, pair, tup
from .s_stream import sort_net


def operand(ctx, name, shape, how, g, amp=1):
    """a tensor whose largest magnitude is known ('anchored': one element is fixed at +-amp, the
    others range over the grid), or not ('free'), or which is concrete"""
    n = int(np.prod(shape))
    top = int(amp * 2 ** g)
    if how == "free":
        return ctx.grid(name, shape, -top, top, g)
    if how == "zero":
        return torch.zeros(*shape)
    if how == "conc":
        v = [ctx.rng.choice([-top, top, ctx.rng.randint(-top, top), ctx.rng.randint(-top, top)]) for _ in range(n)]
        v[ctx.rng.randrange(n)] = ctx.rng.choice([top, -top])
        return torch.tensor(v).div(2.0 ** g).reshape(tuple(shape))
    if how == "few":
        # the anchor and all but two elements are concrete
        sign, pos = ctx.rng.choice([1, -1]), ctx.rng.sample(range(n), 3)
        v = torch.tensor([float(ctx.rng.randint(-top, top)) for _ in range(n)]).div(2.0 ** g)
        v[pos[0]] = float(sign * amp)
        v[pos[1:]] = ctx.grid(name, (2,), -top, top, g)
        return v.reshape(tuple(shape))
    sign, pos = ctx.rng.choice([1, -1]), ctx.rng.randrange(n)
    a = torch.tensor([float(sign * amp)])
    if n == 1:
        return a.reshape(tuple(shape))
    x = ctx.grid(name, (n - 1,), -top, top, g)
    return torch.cat([x[:pos], a, x[pos:]]).reshape(tuple(shape))


def quantile(srt, p):
    pos = p * (len(srt) - 1)
    i = math.floor(pos)
    f = pos - i
    return srt[i] if f == 0 else srt[i] * (1 - f) + srt[i + 1] * f


def magnitude(vals, q=1):
    """the larger bound in magnitude of the central quantile interval"""
    xs = list(np.asarray(vals, dtype=object).ravel())
    if q == 1:
        m = absv(xs[0])
        for x in xs[1:]:
            m = maxv(m, absv(x))
        return m
    s, q = sort_net(xs), Fraction(q)
    return maxv(absv(quantile(s, Fraction(1, 2) - q / 2)), absv(quantile(s, Fraction(1, 2) + q / 2)))


def exponents(s, rounding):
    """the integer power of two a positive magnitude is rated at (0 for zero): [(exponent, condition)]"""
    s = ir.norm(s)
    top = int(math.ceil(math.log2(max(float(ir.hi(s)), 1e-9)))) + 1
    bot = top - 24
    out, s2 = [], s * s
    for k in range(top, bot, -1):
        if rounding == "floor":
            c = And(le(Fraction(2) ** k, s), lt(s, Fraction(2) ** (k + 1)))
        elif rounding == "ceil":
            c = And(lt(Fraction(2) ** (k - 1), s), le(s, Fraction(2) ** k))
        else:
            c = And(le(Fraction(2) ** (2 * k - 1), s2), lt(s2, Fraction(2) ** (2 * k + 1)))
        if c is not False:
            out.append((k, c))
    z = eq(s, 0)
    if z is not False:
        out.append((0, z))
    return out


def bycase(cases, f):
    """f(exponent) of the case that holds"""
    r = f(cases[-1][0])
    for k, c in cases[-2::-1]:
        r = ite(c, f(k), r)
    return r


def sgn(v):
    return ite(gt(v, 0), 1, ite(lt(v, 0), -1, 0))


def cyc(w, kind):
    return rng_ref(kind, w, 1)


def hub_count(i, w, seq_i, seq_w, wtc):
    """ones of a conditional multiplication of two magnitudes below the period"""
    if wtc:
        i, w, ctl, seq = w, i, seq_w, seq_i      # the temporal operand controls the other
    else:
        ctl, seq = seq_i, seq_w
    # the controlled generator advances once per one of the controller's stream
    n = len(seq)
    if sorted(ctl) != list(range(n)):
        i = Sum([b2i(gt(i, r)) for r in ctl])
    tot = 0
    for t in range(n):
        tot = tot + b2i(And(gt(i, t), gt(w, seq[t])))
    return tot


def digits(m, t, degree, cycle):
    """every t-bit digit of a non-negative integer saturates below the cycle count"""
    return Sum([minv(modc(floorv(m * Fraction(1, 2 ** (j * t))), 2 ** t), cycle - 1) * 2 ** (j * t) for j in range(degree)])


class Linear:
    """how each layer maps one input value, one weight value and their exponents to a product"""
    def __init__(s, kind, cfg, xs, ws, m=None):
        s.kind, s.cfg = kind, cfg
        wi, ww, r = cfg["wi"] - 1, cfg["ww"] - 1, cfg["r"]
        s.wi, s.ww = wi, ww
        s.wrap_i = s.wrap_w = lambda v: v
        if kind == "tlutfp":
            return
        s.ei = exponents(magnitude(xs, cfg.get("qi", 1)), r)
        s.ew = exponents(magnitude(ws, cfg.get("qw", 1)), r)
        if kind == "hub":
            c = 2 ** max(wi, ww)
            s.cyc = c if cfg["cycle"] is None else min(cfg["cycle"], c)
            # pseudo-random sequences differ from layer to layer: they are the layer's own
            s.si, s.sw = [[int(v) for v in seq.tolist()] if r.lower() in ("lfsr", "sys") else cyc(n, r)
                          for n, r, seq in ((wi, cfg["ri"], m.irng), (ww, cfg["rw"], m.wrng))]
            s.wtc = cfg["rw"].lower() in ("race", "tc", "race10", "tc10")

    def scaled(s, cases, v, width, f):
        """f applied to v in units of its step, back in real units"""
        return bycase(cases, lambda k: f(v * Fraction(2) ** (width - k)) * Fraction(2) ** (k - width))

    def i(s, v):
        c = s.cfg
        if s.kind == "fxp":
            top = 2 ** c["wi"] - 1
            return s.scaled(s.ei, v, s.wi, lambda u: clampv(roundv(u), -top, top))
        return s.tlut(v, "i", s.ei if hasattr(s, "ei") else None, s.wi)

    def w(s, v):
        c = s.cfg
        if s.kind == "fxp":
            top = 2 ** c["ww"] - 1
            return s.scaled(s.ew, v, s.ww, lambda u: clampv(roundv(u), -top, top))
        return s.tlut(v, "w", s.ew if hasattr(s, "ew") else None, s.ww)

    def tlut(s, v, which, cases, width):
        c = s.cfg
        temporal = c["temporal"].lower()[0] == which
        t = c["t"]
        cap = 2 ** t if c["cycle"] is None else min(c["cycle"], 2 ** t)
        if s.kind == "tlutfp":
            if not temporal:
                return v
            width = {"bfloat16": 8, "float16": 11, "float32": 24}[c["f" + which]]
            m, d = absv(v), -(-width // t)
            # mantissa as an integer of `width` bits
            ks = exponents(m, "floor")
            r = bycase(ks, lambda k: digits(m * Fraction(2) ** (width - k - 1), t, d, cap) * Fraction(2) ** (k + 1 - width))
            return r * sgn(v)
        if s.kind == "tlutmix":
            if not temporal:
                return v
            width = {"fxp": width, "bfloat16": 8, "float16": 11, "float32": 24}[c["f" + which]]
        top = 2 ** width - 1
        d = -(-width // t)

        def q(u):
            m = minv(floorv(absv(u)), top)
            return (digits(m, t, d, cap) if temporal else m) * sgn(v)
        return s.scaled(cases, v, width, q)

    def prod(s, x, w):
        if s.kind == "hub":
            mag = lambda cases, v, width: bycase(cases, lambda k: clampv(absv(roundv(v * Fraction(2) ** (width - k))), 0, s.cyc - 1))
            n = hub_count(mag(s.ei, x, s.wi), mag(s.ew, w, s.ww), s.si, s.sw, s.wtc)
            m = max(s.wi, s.ww)
            f = bycase(s.ei, lambda a: bycase(s.ew, lambda b: Fraction(2) ** (a + b - m)))
            return n * sgn(x) * sgn(w) * f
        raise KeyError(s.kind)

    def row(s, xs, ws):
        if s.kind == "hub":
            return Sum([s.prod(x, w) for x, w in zip(xs, ws)])
        return Sum([s.i(x) * s.w(w) for x, w in zip(xs, ws)])


def hwcfg(kind, c):
    if kind == "fxp":
        return {"widthi": c["wi"], "quantilei": c["qi"], "widthw": c["ww"], "quantilew": c["qw"], "rounding": c["r"]}
    if kind == "hub":
        return {"widthi": c["wi"], "rngi": c["ri"], "quantilei": c["qi"], "widthw": c["ww"], "rngw": c["rw"], "quantilew": c["qw"], "cycle": c["cycle"], "rounding": c["r"], "signmag": True}
    return {"temporal": c["temporal"], "widtht": c["t"], "formati": c["fi"], "widthi": c["wi"], "quantilei": c["qi"], "formatw": c["fw"], "widthw": c["ww"], "quantilew": c["qw"],
            "cycle": c["cycle"], "rounding": c["r"], "signmag": True}


SHAPES = [  # hx, hw, in, out, batch
    ("anch", "anch", 2, 1, 1), ("anch", "conc", 3, 2, 1), ("conc", "anch", 2, 2, 2), ("free", "conc", 1, 2, 1), ("free", "conc", 2, 1, 1), ("conc", "free", 1, 1, 2), ("anch", "anch", 1, 2, 2),
    ("anch", "anch", 3, 1, 1), ("anch", "zero", 2, 1, 1), ("zero", "anch", 2, 2, 1), ("anch", "conc", 3, 1, 2)]
CONVS = [  # ci, h, w, co, ks, st, pd, dl
    (1, 2, 3, 1, 2, 1, 0, 1), (1, 3, 3, 2, [2, 1], [1, 2], [0, 1], 1), (2, 2, 2, 1, 1, 1, 1, 1), (1, 3, 4, 1, 2, 1, 1, [1, 2]), (1, 3, 2, 2, [1, 2], [2, 1], 0, 1)]


def base(rng, i, tier):
    c = dict(r=["round", "floor", "ceil", "round"][i % 4], qi=1, qw=1, bias=rng.random() < .6, amp=[1, 1, 0.5, 2, 0.75][i % 5], ampw=rng.choice([1, 0.5, 1.5]), extra=rng.choice([0, 1, 2]))
    if i % 5 in (1, 3):
        c["own"] = True         # no external operands: the layer's own parameters
    return c


def layer_cfgs(kind):
    def cfgs(tier, rng):
        out = []
        reps = {"fxp": 3, "hub": 2, "tlut": 2}[kind] + (0 if tier == "quick" else 3)
        deep = 0 if tier == "quick" else 1
        for rep in range(reps):
            for n, sh in enumerate(SHAPES + CONVS):
                c = base(rng, n + rep, tier)
                if len(sh) == 5:
                    c.update(hx=sh[0], hw=sh[1], i=sh[2], o=sh[3], b=sh[4])
                    both = sh[0] == sh[1] == "anch"
                else:
                    c.update(conv=list(sh), b=rng.choice([1, 1, 2]), hx=rng.choice(["anch", "conc"]))
                    c["hw"] = "conc" if c["hx"] == "anch" else "anch"
                    both = False
                w = rng.choice([3, 4]) if both else rng.choice([2, 3, 4, 5, 6])
                c.update(wi=w + deep, ww=w + deep)
                if kind == "hub":
                    c["wi"] = c["ww"] = min(c["wi"], 5)
                    c.update(ri=rng.choice(["Sobol", "rc", "sobol", "race", "tc10"]), rw="Sobol")
                    if c["ri"] in ("Sobol", "sobol") and rng.random() < .5:
                        c["rw"] = rng.choice(["race", "RACE10", "tc"])
                    if (n + rep) % 4 == 1:
                        c.update(ri=rng.choice(["lfsr", "sys", "LFSR"]), rw=rng.choice(["Sobol", "sys", "lfsr"]))
                    c["cycle"] = rng.choice([None, None, 2 ** (c["wi"] - 1), 2 ** (c["wi"] - 2) + 1, 3, 1000])
                else:
                    c["ww"] = rng.choice([2, 3, c["ww"]])
                if kind == "tlut":
                    c["extra"] = min(c["extra"], 1 if not both else 0)
                    c.update(temporal=rng.choice(["i", "w", "input", "Weight"]), t=rng.choice([1, 2, 3, 4]), fi="fxp", fw="fxp")
                    c["cycle"] = rng.choice([None, None, 1, 2, 3, 2 ** c["t"], 2 ** c["t"] - 1])
                    c["mode"] = ["fxpfxp", "mix", "fpfp"][(n + rep) % 3]
                    if c["mode"] == "mix":
                        c[rng.choice(["fi", "fw"])] = "bfloat16"
                    if c["mode"] == "fpfp":
                        c["fi"], c["fw"] = rng.choice(["bfloat16", "float16", "float32"]), rng.choice(["bfloat16", "float16", "float32"])
                if "free" in (c["hx"], c["hw"]) and tier == "quick":
                    c.update(wi=min(c["wi"], 4), ww=min(c["ww"], 4), extra=min(c["extra"], 1))
                if rng.random() < .2 and c["hx"] == "conc":
                    c["qi"] = 0.5
                if rng.random() < .2 and c["hw"] == "conc":
                    c["qw"] = 0.75
                out.append(c)
        # the widths people use, and many features
        for n, (wi, ww, sh) in enumerate(((8, 8, dict(i=2, o=1)), (10, 6, dict(i=2, o=2)), (7, 9, dict(conv=[1, 2, 2, 1, [1, 2], 1, 0, 1])), (4, 5, dict(i=14, o=1)), (3, 3, dict(i=40, o=2)), (8, 8, dict(i=9, o=1)))):
            c = dict(base(rng, n, tier), b=1, wi=wi, ww=ww, amp=1, ampw=1, extra=1, **sh)
            c["hx"], c["hw"] = ("anch", "conc") if n % 2 == 0 else ("conc", "anch")
            if kind != "fxp" and n > 2:
                c["hx"], c["hw"] = ("few", "conc") if n % 2 == 0 else ("conc", "few")
            if kind == "hub":
                if wi == 10:
                    c.update(i=2, o=1, wi=9)
                c.update(ww=wi, ri="Sobol", rw=rng.choice(["Sobol", "race"]), cycle=rng.choice([None, 2 ** (wi - 1) - 1]))
                c["ww"] = c["wi"]
            if kind == "tlut":
                c.update(temporal="iw"[n % 2], t=[4, 7, 8, 3, 2, 5][n], fi="fxp", fw="fxp", mode="fxpfxp", cycle=None, extra=0)
                c["cycle"] = [None, 100, None, 5, None, 17][n]
            out.append(c)
        if kind == "tlut":
            # every operand format of the temporal operand, with digits that saturate
            n = 0
            for shape in (dict(i=2, o=1), dict(conv=[1, 1, 3, 1, [1, 2], 1, 0, 1])):
                for temporal in "iw":
                    for mode, mine, other in [("fxpfxp", "fxp", "fxp"), ("mix", "fxp", "bfloat16")] + [(m, f, o) for f in ("bfloat16", "float16", "float32") for m, o in (("mix", "fxp"), ("fpfp", rng.choice(["bfloat16", "float16", "float32"])))]:
                        t = rng.choice([2, 3, 4])
                        n += 1
                        c = dict(base(rng, n, tier), b=1, wi=rng.choice([4, 5]), ww=rng.choice([4, 5]), temporal=temporal, t=t, mode=mode, cycle=rng.choice([2 ** t - 1, 2 ** (t - 1), 2 ** t // 2 + 1]), **shape)
                        c["extra"] = 1
                        c["f" + temporal], c["fw" if temporal == "i" else "fi"] = mine, other
                        c["hx"], c["hw"] = ("anch", "conc") if temporal == "i" else ("conc", "anch")
                        if mine == "float32" and mode == "mix":
                            # 24 one bits times a weight do not fit a float32: stay below saturation
                            c.update(r=rng.choice(["round", "ceil"]), amp=0.75, ampw=0.75)
                        out.append(c)
        return out
    return cfgs


def build(kind, cfg):
    import UnarySim.kernel as K
    return getattr(K, {"fxp": "FXP", "hub": "HUB", "tlut": "TLUT"}[kind] + ("Conv2d" if "conv" in cfg else "Linear"))


def setup(ctx, kind, cfg):
    """the layer, its input and the values of everything it is given"""
    gx, gw = max(cfg["wi"], 2) + cfg["extra"], max(cfg["ww"], 2) + cfg["extra"]
    B = cfg["b"]
    if "conv" in cfg:
        ci, h, w, co, ks, st, pd, dl = cfg["conv"]
        xs, ws = (B, ci, h, w), (co, ci) + pair(ks)
    else:
        xs, ws, co = (B, cfg["i"]), (cfg["o"], cfg["i"]), cfg["o"]
    x = operand(ctx, "x", xs, cfg["hx"], gx, cfg["amp"])
    W = operand(ctx, "w", ws, cfg["hw"], gw, cfg["ampw"])
    b = ctx.grid("bias", (co,), -2 ** 6, 2 ** 6, 5) if cfg["bias"] else None
    hw = hwcfg(kind, cfg)
    hw0 = dict(hw)
    cls = build(kind, cfg)
    # a bias that is given but switched off
    spare = torch.ones(co) if not cfg["bias"] and cfg["extra"] % 2 == 0 else b
    ext = dict(bias=cfg["bias"], hwcfg=hw) if cfg.get("own") else dict(bias=cfg["bias"], weight_ext=W, bias_ext=spare, hwcfg=hw)
    if "conv" in cfg:
        m = cls(ci, co, tup(ks), tup(st), tup(pd), tup(dl), **ext)
    else:
        m = cls(cfg["i"], cfg["o"], **ext)
    trained = {n for n, p in m.named_parameters() if p.requires_grad}
    ctx.check("trainable parameters", trained == ({"weight", "bias"} if cfg["bias"] else {"weight"}))
    if cfg.get("own"):
        ctx.check("parameter shapes", tuple(m.weight.shape) == tuple(ws) and (b is None or tuple(m.bias.shape) == (co,)))
        m.weight.data = W
        if b is not None:
            m.bias.data = b
    ctx.check("config untouched", hw == hw0)
    return m, x, W, b


def expected(kind, cfg, xv, wv, bv, m=None):
    k = kind if kind != "tlut" else {"fxpfxp": "tlut", "mix": "tlutmix", "fpfp": "tlutfp"}[cfg["mode"]]
    ref = Linear(k, cfg, xv, wv, m)
    add = lambda s, o: s if bv is None else s + bv[o]
    if "conv" not in cfg:
        return arr((xv.shape[0], wv.shape[0]), lambda p: add(ref.row(list(xv[p[0]]), list(wv[p[1]])), p[1]))
    g = dict(zip(("ks", "st", "pd", "dl"), cfg["conv"][4:]))
    res = []
    for n in range(xv.shape[0]):
        oh, ow, win = unfold_ref(xv[n], g, 0)
        res.append(arr((wv.shape[0], oh, ow), lambda p: add(ref.row(win[p[1:]], list(wv[p[0]].ravel())), p[0])))
    return np.stack(res)


def forward(kind):
    def fn(ctx, cfg):
        m, x, W, b = setup(ctx, kind, cfg)
        xv, wv = ctx.vals(x).copy(), ctx.vals(W).copy()
        bv = None if b is None else ctx.vals(b).copy()
        with torch.no_grad():
            o = ctx.step(m, x)
        want = expected(kind, cfg, xv, wv, bv, m)
        meta(ctx, "output", o, want.shape, F32)
        ov = ctx.vals(o)
        for p in np.ndindex(*want.shape):
            ctx.check(f"value@{list(p)}", eq(ov[p], want[p]))
        ctx.check("input untouched", same(xv, ctx.vals(x)))
        ctx.check("weight untouched", And(same(wv, ctx.vals(m.weight)), same(wv, ctx.vals(W))))
        if b is not None:
            ctx.check("bias untouched", same(bv, ctx.vals(m.bias)))
        if cfg.get("again", True):
            # a second call on something else, then the same again
            with torch.no_grad():
                ctx.step(m, x * 0.5)
                o2 = ctx.step(m, x)
            ctx.check("first result kept", same(ov, ctx.vals(o)))
            ctx.check("same again", same(ov, ctx.vals(o2)))
    return fn


def mixed_cfgs(tier, rng):
    return [dict(base(rng, i, tier), hx="anch", hw="conc", i=2, o=1, b=1, wi=a, ww=b, ri="Sobol", rw="Sobol", cycle=None) for i, (a, b) in enumerate(((4, 3), (3, 5)))]


@scenario("B02", mixed_cfgs)
def mixed_widths(ctx, cfg):
    forward("hub")(ctx, cfg)


for pid, kind in (("B01", "fxp"), ("B02", "hub"), ("B03", "tlut")):
    scenario(pid, layer_cfgs(kind), max_paths=400)(forward(kind))


# ------------------------------------------------------------------ B04 gradients
TINY = (1, 1, 2, 1, 1, 1, 0, 1)


def grad_cfgs(tier, rng):
    out = []
    for rep in range(1 if tier == "quick" else 3):
        for kind, mode in (("fxp", None), ("hub", None), ("tlut", "fxpfxp"), ("tlut", "mix"), ("tlut", "fpfp")):
            for n, (sh, bias, need, batch) in enumerate([
                    ((2, 1), True, "xwb", 2), ((1, 2), True, "xwb", 3), ((3, 2), True, rng.choice(["w", "x", "xb", "b", "wb"]), rng.choice([1, 2])), ((2, 2), False, rng.choice(["xw", "w", "x"]), 2),
                    (CONVS[rng.randrange(5)], True, "xwb", 2), (CONVS[rng.randrange(5)], True, rng.choice(["xwb", "w", "x", "xb"]), 1), (CONVS[rng.randrange(5)], False, rng.choice(["xw", "w", "x"]), rng.choice([1, 2])),
                    ((3, 2), True, "xwb", 9), ((12, 5), True, "xwb", 3), ((1, 5, 7, 2, [2, 3], 1, [1, 0], 1), True, "xwb", 1), ((3, 2, 2, 4, 2, 1, 0, 1), False, "xw", 5),
                    ((2, 1), True, "all", 1), ((1, 2), False, "all", 1), (TINY, True, "all", 1), (TINY, False, "all", 1)]):
                c = base(rng, n + rep, tier)
                if len(sh) == 2:
                    c.update(i=sh[0], o=sh[1], b=batch)
                else:
                    c.update(conv=list(sh), b=batch)
                c.update(kind=kind, wi=rng.choice([3, 4]), hx="anch", hw="anch", amp=1, ampw=1, ri="Sobol", rw="Sobol", cycle=None, need=need, bias=bias)
                c["ww"] = c["wi"]
                if batch > 4 or sh[0] == 12 or sh[:2] == (1, 5):
                    c.update(hx="few", hw="few")
                if kind == "tlut":
                    c.update(temporal=rng.choice(["i", "w"]), t=2, fi="fxp", fw="fxp", mode=mode, cycle=rng.choice([None, 2]))
                    if c["mode"] == "mix":
                        c[rng.choice(["fi", "fw"])] = "bfloat16"
                    if c["mode"] == "fpfp":
                        c["fi"], c["fw"] = "bfloat16", "float32"
                out.append(c)
    return out


@scenario("B04", grad_cfgs, max_paths=100)
def gradients(ctx, cfg):
    kind = cfg["kind"]
    m, x, W, b = setup(ctx, kind, dict(cfg, bias=cfg["bias"]))
    xv, wv = ctx.vals(x).copy(), ctx.vals(W).copy()
    if cfg["need"] != "all":
        return one_backward(ctx, cfg, m, x, W, xv, wv, cfg["need"] if cfg["bias"] else cfg["need"].replace("b", ""))
    names = "xwb" if cfg["bias"] else "xw"
    for k in range(1, 2 ** len(names)):
        need = "".join(c for i, c in enumerate(names) if k >> i & 1)
        one_backward(ctx, cfg, m, x, W, xv, wv, need)
        for t in (x, m.weight, m.bias):
            if t is not None:
                t.grad = None


def one_backward(ctx, cfg, m, x, W, xv, wv, need):
    x.requires_grad_("x" in need)
    m.weight.requires_grad_("w" in need)
    if cfg["bias"]:
        m.bias.requires_grad_("b" in need)
    o = ctx.step(m, x)
    ctx.isvalue(o)
    g = ctx.grid(f"g.{need}", tuple(o.shape), -8, 8, 2)
    gv = ctx.vals(g).copy()
    o.backward(g)
    if "conv" in cfg:
        geo = dict(zip(("ks", "st", "pd", "dl"), cfg["conv"][4:]))
        where = np.empty(xv.shape[1:], dtype=object)
        for p in np.ndindex(*where.shape):
            where[p] = p
        _, _, win = unfold_ref(where, geo, None)
        gx, gw = arr(xv.shape, lambda p: 0), arr(wv.shape, lambda p: 0)
        flat = [p for p in np.ndindex(*wv.shape[1:])]
        for n in range(xv.shape[0]):
            for pos, src in win.items():
                for c in range(wv.shape[0]):
                    u = gv[(n, c) + pos]
                    for f, s in zip(flat, src):
                        if s is not None:
                            gx[(n,) + s] = gx[(n,) + s] + u * wv[(c,) + f]
                            gw[(c,) + f] = gw[(c,) + f] + u * xv[(n,) + s]
        gb = arr((wv.shape[0],), lambda p: Sum(list(gv[:, p[0]].ravel())))
    else:
        gx = arr(xv.shape, lambda p: Sum([gv[p[0], j] * wv[j, p[1]] for j in range(wv.shape[0])]))
        gw = arr(wv.shape, lambda p: Sum([gv[n, p[0]] * xv[n, p[1]] for n in range(xv.shape[0])]))
        gb = arr((wv.shape[0],), lambda p: Sum(list(gv[:, p[0]])))
    for key, t, want in (("x", x, gx), ("w", m.weight, gw), ("b", m.bias if cfg["bias"] else None, gb)):
        if t is None:
            continue
        if key in need:
            ctx.check(f"gradient of {key} present ({need})", t.grad is not None and tuple(t.grad.shape) == want.shape)
            got = ctx.vals(t.grad)
            for p in np.ndindex(*want.shape):
                ctx.check(f"d{key} ({need})@{list(p)}", eq(got[p], want[p]))
        else:
            ctx.check(f"no gradient of {key} ({need})", t.grad is None)
    ctx.check("operands untouched", And(same(xv, ctx.vals(x)), same(wv, ctx.vals(m.weight)), same(gv, ctx.vals(g))))
