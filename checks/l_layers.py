"""Streaming layers: FSULinear, FSUConv2d and the gated recurrent cells."""
from . import scenario
from .util import *
from .k_kernel import pickat

SW = {"btype": F32, "rtype": F32, "stype": F32}
TEMPORAL = ("race", "tc", "race10", "tc10")


class RPC:
    """parallel counter of one row of weights against one row of input bits, weights as integers"""
    def __init__(s, w, bias, seq, mode, temporal):
        s.n, s.mode, s.temporal, s.t = len(seq), mode, temporal, 0
        s.tab = [[b2i(gt(x, q)) for q in seq] for x in w]
        s.bias = None if bias is None else [b2i(gt(bias, q)) for q in seq]
        s.c1, s.c0 = [0] * len(w), [0] * len(w)

    def step(s, bits):
        tot = []
        for j, b in enumerate(bits):
            if s.temporal:
                one = s.tab[j][s.t % s.n]
                zero = 1 - one
            else:
                one = pickat(s.tab[j], s.c1[j])
                zero = 1 - pickat(s.tab[j], s.c0[j])
                s.c1[j] = modc(s.c1[j] + b, s.n)
                s.c0[j] = modc(s.c0[j] + 1 - b, s.n)
            tot.append(ite(eq(b, 1), one, zero if s.mode == "bipolar" else 0))
        if s.bias is not None:
            tot.append(s.bias[s.t % s.n])
        s.t += 1
        return Sum(tot)


def weights(ctx, name, shape, w, mode, symbolic, fix=None):
    """a weight tensor in the legal range and the integers it stands for"""
    g = w + 1
    lo_ = 0 if mode == "unipolar" else -2 ** g
    if fix is not None:
        # extreme weights; unless the weights shall be concrete, one of them (per output) is symbolic
        x = torch.full(tuple(shape), float(fix) if mode == "unipolar" else 2.0 * fix - 1)
        if symbolic is None:
            return x, vmap(lambda v: qbin(v, w, mode), ctx.vals(x))
        y = ctx.grid(name, (shape[0],), lo_, 2 ** g, g)
        for j in range(shape[0]):
            x[j].view(-1)[-1] = y[j]
    elif symbolic:
        x = ctx.grid(name, shape, lo_, 2 ** g, g)
    else:
        x = torch.tensor([ctx.rng.choice([lo_, 2 ** g, ctx.rng.randint(lo_, 2 ** g), ctx.rng.randint(lo_, 2 ** g)]) for _ in range(int(np.prod(shape)))]).div(2.0 ** g).reshape(shape)
    return x, vmap(lambda v: qbin(v, w, mode), ctx.vals(x))


# ------------------------------------------------------------------ K12 FSULinear
def linear_cfgs(tier, rng):
    out = []
    more = 0 if tier == "quick" else 2
    for mode in ("unipolar", "bipolar"):
        for bias in (True, False):
            for kind in ("Sobol", "race", "tc10"):
                for sym, w, i, o, b, k, T in ((True, 2, 2, 1, 1, 5, 6), (True, 3, 1, 2, 1, 5, 9), (True, 1, 2, 2, 2, 4, 6), (False, 3, 3, 2, 2, 3, 14), (False, 4, 2, 2, 1, 5, 40), (False, 2, 5, 1, 3, 2, 20), (False, 3, 4, 3, 1, 4, 25)):
                    sc = rng.choice([None, 1, 2])
                    if mode == "bipolar" and kind != "Sobol":
                        sc = rng.choice([None, i + bias])
                    out.append(dict(mode=rng.choice([mode, mode.capitalize()]), bias=bias, rng=kind, sym=sym, w=w, i=i, o=o, b=b, k=k + more, T=T + more, scale=sc, depth=rng.choice([3, 5, 10]), d=rng.choice([1, 1, 2]),
                                    over=rng.choice([None, None, None, "scale", "entry", "both"])))
    out.append(dict(mode="bipolar", bias=True, rng="Sobol", sym=False, w=8, i=2, o=1, b=1, k=2, T=300, scale=None, depth=12, d=1, over=None, where="tail"))
    out.append(dict(mode="unipolar", bias=True, rng="race", sym=False, w=8, i=2, o=1, b=2, k=2, T=270, scale=None, depth=12, d=1, over=None, where="tail"))
    for mode, style, w, T in (("bipolar", "zeros", 10, 265), ("unipolar", "ones", 9, 520), ("bipolar", "ones", 9, 262)):
        out.append(dict(mode=mode, bias=True, rng="Sobol", sym=False, w=w, i=2, o=1, b=1, k=1, T=T, scale=None, depth=12, d=1, over=None, where="tail", style=style))
    # more features and larger batches
    for mode, kind, i, o, b in (("bipolar", "Sobol", 12, 9, 7), ("unipolar", "race", 9, 17, 5), ("unipolar", "Sobol", 33, 6, 9), ("bipolar", "tc10", 18, 5, 12)):
        out.append(dict(mode=mode, bias=True, rng=kind, sym=False, w=4, i=i, o=o, b=b, k=1, T=19, scale=None, depth=12, d=1, over=None, where="tail"))
    # deep accumulators near their limits (the weights of all ones or all zeros push them there)
    for mode, style, i, depth, T, wf in (("unipolar", "ones:34", 9, 10, 292, 1), ("bipolar", "ones:40", 15, 10, 78, 0), ("bipolar", "zeros:150", 15, 12, 298, 0), ("unipolar", "ones:66", 17, 12, 1092, 1)):
        out.append(dict(mode=mode, bias=False, rng="Sobol", sym=False, w=3, i=i, o=2, b=1, k=1, T=T, scale=1, depth=depth, d=1, over=None, where="tail", style=style, wfix=wf))
    out.append(dict(mode="bipolar", bias=False, rng="Sobol", sym=False, w=4, i=70, o=2, b=1, k=1, T=4, scale=None, depth=12, d=1, over=None, where="tail"))
    return out


def spare(cfg, bias, n):
    """a bias that is given but switched off"""
    return torch.zeros(n) if bias is None and cfg["T"] % 2 else bias


@scenario("K12", linear_cfgs)
def fsulinear(ctx, cfg):
    from UnarySim.kernel import FSULinear, FSULinearPC
    w, mode, I, O, B = cfg["w"], cfg["mode"].lower(), cfg["i"], cfg["o"], cfg["b"]
    W, wi = weights(ctx, "w", (O, I), w, mode, cfg["sym"], cfg.get("wfix"))
    bias, bi = weights(ctx, "b", (O,), w, mode, cfg["sym"]) if cfg["bias"] else (None, [None] * O)
    hw = {"width": w, "mode": cfg["mode"], "scale": cfg["scale"], "depth": cfg["depth"], "rng": cfg["rng"], "dimr": cfg["d"]}
    given = spare(cfg, bias, O)
    m = FSULinear(I, O, bias=cfg["bias"], weight_ext=W, bias_ext=given, hwcfg=hw, swcfg=SW)
    pc = FSULinearPC(I, O, bias=cfg["bias"], weight_ext=W, bias_ext=given, hwcfg=hw, swcfg=SW)
    seq = rng_ref(cfg["rng"], w, cfg["d"])
    temporal = cfg["rng"].lower() in TEMPORAL
    entry = I + int(cfg["bias"])
    scale = entry if cfg["scale"] is None else cfg["scale"]
    kw = {}
    if cfg["over"] in ("scale", "both"):
        kw["scale"] = scale = scale + 1
    if cfg["over"] in ("entry", "both"):
        kw["entry"] = entry = entry + 2
    R = arr((B, O), lambda x: RPC(list(wi[x[1]]), bi[x[1]], seq, mode, temporal))
    A = machines((B, O), lambda: RAdd(mode, entry, scale, cfg["depth"]))
    for t, x in bitstream(ctx, "x", cfg["T"], (B, I), cfg["k"], where=cfg.get("where"), style=cfg.get("style")):
        before = ctx.vals(x).copy()
        p = ctx.step(pc, x)
        o = ctx.step(m, x, **kw)
        if t == 0:
            meta(ctx, "out", o, (B, O), F32)
            meta(ctx, "count", p, (B, O), F32)
        xv, ov, pv = ctx.vals(x), ctx.vals(o), ctx.vals(p)
        ctx.check(f"input untouched@{t}", same(before, xv))
        for i in np.ndindex(B, O):
            c = R[i].step(list(before[i[0]]))
            ctx.check(f"count@{t}", eq(pv[i], c))
            ctx.check(f"bit@{t}", eq(ov[i], A[i].step(c)))


# ------------------------------------------------------------------ K13 FSUConv2d
def conv_cfgs(tier, rng):
    out = []
    geo = [  # in, out, kernel, stride, padding, dilation, input h w
        (1, 1, [2, 2], 1, 0, 1, [2, 2]), (1, 2, [1, 2], 1, 1, 1, [1, 2]), (2, 1, [1, 1], 1, 0, 1, [2, 1]), (1, 1, 2, 2, 1, 1, [2, 2]), (1, 1, [2, 1], [1, 2], [1, 0], 1, [2, 2]), (1, 2, 2, 1, 0, 2, [3, 3]),
        (1, 1, [1, 3], 1, [0, 1], 1, [1, 3]), (2, 2, 1, 1, 1, 1, [1, 1]), (1, 1, 3, [2, 1], 1, 1, [2, 3]), (2, 3, 2, 1, 1, 1, [2, 2])]
    for mode in ("unipolar", "bipolar"):
        for n, (ci, co, ks, st, pd, dl, hw) in enumerate(geo):
            for kind in ("Sobol", "race") if n % 2 == 0 else ("Sobol", "tc10"):
                for sym in (True, False):
                    bias = rng.random() < .6
                    cells = ci * hw[0] * hw[1]
                    w = rng.choice([1, 2]) if sym else rng.choice([2, 3, 4])
                    B = rng.choice([1, 1, 2])
                    k = max(1, min(4, (10 if sym else 14) // (cells * B)))
                    sc = rng.choice([None, 1]) if not (mode == "bipolar" and kind != "Sobol") else None
                    out.append(dict(mode=mode, ci=ci, co=co, ks=ks, st=st, pd=pd, dl=dl, hw=hw, rng=kind, sym=sym, bias=bias, w=w, b=B, k=k, T=k + rng.choice([1, 2, 2 ** w + 1]), scale=sc, depth=rng.choice([4, 10]), d=rng.choice([1, 2]), over=rng.choice([None, None, "scale", "entry"])))
    # the symbolic steps after many others
    for mode, n, w, kind, T, style in (("bipolar", 4, 8, "Sobol", 280, None), ("unipolar", 1, 3, "race", 310, None), ("bipolar", 2, 4, "Sobol", 170, None), ("unipolar", 2, 9, "Sobol", 262, "ones"), ("bipolar", 2, 9, "Sobol", 262, "zeros")):
        ci, co, ks, st, pd, dl, hw = geo[n]
        out.append(dict(mode=mode, ci=ci, co=co, ks=ks, st=st, pd=pd, dl=dl, hw=hw, rng=kind, sym=False, bias=n != 1, w=w, b=1, k=1, T=T, scale=None, depth=10, d=1, over=None, where="tail", style=style))
    # larger images, more channels and larger batches
    for mode, kind, ci, co, ks, st, pd, hw, b in (("bipolar", "Sobol", 3, 5, 3, 1, 1, [5, 6], 1), ("unipolar", "race", 2, 3, [3, 2], 2, [1, 0], [7, 4], 3), ("bipolar", "tc10", 1, 6, 2, 1, 0, [3, 3], 6), ("unipolar", "Sobol", 7, 4, 1, 1, 0, [2, 2], 5)):
        out.append(dict(mode=mode, ci=ci, co=co, ks=ks, st=st, pd=pd, dl=1, hw=hw, rng=kind, sym=False, bias=True, w=3, b=b, k=1, T=11, scale=None, depth=10, d=1, over=None, where="tail", style="random"))
    # deep accumulators near their limits
    for mode, style, depth, T, wf in (("unipolar", "ones:34", 10, 292, 1), ("bipolar", "ones:130", 11, 258, 0), ("bipolar", "zeros:66", 10, 130, 0)):
        out.append(dict(mode=mode, ci=1, co=1, ks=3, st=1, pd=0, dl=1, hw=[3, 3], rng="Sobol", sym=False, bias=False, w=3, b=1, k=1, T=T, scale=1, depth=depth, d=1, over=None, where="tail", style=style, wfix=wf))
    return out


def tup(x):
    return tuple(x) if isinstance(x, list) else x


def pair(x):
    return tuple(x) if isinstance(x, (list, tuple)) else (x, x)


def unfold_ref(x, cfg, fill):
    """windows of an object array (C,H,W) in output order: list of (position, values)"""
    C, H, W = x.shape
    (kh, kw), (sh, sw), (ph, pw), (dh, dw) = (pair(cfg[k]) for k in ("ks", "st", "pd", "dl"))
    oh, ow = (H + 2 * ph - dh * (kh - 1) - 1) // sh + 1, (W + 2 * pw - dw * (kw - 1) - 1) // sw + 1
    res = {}
    for y in range(oh):
        for z in range(ow):
            v = []
            for c in range(C):
                for a in range(kh):
                    for b in range(kw):
                        r, s = y * sh + a * dh - ph, z * sw + b * dw - pw
                        v.append(x[c, r, s] if 0 <= r < H and 0 <= s < W else fill)
            res[(y, z)] = v
    return oh, ow, res


@scenario("K13", conv_cfgs)
def fsuconv(ctx, cfg):
    from UnarySim.kernel import FSUConv2d, FSUConv2dPC
    w, mode, ci, co, B = cfg["w"], cfg["mode"].lower(), cfg["ci"], cfg["co"], cfg["b"]
    kh, kw = pair(cfg["ks"])
    W, wi = weights(ctx, "w", (co, ci, kh, kw), w, mode, cfg["sym"], cfg.get("wfix"))
    bias, bi = weights(ctx, "b", (co,), w, mode, cfg["sym"]) if cfg["bias"] else (None, [None] * co)
    hw = {"width": w, "mode": cfg["mode"], "scale": cfg["scale"], "depth": cfg["depth"], "rng": cfg["rng"], "dimr": cfg["d"]}
    given = spare(cfg, bias, co)
    geo = dict(stride=tup(cfg["st"]), padding=tup(cfg["pd"]), dilation=tup(cfg["dl"]), bias=cfg["bias"], weight_ext=W, bias_ext=given, hwcfg=hw, swcfg=SW)
    m = FSUConv2d(ci, co, tup(cfg["ks"]), **geo)
    pc = FSUConv2dPC(ci, co, tup(cfg["ks"]), **geo)
    seq, temporal = rng_ref(cfg["rng"], w, cfg["d"]), cfg["rng"].lower() in TEMPORAL
    entry = kh * kw * ci + int(cfg["bias"])
    scale = entry if cfg["scale"] is None else cfg["scale"]
    kwa = {}
    if cfg["over"] == "scale":
        kwa["scale"] = scale = scale + 2
    if cfg["over"] == "entry":
        kwa["entry"] = entry = entry + 1
    H, V = cfg["hw"]
    oh, ow, _ = unfold_ref(arr((ci, H, V), lambda i: 0), cfg, 0)
    sh = (B, co, oh, ow)
    R = arr(sh, lambda x: RPC(list(wi[x[1]].ravel()), bi[x[1]], seq, mode, temporal))
    A = machines(sh, lambda: RAdd(mode, entry, scale, cfg["depth"]))
    for t, x in bitstream(ctx, "x", cfg["T"], (B, ci, H, V), cfg["k"], where=cfg.get("where"), style=cfg.get("style")):
        before = ctx.vals(x).copy()
        p, o = ctx.step(pc, x), ctx.step(m, x, **kwa)
        if t == 0:
            meta(ctx, "out", o, sh, F32)
            meta(ctx, "count", p, sh, F32)
        ctx.check(f"input untouched@{t}", same(before, ctx.vals(x)))
        ov, pv = ctx.vals(o), ctx.vals(p)
        # bipolar zero is padded as the alternating stream 0, 1, 0, 1, ...
        fill = t % 2 if mode == "bipolar" else 0
        for b in range(B):
            _, _, wnd = unfold_ref(before[b], cfg, fill)
            for (y, z), v in wnd.items():
                for c in range(co):
                    q = R[b, c, y, z].step(v)
                    ctx.check(f"count@{t}", eq(pv[b, c, y, z], q))
                    ctx.check(f"bit@{t}", eq(ov[b, c, y, z], A[b, c, y, z].step(q)))


# ------------------------------------------------------------------ K14 FSUMGUCell, HUBMGUCell
class RMul:
    """bipolar multiplier, static (integer) or in stream"""
    def __init__(s, seq, b=None):
        s.seq, s.n, s.c1, s.c0, s.b = seq, len(seq), 0, 0, b
        s.tab = None if b is None else [b2i(gt(b, q)) for q in seq]
        s.sr = RShift(s.n) if b is None else None

    def step(s, a, x=None):
        if s.tab is not None:
            one, zero = pickat(s.tab, s.c1), 1 - pickat(s.tab, s.c0)
        else:
            _, c = s.sr.step(x)
            one, zero = b2i(gt(c, pickat(s.seq, s.c1))), 1 - b2i(gt(c, pickat(s.seq, s.c0)))
        s.c1, s.c0 = modc(s.c1 + a, s.n), modc(s.c0 + 1 - a, s.n)
        return ite(eq(a, 1), one, zero)


class RMGU:
    """one batch entry of the streaming cell"""
    def __init__(s, H, I, wf, bf, wn, bn, hx, seq, seqm, depth):
        e = H + I + (bf is not None)
        s.H = H
        s.f = [RPC(list(wf[h]), None if bf is None else bf[h], seq, "bipolar", False) for h in range(H)]
        s.nn = [RPC(list(wn[h]), None if bn is None else bn[h], seq, "bipolar", False) for h in range(H)]
        s.fa = [RAdd("bipolar", e, 1, depth) for _ in range(H)]
        s.na = [RAdd("bipolar", e, 1, depth) for _ in range(H)]
        s.sg = [RAdd("bipolar", 2, 2, depth) for _ in range(H)]
        s.hm = [RMul(seq, hx[h]) for h in range(H)]
        s.nm = [RMul(seqm) for _ in range(H)]
        s.hy = [RAdd("bipolar", 3, 1, depth) for _ in range(H)]

    def step(s, x, h):
        fin = [s.fa[j].step(s.f[j].step(list(h) + list(x))) for j in range(s.H)]
        fg = [s.sg[j].step(fin[j] + 1) for j in range(s.H)]
        fh = [s.hm[j].step(fg[j]) for j in range(s.H)]
        ng = [s.na[j].step(s.nn[j].step(fh + list(x))) for j in range(s.H)]
        p = [s.nm[j].step(fg[j], ng[j]) for j in range(s.H)]
        return [s.hy[j].step(ng[j] + (1 - p[j]) + fh[j]) for j in range(s.H)]


def mgu_cfgs(tier, rng):
    out = []
    more = 0 if tier == "quick" else 1
    for H, I, B, bias in ((1, 1, 1, True), (1, 1, 2, False), (2, 1, 1, True), (1, 2, 1, False), (2, 2, 1, True)):
        for w, mw in ((2, 2), (3, 2), (3, 3)):
            k = {(1, 1): 4, (2, 1): 3, (1, 2): 3, (2, 2): 2}[(H, I)] + more - (B > 1)
            for T in (k, 2 ** w + k):
                out.append(dict(H=H, I=I, B=B, bias=bias, w=w, mw=mw, k=k, T=T, sym=w == 2 and H * I * B == 1, depth=rng.choice([4, 6, 10]), rng="Sobol", d=rng.choice([1, 2])))
    # the symbolic steps after many others
    for H, I, bias, w, T in ((1, 1, True, 8, 300), (2, 1, False, 4, 160)):
        out.append(dict(H=H, I=I, B=1, bias=bias, w=w, mw=3, k=2, T=T, sym=False, depth=10, rng="Sobol", d=1, where="tail"))
    # wide in-stream multipliers, deep accumulators near their limits and back
    for H, I, bias, w, mw, depth, T, style, wf in ((1, 1, True, 6, 6, 10, 150, None, None), (2, 1, True, 4, 8, 10, 270, None, None), (1, 4, True, 3, 4, 10, 262, "ones:131", 0), (1, 4, False, 3, 5, 9, 140, "zeros:70", 0), (1, 3, True, 3, 4, 9, 300, "ones:150", 1)):
        out.append(dict(H=H, I=I, B=1, bias=bias, w=w, mw=mw, k=2, T=T, sym=False, depth=depth, rng="Sobol", d=1, where="tail", style=style, wfix=wf))
    return out


@scenario("K14", mgu_cfgs)
def fsumgu(ctx, cfg):
    from UnarySim.kernel import FSUMGUCell
    H, I, B, w = cfg["H"], cfg["I"], cfg["B"], cfg["w"]
    wf, wfi = weights(ctx, "wf", (H, H + I), w, "bipolar", cfg["sym"] or None, cfg.get("wfix"))
    wn, wni = weights(ctx, "wn", (H, H + I), w, "bipolar", cfg["sym"] or None, cfg.get("wfix"))
    bf, bfi = weights(ctx, "bf", (H,), w, "bipolar", False) if cfg["bias"] else (None, None)
    bn, bni = weights(ctx, "bn", (H,), w, "bipolar", False) if cfg["bias"] else (None, None)
    hx, hxi = weights(ctx, "hx", (B, H), w, "bipolar", cfg["sym"])
    m = FSUMGUCell(I, H, bias=cfg["bias"], weight_ext_f=wf, bias_ext_f=bf, weight_ext_n=wn, bias_ext_n=bn, hx_buffer=hx,
                   hwcfg={"width": w, "mode": "bipolar", "depth": cfg["depth"], "depth_ismul": cfg["mw"], "rng": cfg["rng"], "dimr": cfg["d"]}, swcfg=SW)
    seq, seqm = rng_ref(cfg["rng"], w, cfg["d"]), rng_ref(cfg["rng"], cfg["mw"], cfg["d"])
    R = [RMGU(H, I, wfi, bfi, wni, bni, list(hxi[b]), seq, seqm, cfg["depth"]) for b in range(B)]
    for (t, x), (_, h) in zip(bitstream(ctx, "x", cfg["T"], (B, I), cfg["k"], where=cfg.get("where"), style=cfg.get("style")), bitstream(ctx, "h", cfg["T"], (B, H), cfg["k"], where=cfg.get("where"), style=cfg.get("style"))):
        o = ctx.step(m, x, h)
        if t == 0:
            meta(ctx, "out", o, (B, H), F32)
        xv, hv, ov = ctx.vals(x), ctx.vals(h), ctx.vals(o)
        for b in range(B):
            r = R[b].step(list(xv[b]), list(hv[b]))
            for j in range(H):
                ctx.check(f"bit@{t}", eq(ov[b, j], r[j]))


@scenario("K14", lambda tier, rng: [dict(H=H, I=I, B=B, bias=bias, w=w, hx=hx, sym=s, depth=10, mw=mw) for H, I, B, bias, w, hx, s, mw in
                                    ((1, 1, 1, True, 2, True, "xh", 2), (1, 1, 1, False, 3, True, "x", 2), (2, 1, 1, True, 2, True, "x", 3), (1, 2, 1, True, 2, True, "h", 2), (1, 1, 2, False, 2, True, "x", 2), (2, 2, 2, True, 3, True, "", 3),
                                     (1, 2, 1, True, 2, False, "x", 2), (2, 1, 3, False, 2, False, "", 2))
                                    + (() if tier == "quick" else ((1, 1, 1, True, 3, True, "xh", 3), (2, 2, 1, True, 2, True, "xh", 2)))])
def hubmgu(ctx, cfg):
    """the hybrid cell decodes the streaming cell run over one period"""
    from UnarySim.kernel import HUBMGUCell
    H, I, B, w = cfg["H"], cfg["I"], cfg["B"], cfg["w"]
    n = 2 ** w
    wf, wfi = weights(ctx, "wf", (H, H + I), w, "bipolar", False)
    wn, wni = weights(ctx, "wn", (H, H + I), w, "bipolar", False)
    bf, bfi = weights(ctx, "bf", (H,), w, "bipolar", False) if cfg["bias"] else (None, None)
    bn, bni = weights(ctx, "bn", (H,), w, "bipolar", False) if cfg["bias"] else (None, None)
    hx, hxi = weights(ctx, "hx", (B, H), w, "bipolar", "h" in cfg["sym"])
    if not cfg["hx"]:
        hx, hxi = None, np.full((B, H), n // 2, dtype=object)
    x, xi = weights(ctx, "x", (B, I), w, "bipolar", "x" in cfg["sym"])
    m = HUBMGUCell(I, H, bias=cfg["bias"], weight_ext_f=wf, bias_ext_f=bf, weight_ext_n=wn, bias_ext_n=bn,
                   hwcfg={"width": w, "mode": "bipolar", "depth": cfg["depth"], "depth_ismul": cfg["mw"], "rng": "Sobol", "dimr": 1})
    bx, bh = ctx.vals(x).copy(), None if hx is None else ctx.vals(hx).copy()
    o = ctx.step(m, x, hx)
    meta(ctx, "out", o, (B, H), F32)
    ctx.check("inputs untouched", And(same(bx, ctx.vals(x)), hx is None or same(bh, ctx.vals(hx))))
    seq, seqm = rng_ref("sobol", w, 1), rng_ref("sobol", cfg["mw"], 1)
    ov = ctx.vals(o)
    for b in range(B):
        R = RMGU(H, I, wfi, bfi, wni, bni, list(hxi[b]), seq, seqm, cfg["depth"])
        tot = [0] * H
        for t in range(n):
            r = R.step([b2i(gt(v, seq[t])) for v in xi[b]], [b2i(gt(v, seq[t])) for v in hxi[b]])
            tot = [u + v for u, v in zip(tot, r)]
        for j in range(H):
            ctx.check(f"value@{b},{j}", eq(ov[b, j], tot[j] * Fraction(2, n) - 1))
            ctx.check(f"range@{b},{j}", And(ge(ov[b, j], -1), le(ov[b, j], 1)))


# ------------------------------------------------------------------ K15 HardMGUCell
def hard_cfgs(tier, rng):
    return [dict(H=H, I=I, B=B, bias=bias, hx=hx, g=g) for H, I, B in ((1, 1, 1), (2, 1, 1), (1, 2, 2), (2, 2, 1)) for bias in (True, False) for hx in (True, False) for g in ((1, 2) if tier == "quick" else (1, 2, 3))]


@scenario("K15", hard_cfgs)
def hardmgu(ctx, cfg):
    from UnarySim.kernel import HardMGUCell
    H, I, B, g = cfg["H"], cfg["I"], cfg["B"], cfg["g"]
    m = HardMGUCell(I, H, bias=cfg["bias"], hard=True)
    P = {}
    for nm, sh in (("weight_f", (H, H + I)), ("weight_n", (H, H + I)), ("bias_f", (H,)), ("bias_n", (H,))):
        if "bias" in nm and not cfg["bias"]:
            continue
        v = [ctx.rng.choice([-4, -3, -2, -1, 0, 1, 2, 3, 4]) for _ in range(int(np.prod(sh)))]
        ctx.check(f"shape of {nm}", tuple(getattr(m, nm).shape) == sh)
        ctx.check(f"initial {nm} within two standard deviations", bool((getattr(m, nm).detach().abs() <= 2 / math.sqrt(H)).all()))
        getattr(m, nm).data = torch.tensor(v).div(4.0).reshape(sh)
        P[nm] = [Fraction(q, 4) for q in v]
    x = ctx.grid("x", (B, I), -2 ** g, 2 ** g, g)
    h = ctx.grid("h", (B, H), -2 ** g, 2 ** g, g) if cfg["hx"] else None
    with torch.no_grad():
        o = ctx.step(m, x, h) if cfg["hx"] else ctx.step(m, x)
    meta(ctx, "out", o, (B, H), F32)
    ov, xv = ctx.vals(o), ctx.vals(x)
    hv = ctx.vals(h) if cfg["hx"] else arr((B, H), lambda i: 0)

    def row(nm, j, vec):
        r = P["weight_" + nm][j * (H + I):(j + 1) * (H + I)]
        s = Sum([a * b for a, b in zip(vec, r)])
        return s + P["bias_" + nm][j] if cfg["bias"] else s
    tol = Fraction(1, 2 ** 16)
    for b in range(B):
        # hardsigmoid(3 f) is (f + 1) / 2 within the range
        fg = [(clampv(row("f", j, list(hv[b]) + list(xv[b])), -1, 1) + 1) * Fraction(1, 2) for j in range(H)]
        fh = [fg[j] * hv[b][j] for j in range(H)]
        for j in range(H):
            ng = clampv(row("n", j, fh + list(xv[b])), -1, 1)
            y = clampv(ng - fg[j] * ng + fh[j], -1, 1)
            ctx.check(f"value@{b},{j}", And(le(ov[b, j], y + tol), ge(ov[b, j], y - tol)))
            ctx.check(f"range@{b},{j}", And(ge(ov[b, j], -1), le(ov[b, j], 1)))


def soft_cfgs(tier, rng):
    return [dict(sym=sym, I=I, B=B, hx=hx, g=g, bias=bias) for sym in ("x", "h") for I, B, g in ((1, 1, 2), (1, 2, 1), (2, 1, 1)) for hx in (True, False) for bias in (True, False) if hx or sym == "x"]


def table(v, f):
    """a real function of a value with a small domain, to 2^-40"""
    v = ir.norm(v)
    if not isinstance(v, ir.Node):
        return Fraction(round(f(float(v)) * 2 ** 40), 2 ** 40)
    return ir.tab(v, {k: Fraction(round(f(float(k)) * 2 ** 40), 2 ** 40) for k in ir.dom(v)})


@scenario("K15", soft_cfgs)
def softmgu(ctx, cfg):
    """the smooth cell (hard=False): one value is symbolic, so that every intermediate result is a table over it"""
    from UnarySim.kernel import HardMGUCell
    I, B, g = cfg["I"], cfg["B"], cfg["g"]
    m = HardMGUCell(I, 1, bias=cfg["bias"], hard=False)
    P = {}
    for nm, sh in (("weight_f", (1, 1 + I)), ("weight_n", (1, 1 + I)), ("bias_f", (1,)), ("bias_n", (1,))):
        if "bias" in nm and not cfg["bias"]:
            continue
        v = [ctx.rng.choice([-4, -2, -1, 1, 2, 4]) for _ in range(int(np.prod(sh)))]
        if nm == "weight_n" and I + cfg["bias"] > 1:
            v[0] = 0        # keeps sums of more than two float terms exact
        if nm == "weight_n" and I + cfg["bias"] == 1:
            v[0] = ctx.rng.choice([-4, 4])
        getattr(m, nm).data = torch.tensor(v).div(4.0).reshape(sh)
        P[nm] = [Fraction(q, 4) for q in v]
    conc = lambda shape: torch.tensor([ctx.rng.choice([-4, -2, 2, 4]) for _ in range(int(np.prod(shape)))]).div(4.0).reshape(shape)
    one = lambda nm, shape: torch.cat([ctx.grid(nm, (1,), -2 ** g, 2 ** g, g), conc((int(np.prod(shape)) - 1,))]).reshape(shape) if int(np.prod(shape)) > 1 else ctx.grid(nm, shape, -2 ** g, 2 ** g, g)
    x = one("x", (B, I)) if cfg["sym"] == "x" else conc((B, I))
    h = (one("h", (B, 1)) if cfg["sym"] == "h" else conc((B, 1))) if cfg["hx"] else None
    with torch.no_grad():
        o = ctx.step(m, x, h) if cfg["hx"] else ctx.step(m, x)
    meta(ctx, "out", o, (B, 1), F32)
    ov, xv = ctx.vals(o), ctx.vals(x)
    hv = ctx.vals(h) if cfg["hx"] else arr((B, 1), lambda i: 0)

    def row(nm, vec):
        s = Sum([a * b for a, b in zip(vec, P["weight_" + nm])])
        return s + P["bias_" + nm][0] if cfg["bias"] else s
    tol = Fraction(1, 2 ** 14)
    for b in range(B):
        fg = table(clampv(row("f", [hv[b][0]] + list(xv[b])), -1, 1), lambda v: 1 / (1 + math.exp(-v)))
        fh = fg * hv[b][0]
        ng = table(row("n", [fh] + list(xv[b])), math.tanh)
        y = clampv(ng - fg * ng + fh, -1, 1)
        ctx.check(f"value@{b}", And(le(ov[b, 0], y + tol), ge(ov[b, 0], y - tol)))
