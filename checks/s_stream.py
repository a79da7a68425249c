from . import scenario
from .util import *

PERM = ("sobol", "race", "race10", "sys")
ALIAS = {"rc": "sobol", "tc": "race", "tc10": "race10"}


# ------------------------------------------------------------------ S01 RNG
def rng_cfgs(tier, rng):
    out = []
    W = (1, 2, 3, 4, 5, 6, 8) if tier == "quick" else (1, 2, 3, 4, 5, 6, 7, 8, 9, 10)
    for w in W:
        for d in (1, 2, 3, 4, 6, 9, 21) if w <= 5 else (1, 2, 4, rng.randint(5, 40), rng.randint(41, 1000)):
            out.append(dict(rng="sobol", w=w, d=d))
        for k in ("race", "race10", "sys", "sys", "Race", "RC", "tc", "TC10"):
            out.append(dict(rng=k, w=w, d=rng.choice([1, 2, 3])))
        if w >= 2:
            for _ in range(3):
                out.append(dict(rng=rng.choice(["lfsr", "LFSR"]), w=w, d=1))
    return [dict(c, rt=rng.choice(["f32", "f32", "i64", "i32"]), i=i) for i, c in enumerate(out)]


@scenario("S01", rng_cfgs)
def rng_sequence(ctx, cfg):
    """thresholding the sequence with any value b: what every stream generator relies on"""
    from UnarySim.stream import RNG
    w, d, kind = cfg["w"], cfg["d"], cfg["rng"].lower()
    kind = ALIAS.get(kind, kind)
    n = 2 ** w
    hw, sw = {"width": w, "dimr": d, "rng": cfg["rng"]}, {"rtype": DT[cfg["rt"]]}
    seq = RNG(hw, sw)()
    meta(ctx, "sequence", seq, (n,), DT[cfg["rt"]])
    ctx.check("constructor leaves its config alone", hw == {"width": w, "dimr": d, "rng": cfg["rng"]} and sw == {"rtype": DT[cfg["rt"]]})
    b = ctx.grid("b", (1,), 0, n, 0, DT[cfg["rt"]])
    bit = ctx.vals(torch.gt(b, seq).type(torch.int8))
    bv = ctx.val(b)
    S = [b2i(x) if ir.is_bool(x) else x for x in bit]
    ones = Sum(S)
    if kind == "lfsr":
        # a maximal-length register: every nonzero state once, one of them repeated
        ctx.check("count", Or(And(eq(bv, 0), eq(ones, 0)), And(gt(bv, 0), Or(eq(ones, bv - 1), eq(ones, bv)))))
        return
    ctx.check("count", eq(ones, bv))
    if kind == "race":
        for t in range(n):
            ctx.check(f"ones first@{t}", eq(S[t], b2i(lt(t, bv))))
    if kind == "race10":
        for t in range(n):
            ctx.check(f"ones last@{t}", eq(S[t], b2i(ge(t, n - bv))))
    if kind == "sobol":
        # every aligned block of 2**k draws holds one value of each dyadic interval
        for k in range(w):
            for s in range(0, n, 2 ** k):
                c = Sum(S[s:s + 2 ** k]) * (2 ** (w - k))
                ctx.check(f"block{k}@{s}", And(lt(bv - 2 ** (w - k), c), lt(c, bv + 2 ** (w - k))))
        again = ctx.vals(torch.gt(b, RNG(hw, sw)()).type(torch.int8))
        ctx.check("reproducible", same(bit, again))
        ref = vdc_gray(w) if d == 1 else None
        if ref:
            for t in range(n):
                ctx.check(f"dimension1@{t}", eq(S[t], b2i(lt(ref[t], bv))))
        else:
            for t, v in enumerate(sobol_int(w, d)):
                ctx.check(f"dimension@{t}", eq(S[t], b2i(lt(v, bv))))
    if kind == "sys":
        pass


@scenario("S01", lambda tier, rng: [dict(w=w, dims=d, **{"_split": "all"}) for w, d in ((5, [*range(1, 9)]), (6, [*range(1, 13)]), (8, [*range(1, 7)]), (9, sorted(rng.sample(range(7, 60), 5))), (10, sorted(rng.sample(range(60, 1000), 4))))])
def sobol_dimensions(ctx, cfg):
    """different dimensions are different sequences: some symbolic threshold tells any two apart"""
    from UnarySim.stream import RNG
    w, n = cfg["w"], 2 ** cfg["w"]
    b = ctx.grid("b", (1,), 0, n, 0)
    bits = []
    for d in cfg["dims"]:
        seq = RNG({"width": w, "dimr": d, "rng": "Sobol"}, {"rtype": F32})()
        bits.append(ctx.vals(torch.gt(b, seq).type(torch.int8)))
    bv = ctx.val(b)
    for i in range(len(bits)):
        for j in range(i):
            # at half scale two distinct Sobol dimensions already split the draws differently, or at some other threshold
            ctx.cover(f"{cfg['dims'][j]}!={cfg['dims'][i]}", Not(same(bits[i], bits[j])))


# ------------------------------------------------------------------ S02 BinGen
def bingen_cfgs(tier, rng):
    out = []
    for w in (1, 2, 3, 4, 5, 6, 8, 10, 13, 16) if tier == "quick" else (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 14, 15, 16, 18):
        for mode in ("unipolar", "bipolar"):
            for rt in ("f32", "i64") if w < 9 else ("f32",):
                for dt in ("f32", "f64") if w in (3, 8) else ("f32",):
                    out.append(dict(w=w, mode=rng.choice([mode, mode.upper(), mode.capitalize()]), rt=rt, dt=dt, shape=rng.choice([[1], [3], [2, 2]])))
    return out


@scenario("S02", bingen_cfgs)
def bingen_grid(ctx, cfg):
    from UnarySim.stream import BinGen
    w, mode = cfg["w"], cfg["mode"].lower()
    g = w + 3
    lo_ = 0 if mode == "unipolar" else -2 ** g
    x = ctx.grid("x", cfg["shape"], lo_, 2 ** g, g, DT[cfg["dt"]])
    before = ctx.vals(x).copy()
    o = BinGen(x, {"width": w, "mode": cfg["mode"]}, {"rtype": DT[cfg["rt"]]})()
    meta(ctx, "binary", o, cfg["shape"], DT[cfg["rt"]])
    v, xv = ctx.vals(o), ctx.vals(x)
    ctx.check("source untouched", same(before, xv))
    for i in np.ndindex(*cfg["shape"]):
        p = xv[i] * (2 ** w) if mode == "unipolar" else (xv[i] + 1) * (2 ** w) * Fraction(1, 2)
        ctx.check(f"range@{i}", And(ge(v[i], 0), le(v[i], 2 ** w), eq(floorv(v[i]), v[i])))
        ctx.check(f"nearest@{i}", le(absv(v[i] - p), Fraction(1, 2)))
        ctx.check(f"reference@{i}", eq(v[i], roundv(p)))


@scenario("S02", lambda tier, rng: [dict(w=w, mode=m, rt="f32", _backend="fp") for w in ((3, 8) if tier == "quick" else (1, 3, 5, 8, 10)) for m in ("unipolar", "bipolar")])
def bingen_floats(ctx, cfg):
    """every float32 in the legal range: range, distance to the exact product, legal extremes"""
    from UnarySim.stream import BinGen
    w, mode = cfg["w"], cfg["mode"]
    x = ctx.floats("x", (1,), 0.0 if mode == "unipolar" else -1.0, 1.0)
    o = BinGen(x, {"width": w, "mode": mode}, {"rtype": DT[cfg["rt"]]})()
    v, xv = ctx.val(o), ctx.val(x)
    ctx.check("range", And(ge(v, 0), le(v, 2 ** w)))
    n = 2 ** w
    # each grid value owns the sources nearer than a half step (one ulp of 1+x left over in bipolar mode)
    for b in range(0, n + 1, 1 if n <= 16 else 17):
        c = Fraction(b, n) if mode == "unipolar" else Fraction(2 * b, n) - 1
        h = Fraction(1, 2 * n) if mode == "unipolar" else Fraction(1, n)
        eps = Fraction(0) if mode == "unipolar" else Fraction(1, 2 ** 22)
        l, u = c - h + eps, c + h - eps
        ctx.check(f"cell@{b}", Implies(And(lt(l, xv), lt(xv, u)), eq(v, b)))


# ------------------------------------------------------------------ S03 BSGen
def bsgen_cfgs(tier, rng):
    out = []
    for w in (0, 1, 2, 3, 4, 5):
        for st in ("f32", "i8") if w < 4 else ("f32",):
            for ct in ("i64", "f32", "i32"):
                out.append(dict(w=w, st=st, ct=ct, shape=rng.choice([[1], [2], [2, 2]]), whole=rng.random() < .5))
    # cycle counts far beyond the period
    out += [dict(w=w, st="f32", ct=ct, shape=[1], whole=True, far=2 ** 20) for w, ct in ((2, "i64"), (3, "f32"), (4, "i32"))]
    # a sequence longer than a byte counts
    out.append(dict(w=9, st="f32", ct="i64", shape=[1], whole=True, fix=True))
    if tier != "quick":
        out += [dict(w=w, st="f32", ct="i64", shape=[1], whole=True) for w in (6, 7)]
        out.append(dict(w=11, st="i8", ct="f32", shape=[1], whole=True, fix=True))
    return out


@scenario("S03", bsgen_cfgs)
def bsgen_rule(ctx, cfg):
    """any binary value, any sequence, any cycle: the bit is the comparison with the sequence at that cycle"""
    from UnarySim.stream import BSGen
    n = 2 ** cfg["w"]
    b = ctx.grid("b", cfg["shape"], 0, n)
    if cfg.get("fix"):
        r = torch.tensor(ctx.rng.sample(range(n), n)).type(torch.float)
    else:
        r = ctx.grid("r", (n,), 0, max(n - 1, 1))
    cs = cfg["shape"] if cfg["whole"] else (1,)
    c = ctx.grid("c", cs, 0, max(3 * n, cfg.get("far", 0)), 0, DT[cfg["ct"]])
    g = BSGen(b, r, {"stype": DT[cfg["st"]]})
    o = ctx.step(g, c)
    meta(ctx, "bit", o, cfg["shape"], DT[cfg["st"]])
    v, bv, rv, cv = ctx.vals(o), ctx.vals(b), ctx.vals(r), ctx.vals(c)
    cv = np.broadcast_to(cv, tuple(cfg["shape"]))
    for i in np.ndindex(*cfg["shape"]):
        ref = b2i(gt(bv[i], select(modc(cv[i], n), list(rv))))
        ctx.check(f"bit@{i}", eq(v[i], ref))


def round_trip_cfgs(tier, rng):
    out = []
    for w in (1, 2, 3, 4, 5, 6) if tier == "quick" else (1, 2, 3, 4, 5, 6, 7, 8):
        for mode in ("unipolar", "bipolar"):
            for k in ("sobol", "race", "tc10", "sys"):
                out.append(dict(w=w, mode=mode, rng=k, d=rng.choice([1, 1, 2, 4, 7]), start=rng.choice([0, 0, rng.randint(1, 50)]), st=rng.choice(["f32", "f32", "i8"])))
    if tier == "quick":
        out += [dict(w=8, mode=m, rng=k, d=d, start=s, st="f32") for m, k, d, s in (("bipolar", "sobol", 1, 0), ("unipolar", "race", 1, 300))]
    return out


@scenario("S03", round_trip_cfgs)
def encode_decode(ctx, cfg):
    """source -> BinGen -> BSGen over one period -> ProgError: the value survives with half a step of error"""
    from UnarySim.stream import RNG, BinGen, BSGen
    from UnarySim.metric import ProgError
    w, mode, n = cfg["w"], cfg["mode"], 2 ** cfg["w"]
    g = w + 1
    lo_ = 0 if mode == "unipolar" else -2 ** g
    x = ctx.grid("x", (2,), lo_, 2 ** g, g)
    hw = {"width": w, "mode": mode, "rng": cfg["rng"], "dimr": cfg["d"], "scale": 1}
    sw = {"rtype": F32, "stype": DT[cfg["st"]]}
    src = BinGen(x, hw, sw)()
    gen = BSGen(src, RNG(hw, sw)(), sw)
    pe = ProgError(x, hw)
    for t in range(n):
        bit = ctx.step(gen, torch.tensor([cfg["start"] + t]))
        pe.Monitor(bit)
    pp, err = pe()
    pv, ev, xv, sv = ctx.vals(pp), ctx.vals(err), ctx.vals(x), ctx.vals(src)
    step = Fraction(1, n) if mode == "unipolar" else Fraction(2, n)
    for i in range(2):
        dec = sv[i] * Fraction(1, n) if mode == "unipolar" else sv[i] * Fraction(2, n) - 1
        ctx.check(f"decoded@{i}", eq(pv[i], dec))
        ctx.check(f"half step@{i}", le(absv(pv[i] - xv[i]), step * Fraction(1, 2)))
        ctx.check(f"reported error@{i}", eq(ev[i], pv[i] - xv[i]))


# ------------------------------------------------------------------ S04 RawScale
def rawscale_cfgs(tier, rng):
    out = []
    for shape, m in (([1], 6), ([2], 3), ([3], 4), ([2, 2], 2)):
        for q in (1, 0.5, 0.75, 0.0625) if tier == "quick" else (1, 0.25, 0.5, 0.75, 0.9, 0.0625, 0.015625):
            if shape != [3] or q >= .25:
                out.append(dict(shape=shape, m=m, q=q, g=rng.choice([0, 1, 2])))
    # larger data, two values of which are symbolic
    for shape, q in (([9], 0.5), ([3, 4], 0.75), ([2, 3, 4], 0.25), ([40], 1), ([33], 0.875)):
        out.append(dict(shape=shape, m=8, q=q, g=0, sym=2))
    return out


@scenario("S04", rawscale_cfgs, max_paths=3000)
def rawscale(ctx, cfg):
    from UnarySim.stream import RawScale
    n = int(np.prod(cfg["shape"]))
    if "sym" in cfg:
        x = torch.tensor([float(ctx.rng.randint(-cfg["m"], cfg["m"])) for _ in range(n)])
        y = ctx.grid("x", (cfg["sym"],), -cfg["m"], cfg["m"], cfg["g"])
        for j, i in enumerate(ctx.rng.sample(range(n), cfg["sym"])):
            x[i] = y[j]
        x = x.reshape(cfg["shape"])
    else:
        x = ctx.grid("x", cfg["shape"], -cfg["m"], cfg["m"], cfg["g"])
    xv = ctx.vals(x)
    q = Fraction(cfg["q"])
    srt = sort_net(list(xv.ravel()))

    def quant(p):
        pos = p * (n - 1)
        i = math.floor(pos)
        f = pos - i
        return srt[i] if f == 0 else srt[i] * (1 - f) + srt[i + 1] * f
    l, u = quant(Fraction(1, 2) - q / 2), quant(Fraction(1, 2) + q / 2)
    scale = maxv(absv(l), absv(u))
    ctx.assume(gt(scale, 0))
    before = xv.copy()
    o = ctx.step(RawScale({"quantile": cfg["q"]}), x)
    ctx.isvalue(o)
    ctx.check("shape", tuple(o.shape) == tuple(cfg["shape"]))
    ov = ctx.vals(o)
    ctx.check("raw untouched", same(before, ctx.vals(x)))
    tol = Fraction(1, 2 ** 20)
    hits = []
    for i in np.ndindex(*cfg["shape"]):
        c = clampv(xv[i], l, u)
        ctx.check(f"range@{i}", And(ge(ov[i], -1), le(ov[i], 1)))
        # out * scale is the clamped raw value up to rounding
        p = ov[i] * scale
        ctx.check(f"value@{i}", le(absv(p - c), scale * tol))
        ctx.check(f"sign@{i}", And(Implies(gt(c, 0), gt(ov[i], 0)), Implies(lt(c, 0), lt(ov[i], 0)), Implies(eq(c, 0), eq(ov[i], 0))))
        hits.append(Or(eq(ov[i], 1), eq(ov[i], -1)))
    if cfg["q"] == 1:
        ctx.check("extreme reaches one", Or(*hits))


def sort_net(xs):
    xs = list(xs)
    for i in range(len(xs)):
        for j in range(len(xs) - 1 - i):
            xs[j], xs[j + 1] = minv(xs[j], xs[j + 1]), maxv(xs[j], xs[j + 1])
    return xs


# ------------------------------------------------------------------ S05 SkewedSync
def sync_cfgs(tier, rng):
    out = []
    k = 9 if tier == "quick" else 14
    for d in (1, 2, 3, 4):
        for st, bt in (("f32", "f32"), ("i8", "f32"), ("f32", "i8")):
            for T in (k, k + 7):
                out.append(dict(d=d, st=st, bt=bt, k=k, T=T, shape=rng.choice([[1], [2], [2, 1]])))
    return out


@scenario("S05", deep(late(sync_cfgs, 4), (7, 10, 12), lambda d: 2 ** d + 1, lambda d: 2 ** d, ("ones",)))
def skewed_sync(ctx, cfg):
    from UnarySim.stream import SkewedSync
    m = SkewedSync({"depth": cfg["d"]}, {"btype": DT[cfg["bt"]], "stype": DT[cfg["st"]]})
    top = 2 ** cfg["d"] - 1
    sh, dt = cfg["shape"], DT[cfg["st"]]
    cnt = arr(sh, lambda i: 0)
    held = arr(sh, lambda i: 0)
    for (t, a), (_, b) in zip(bitstream(ctx, "a", cfg["T"], sh, cfg["k"], dt, where=cfg.get("where"), style=cfg.get("style")), bitstream(ctx, "b", cfg["T"], sh, cfg["k"], dt, where=cfg.get("where"), style=cfg.get("style") and "zeros:" + cfg["style"][5:])):
        o1, o2 = ctx.step(m, a, b)
        if t == 0:
            meta(ctx, "out1", o1, sh, dt)
            meta(ctx, "out2", o2, sh, dt)
        av, bv, u, v = ctx.vals(a), ctx.vals(b), ctx.vals(o1), ctx.vals(o2)
        for i in np.ndindex(*sh):
            up = And(eq(av[i], 1), eq(bv[i], 0))
            dn = And(eq(av[i], 0), eq(bv[i], 1))
            ref = ite(up, b2i(eq(cnt[i], top)), ite(dn, b2i(gt(cnt[i], 0)), av[i]))
            cnt[i] = ite(And(up, lt(cnt[i], top)), cnt[i] + 1, ite(And(dn, gt(cnt[i], 0)), cnt[i] - 1, cnt[i]))
            held[i] = held[i] + av[i] - u[i]
            ctx.check(f"second passes@{t}", eq(v[i], bv[i]))
            ctx.check(f"bit@{t}", isbit(u[i]))
            ctx.check(f"conserved@{t}", And(ge(held[i], 0), le(held[i], top)))
            ctx.check(f"reference@{t}", And(eq(u[i], ref), eq(held[i], cnt[i])))


# ------------------------------------------------------------------ S06 / S07 format conversion
def conv_cfgs(depths, ks):
    def f(tier, rng):
        out = []
        k = ks[0] if tier == "quick" else ks[1]
        for d in depths:
            for st, bt in (("f32", "f32"), ("i8", "f32"), ("f32", "i8"), ("i8", "i32")):
                for T in (k, k + 2 ** d):
                    out.append(dict(d=d, st=st, bt=bt, k=k, T=T, it=rng.choice(["f32", "i8"]), shape=rng.choice([[1], [2], [2, 2]])))
        return out
    return f


@scenario("S06", deep(late(conv_cfgs((2, 3, 4, 5), (10, 16)), 3), (9, 12, 14), lambda d: 2 ** (d - 2) + 2, lambda d: 2 ** (d - 2) + 1, ("zeros",)))
def bi2uni(ctx, cfg):
    from UnarySim.stream import Bi2Uni
    m = Bi2Uni({"depth": cfg["d"]}, {"btype": DT[cfg["bt"]], "stype": DT[cfg["st"]]})
    sh, cap = cfg["shape"], 2 ** (cfg["d"] - 2)
    acc = arr(sh, lambda i: 0)
    bal = arr(sh, lambda i: 0)
    sat = arr(sh, lambda i: False)
    for t, x in bitstream(ctx, "x", cfg["T"], sh, cfg["k"], DT[cfg["it"]], where=cfg.get("where"), style=cfg.get("style")):
        o = ctx.step(m, x)
        if t == 0:
            meta(ctx, "out", o, sh, DT[cfg["st"]])
        xv, ov = ctx.vals(x), ctx.vals(o)
        for i in np.ndindex(*sh):
            s = acc[i] + xv[i] * 2 - 1
            sat[i] = Or(sat[i], gt(s, cap), lt(s, -cap))
            s = clampv(s, -cap, cap)
            ref = b2i(ge(s, 1))
            acc[i] = s - ref
            bal[i] = bal[i] + xv[i] * 2 - 1 - ov[i]
            ctx.check(f"reference@{t}", eq(ov[i], ref))
            ctx.check(f"ones out = 2*ones in - cycles@{t}", Or(sat[i], And(le(bal[i], 0), ge(bal[i], -cap))))


@scenario("S07", deep(late(conv_cfgs((3, 4, 5, 6), (12, 20)), 3), (9, 12, 20), lambda d: 40, lambda d: 20))
def uni2bi(ctx, cfg):
    from UnarySim.stream import Uni2Bi
    m = Uni2Bi({"depth": cfg["d"]}, {"btype": DT[cfg["bt"]], "stype": DT[cfg["st"]]})
    sh, cap = cfg["shape"], 2 ** (cfg["d"] - 2)
    acc = arr(sh, lambda i: 0)
    ins, outs = arr(sh, lambda i: 0), arr(sh, lambda i: 0)
    for t, x in bitstream(ctx, "x", cfg["T"], sh, cfg["k"], DT[cfg["it"]], where=cfg.get("where"), style=cfg.get("style")):
        o = ctx.step(m, x)
        if t == 0:
            meta(ctx, "out", o, sh, DT[cfg["st"]])
        xv, ov = ctx.vals(x), ctx.vals(o)
        for i in np.ndindex(*sh):
            s = clampv(acc[i] + xv[i] + 1, -cap, cap)
            ref = b2i(ge(s, 2))
            acc[i] = s - ref * 2
            ins[i], outs[i] = ins[i] + xv[i], outs[i] + ov[i]
            ctx.check(f"reference@{t}", eq(ov[i], ref))
            if cap >= 3:
                # ones out = floor((ones in + cycles) / 2)
                r = ins[i] + (t + 1) - outs[i] * 2
                ctx.check(f"half@{t}", And(ge(r, 0), le(r, 1)))
