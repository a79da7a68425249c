"""Streaming kernels: every input history of the stated length against independent reference machines."""
from . import scenario
from .util import *
from symtorch.ctx import seed_all


# ------------------------------------------------------------------ K01 FSUAdd
def add_cfgs(tier, rng):
    out = []
    k = 5 if tier == "quick" else 8
    for mode in ("unipolar", "bipolar"):
        for how in ("none", "ctor", "call"):
            for n in (1, 2, 3, 4, 7):
                sc = {"none": None, "ctor": rng.choice([1, 1, 2, 1.5, n]), "call": rng.choice([1, 2, 0.75, n + 1])}[how]
                sh, dima = rng.choice([([n], 0), ([n, 2], 0), ([2, n], 1), ([1, n, 2], 1), ([2, n], -1)])
                cells = int(np.prod(sh))
                kk = max(2, min(k, (24 if tier == "quick" else 40) // cells))
                out.append(dict(mode=rng.choice([mode, mode.capitalize()]), how=how, scale=sc, n=n, shape=sh, dima=dima, ent=rng.choice(["none", "none", "ctor", "call"]), depth=rng.choice([3, 4, 5, 10, 12]),
                                st=rng.choice(["f32", "f32", "i8", "f64"]), bt=rng.choice(["f32", "f32", "i8", "f64", "i32"]), it=rng.choice(["f32", "i8"]), k=kk, T=kk + rng.choice([0, 0, 5, 30])))
    # entry chosen away from the actual number of inputs: only the offset follows it
    for mode in ("unipolar", "bipolar"):
        out.append(dict(mode=mode, how="none", scale=None, n=2, shape=[2], dima=0, ent="ctor", entry=4, depth=8, st="f32", bt="f32", it="f32", k=k, T=k + 3))
        out.append(dict(mode=mode, how="ctor", scale=1, n=3, shape=[3], dima=0, ent="call", entry=5, depth=5, st="i8", bt="f32", it="f32", k=k, T=k + 3))
        out.append(dict(mode=mode, how="call", scale=1, scale0=3, n=3, shape=[3], dima=0, ent="call", entry=3, entry0=6, depth=5, st="f32", bt="f32", it="f32", k=k, T=k + 3))
        out.append(dict(mode=mode, how="none", scale=None, n=2, shape=[2], dima=0, ent="call", entry=2, entry0=5, depth=6, st="f32", bt="f32", it="f32", k=k, T=k + 3))
        # long saturating histories
        out.append(dict(mode=mode, how="ctor", scale=1, n=5, shape=[5], dima=0, ent="none", depth=4, st="f32", bt="f32", it="f32", k=4, T=40))
        out.append(dict(mode=mode, how="ctor", scale=1, n=5, shape=[5, 1], dima=0, ent="none", depth=10, st="f32", bt="f32", it="f32", k=3, T=150))
        # deep accumulators near their limits
        for d in (8, 11, 14):
            for n, s in ((7, "ones"), (15, "zeros")) if mode == "bipolar" else ((7, "ones"), (15, "ones")):
                # steps to the limit, and back: emitting one per cycle all the way
                c, b = (2 ** (d - 2) // (n // 2) + 2,) * 2 if mode == "bipolar" else (2 ** (d - 2) // (n - 1) + 2, 2 ** (d - 2) + 1)
                out.append(dict(mode=mode, how="ctor", scale=1, n=n, shape=[n], dima=0, ent="none", depth=d, st="f32", bt="f32", it="f32", k=1, style=f"{s}:{c}", T=c + b, where="tail"))
        # wide sums
        out.append(dict(mode=mode, how="none", scale=None, n=200, shape=[200], dima=0, ent="none", depth=12, st="f32", bt="i8", it="i8", k=1, T=3, sparse=6))
        out.append(dict(mode=mode, how="ctor", scale=1, n=300, shape=[300], dima=0, ent="none", depth=12, st="i8", bt="f32", it="f32", k=1, T=3, sparse=6))
    return out


@scenario("K01", late(add_cfgs, 4))
def fsuadd(ctx, cfg):
    from UnarySim.kernel import FSUAdd
    mode, n, how = cfg["mode"].lower(), cfg["n"], cfg["how"]
    entry = cfg.get("entry", n)
    # what is given with the first call overrides what the constructor was given
    hw = {"mode": cfg["mode"], "scale": cfg["scale"] if how == "ctor" else cfg.get("scale0"), "dima": cfg["dima"], "depth": cfg["depth"], "entry": entry if cfg["ent"] == "ctor" else cfg.get("entry0")}
    m = FSUAdd(hw, {"btype": DT[cfg["bt"]], "stype": DT[cfg["st"]]})
    kw = {}
    if how == "call":
        kw["scale"] = cfg["scale"]
    if cfg["ent"] == "call":
        kw["entry"] = entry
    scale = cfg["scale"] if cfg["scale"] is not None else entry
    sh = list(cfg["shape"])
    osh = [s for i, s in enumerate(sh) if i != cfg["dima"] % len(sh)]
    scalar = not osh
    if scalar:
        osh = [1]          # a sum over the only dimension keeps one element
    ref = machines(osh, lambda: RAdd(mode, entry, scale, cfg["depth"]))
    tot, out = arr(osh, lambda i: 0), arr(osh, lambda i: 0)
    for t, x in bitstream(ctx, "x", cfg["T"], sh, cfg["k"], DT[cfg["it"]], where=cfg.get("where"), style=cfg.get("style")) if "sparse" not in cfg else sparse_stream(ctx, "x", cfg["T"], sh, cfg["k"], cfg["sparse"], DT[cfg["it"]]):
        o = ctx.step(m, x, **kw)
        if t == 0:
            meta(ctx, "out", o, osh, DT[cfg["st"]])
        xv, ov = ctx.vals(x), ctx.vals(o)
        s = np.moveaxis(xv, cfg["dima"], 0)
        s = s.reshape(-1, 1) if scalar else s
        for i in np.ndindex(*osh):
            total = Sum([s[(j,) + i] for j in range(n)])
            r = ref[i].step(total)
            tot[i], out[i] = tot[i] + total - ref[i].off, out[i] + ov[i]
            ctx.check(f"reference@{t}", eq(ov[i], r))
            # without saturation the output accounts for the whole input, the accumulator holding the rest
            rest = tot[i] - out[i] * ref[i].scale
            ctx.check(f"conserved@{t}", Or(ref[i].sat, eq(rest, ref[i].acc)))


def sparse_stream(ctx, name, T, shape, k, lanes, dtype):
    """wide inputs: random bits, `lanes` of them symbolic in each of the last k steps"""
    n = int(np.prod(shape))
    for t in range(T):
        v = [int(ctx.rng.random() < .6) for _ in range(n)]
        pos = ctx.rng.sample(range(n), lanes)
        x = torch.tensor(v).to(dtype)
        if t >= T - k:
            s = ctx.bits(f"{name}{t}", (lanes,), dtype)
            for j, p in enumerate(pos):
                x[p] = s[j]
        yield t, x.reshape(tuple(shape))


# ------------------------------------------------------------------ K02 FSUMul, static multiplier
def mul_static_cfgs(tier, rng):
    out = []
    for w in (1, 2, 3, 4, 5) if tier == "quick" else (1, 2, 3, 4, 5, 6, 8):
        for mode in ("unipolar", "bipolar"):
            for kind in ("Sobol", "race", "tc10"):
                n = 2 ** w
                k = {1: 8, 2: 8, 3: 7, 4: 6, 5: 5}.get(w, 5) + (0 if tier == "quick" else 2)
                out.append(dict(w=w, mode=rng.choice([mode, mode.upper()]), rng=kind, d=rng.choice([1, 1, 2, 3, 5]), k=k, T=rng.choice([k, n + 3, 2 * n + 2]), shape=rng.choice([[1], [2], [2, 1]]), bc=rng.random() < .4,
                                st=rng.choice(["f32", "i8", "f64"]), it=rng.choice(["f32", "i8"]), rt=rng.choice(["f32", "i64"])))
    # long sequences, far into them (and round their end)
    for w, T, style, mode, it in ((8, 270, "ones", "unipolar", "i8"), (8, 270, "zeros", "bipolar", "i8"), (10, 530, "alt", "bipolar", "f32"), (9, 520, "zeros", "bipolar", "f32"), (10, 270, "ones", "bipolar", "i8"), (11, 2049, "ones", "unipolar", "i8"), (12, 4098, "zeros", "bipolar", "i8")):
        out.append(dict(w=w, mode=mode, rng="Sobol", d=1, k=2, T=T, shape=[1], bc=False, st="f32", it=it, rt="f32", style=style))
    return out


@scenario("K02", late(mul_static_cfgs, 4))
def fsumul_static(ctx, cfg):
    from UnarySim.kernel import FSUMul
    from UnarySim.stream import RNG
    w, mode = cfg["w"], cfg["mode"].lower()
    n, g = 2 ** w, w + 1
    ps = [1] if cfg["bc"] else cfg["shape"]
    x = ctx.grid("p", ps, 0 if mode == "unipolar" else -2 ** g, 2 ** g, g)
    hw = {"width": w, "mode": cfg["mode"], "static": True, "rng": cfg["rng"], "dimr": cfg["d"]}
    sw = {"rtype": DT[cfg["rt"]], "stype": DT[cfg["st"]]}
    m = FSUMul(in_1_prob=x, hwcfg=hw, swcfg=sw)
    seq = rng_ref(cfg["rng"], w, cfg["d"])
    b = np.broadcast_to(vmap(lambda v: qbin(v, w, mode), ctx.vals(x)), tuple(cfg["shape"]))
    # the bit generator as a table over its index
    tab = arr(cfg["shape"], lambda i: [b2i(gt(b[i], s)) for s in seq])
    c1, c0 = arr(cfg["shape"], lambda i: 0), arr(cfg["shape"], lambda i: 0)
    for t, a in bitstream(ctx, "a", cfg["T"], cfg["shape"], cfg["k"], DT[cfg["it"]], style=cfg.get("style")):
        o = ctx.step(m, a)
        if t == 0:
            meta(ctx, "out", o, cfg["shape"], DT[cfg["st"]])
        av, ov = ctx.vals(a), ctx.vals(o)
        for i in np.ndindex(*cfg["shape"]):
            one = pickat(tab[i], modc(c1[i], n))
            if mode == "unipolar":
                r = ite(eq(av[i], 1), one, 0)
            else:
                r = ite(eq(av[i], 1), one, 1 - pickat(tab[i], modc(c0[i], n)))
                c0[i] = c0[i] + 1 - av[i]
            c1[i] = c1[i] + av[i]
            ctx.check(f"reference@{t}", eq(ov[i], r))


def pickat(tab, idx):
    """tab[idx] over the values idx can take"""
    if not isinstance(idx, ir.Node):
        return tab[int(idx)]
    L, H = int(ir.lo(idx)), int(ir.hi(idx))
    r = tab[H]
    for j in range(H - 1, L - 1, -1):
        r = ite(eq(idx, j), tab[j], r)
    return r


@scenario("K02", lambda tier, rng: [dict(w=w, mode=m, rng=k, d=rng.choice([1, 2, 4])) for w in ((2, 3, 4, 5) if tier == "quick" else (2, 3, 4, 5, 6)) for m in ("unipolar", "bipolar") for k in ("sobol", "sys", "race", "race10")])
def fsumul_period(ctx, cfg):
    """a constant-one (constant-zero) input over one period returns the (negated) multiplier exactly, whatever the sequence"""
    from UnarySim.kernel import FSUMul
    w, mode, n = cfg["w"], cfg["mode"], 2 ** cfg["w"]
    g = w + 1
    x = ctx.grid("p", (1,), 0 if mode == "unipolar" else -2 ** g, 2 ** g, g)
    b = qbin(ctx.val(x), w, mode)
    for bit in (1, 0):
        m = FSUMul(in_1_prob=x, hwcfg={"width": w, "mode": mode, "static": True, "rng": cfg["rng"], "dimr": cfg["d"]}, swcfg={"rtype": F32, "stype": F32})
        s = Sum([ctx.val(ctx.step(m, torch.full((1,), float(bit)))) for _ in range(n)])
        ctx.check(f"period{bit}", eq(s, b if bit else (0 if mode == "unipolar" else n - b)))


# ------------------------------------------------------------------ K03 FSUMul, both in stream
def mul_stream_cfgs(tier, rng):
    out = []
    for w in (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5):
        for mode in ("unipolar", "bipolar"):
            for kind in ("Sobol", "TC"):
                n = 2 ** w
                k = {1: 7, 2: 6, 3: 5, 4: 4}.get(w, 4) + (0 if tier == "quick" else 1)
                for T in (k, n + 3, 3 * n + 2):
                    out.append(dict(w=w, mode=mode, rng=kind, d=rng.choice([1, 1, 2, 3]), k=k, T=T, shape=rng.choice([[1], [1], [2]]), st=rng.choice(["f32", "i8"]), it=rng.choice(["f32", "i8"])))
    for mode in ("unipolar", "bipolar"):
        out.append(dict(w=8, mode=mode, rng="Sobol", d=1, k=2, T=300, shape=[1], st="f32", it="f32"))
        out.append(dict(w=10, mode=mode, rng="Sobol", d=1, k=2, T=1028, shape=[1], st="f32", it="f32"))
    return out


@scenario("K03", late(mul_stream_cfgs, 3))
def fsumul_stream(ctx, cfg):
    from UnarySim.kernel import FSUMul
    w, mode = cfg["w"], cfg["mode"].lower()
    n, sh = 2 ** w, cfg["shape"]
    if cfg["it"] == "i8" and w > 6:
        raise AssertionError
    m = FSUMul(hwcfg={"width": w, "mode": cfg["mode"], "static": False, "rng": cfg["rng"], "dimr": cfg["d"]}, swcfg={"rtype": F32, "stype": DT[cfg["st"]]})
    seq = rng_ref(cfg["rng"], w, cfg["d"])
    sr = machines(sh, lambda: RShift(n))
    c1, c0 = arr(sh, lambda i: 0), arr(sh, lambda i: 0)
    for (t, a), (_, b) in zip(bitstream(ctx, "a", cfg["T"], sh, cfg["k"], DT[cfg["it"]]), bitstream(ctx, "b", cfg["T"], sh, cfg["k"], DT[cfg["it"]])):
        o = ctx.step(m, a, b)
        if t == 0:
            meta(ctx, "out", o, sh, DT[cfg["st"]])
        av, bv, ov = ctx.vals(a), ctx.vals(b), ctx.vals(o)
        for i in np.ndindex(*sh):
            _, cnt = sr[i].step(bv[i])
            one = b2i(gt(cnt, pickat(seq, c1[i])))
            if mode == "unipolar":
                r = ite(eq(av[i], 1), one, 0)
            else:
                r = ite(eq(av[i], 1), one, 1 - b2i(gt(cnt, pickat(seq, c0[i]))))
                c0[i] = modc(c0[i] + 1 - av[i], n)
            c1[i] = modc(c1[i] + av[i], n)
            ctx.check(f"reference@{t}", eq(ov[i], r))


# ------------------------------------------------------------------ K04 ShiftReg
def shiftreg_cfgs(tier, rng):
    out = []
    for n in (1, 2, 3, 4, 5, 8):
        for mask in ("no", "yes", "mixed"):
            for sh in ([1], [3], [2, 2]):
                k = (6 if len(sh) == 1 else 4) + (0 if tier == "quick" else 3)
                out.append(dict(n=n, mask=mask, shape=sh, k=k, T=k + rng.choice([0, n, 2 * n]), st=rng.choice(["f32", "i8"]), it=rng.choice(["f32", "i8"]), deep=rng.random() < .7))
    # long registers
    for n, T in ((33, 70), (64, 66), (100, 230), (256, 258), (600, 1201)):
        out.append(dict(n=n, mask=rng.choice(["no", "yes", "mixed"]), shape=[1], k=2, T=T, st="f32", it="f32", deep=True))
    return out


@scenario("K04", late(shiftreg_cfgs, 6))
def shiftreg(ctx, cfg):
    from UnarySim.kernel import ShiftReg
    n, sh = cfg["n"], cfg["shape"]
    dt = DT[cfg["it"]]
    m = ShiftReg({"entry": n}, {"stype": DT[cfg["st"]] if cfg["mask"] == "no" else dt})
    ref = machines(sh, lambda: RShift(n))
    for (t, x), (_, e) in zip(bitstream(ctx, "x", cfg["T"], sh, cfg["k"], dt), bitstream(ctx, "e", cfg["T"], sh, cfg["k"], dt)):
        idx = ctx.rng.randrange(n) if cfg["deep"] else 0
        um = cfg["mask"] == "yes" or cfg["mask"] == "mixed" and t % 2
        before = ctx.vals(x).copy()
        a = {} if idx == 0 and t % 3 else {"index": idx}
        o, c = ctx.step(m, x, mask=e, **a) if um else ctx.step(m, x, **a)
        # what was returned must not change with later shifts: read it again one step on
        ctx.isvalue(o); ctx.isvalue(c)
        ctx.check("shapes", tuple(o.shape) == tuple(sh) and tuple(c.shape) == tuple(sh))
        ctx.check(f"input untouched@{t}", same(before, ctx.vals(x)))
        ov, cv, ev = ctx.vals(o), ctx.vals(c), ctx.vals(e)
        for i in np.ndindex(*sh):
            q, s = ref[i].step(before[i], ev[i] if um else 1, idx)
            ctx.check(f"tap@{t}", eq(ov[i], q))
            ctx.check(f"count@{t}", eq(cv[i], s))


# ------------------------------------------------------------------ K05 JKFF
@scenario("K05", late(lambda tier, rng: [dict(shape=sh, k=k, T=T, st=st, it=it) for sh, k in (([1], 10 if tier == "quick" else 16), ([3], 6), ([2, 2], 5)) for T in (k, k + 9) for st, it in (("f32", "f32"), ("i8", "i8"), ("i8", "f32"), ("f32", "i8"))], 3))
def jkff(ctx, cfg):
    from UnarySim.kernel import JKFF
    m, sh = JKFF({"stype": DT[cfg["st"]]}), cfg["shape"]
    ref = machines(sh, RJK)
    for (t, j), (_, k) in zip(bitstream(ctx, "j", cfg["T"], sh, cfg["k"], DT[cfg["it"]]), bitstream(ctx, "k", cfg["T"], sh, cfg["k"], DT[cfg["it"]])):
        o = ctx.step(m, j, k)
        if t == 0:
            meta(ctx, "out", o, sh, DT[cfg["st"]])
        jv, kv, ov = ctx.vals(j), ctx.vals(k), ctx.vals(o)
        for i in np.ndindex(*sh):
            ctx.check(f"reference@{t}", eq(ov[i], ref[i].step(jv[i], kv[i])))


# ------------------------------------------------------------------ K06 FSUSignAbs, K07 FSUReLU
def acc_cfgs(depths, ks):
    def f(tier, rng):
        out = []
        k = ks[0] if tier == "quick" else ks[1]
        for d in depths:
            for st, bt in (("f32", "f32"), ("i8", "f32"), ("f32", "i32" if d > 6 else "i8"), ("i8", "f64")):
                for T in (k, k + 2 ** d, k + 2 ** d * 2):
                    sh = rng.choice([[1], [2], [2, 2]])
                    out.append(dict(d=d, st=st, bt=bt, k=k if len(sh) == 1 else k // 2, T=min(T, 300), it=rng.choice(["f32", "i8"]), shape=sh))
        return out
    return f


@scenario("K06", deep(late(acc_cfgs((2, 3, 4, 6), (10, 16)), 4), (8, 10, 12), lambda d: 2 ** (d - 1) + 1, lambda d: 2 ** (d - 1) + 1))
def signabs(ctx, cfg):
    from UnarySim.kernel import FSUSignAbs
    m = FSUSignAbs({"depth": cfg["d"]}, {"btype": DT[cfg["bt"]], "stype": DT[cfg["st"]]})
    sh = cfg["shape"]
    ref = machines(sh, lambda: RSignAbs(cfg["d"]))
    net, sat = arr(sh, lambda i: 0), arr(sh, lambda i: False)
    for t, x in bitstream(ctx, "x", cfg["T"], sh, cfg["k"], DT[cfg["it"]], where=cfg.get("where"), style=cfg.get("style")):
        s, a = ctx.step(m, x)
        if t == 0:
            meta(ctx, "sign", s, sh, DT[cfg["st"]])
            meta(ctx, "abs", a, sh, DT[cfg["st"]])
        xv, sv, av = ctx.vals(x), ctx.vals(s), ctx.vals(a)
        for i in np.ndindex(*sh):
            net[i] = net[i] + xv[i] * 2 - 1
            sat[i] = Or(sat[i], gt(net[i], 2 ** (cfg["d"] - 1) - 1), lt(net[i], -2 ** (cfg["d"] - 1)))
            g, o = ref[i].step(xv[i])
            ctx.check(f"sign@{t}", eq(sv[i], g))
            ctx.check(f"abs@{t}", eq(av[i], o))
            ctx.check(f"sign is the sign of the history@{t}", Or(sat[i], Iff(eq(sv[i], 1), lt(net[i], 0))))


@scenario("K07", deep(late(acc_cfgs((1, 2, 3, 5), (12, 18)), 4), (8, 10, 12), lambda d: 2 ** (d - 1) + 1, lambda d: 2 ** (d - 1) + 1))
def fsurelu(ctx, cfg):
    from UnarySim.kernel import FSUReLU
    d = cfg["d"]
    m = FSUReLU({"depth": d}, {"btype": DT[cfg["bt"]], "stype": DT[cfg["st"]]})
    sh = cfg["shape"]
    top, half = 2 ** d - 1, 2 ** (d - 1)
    acc = arr(sh, lambda i: half)
    net = arr(sh, lambda i: 0)
    for t, x in bitstream(ctx, "x", cfg["T"], sh, cfg["k"], DT[cfg["it"]], where=cfg.get("where"), style=cfg.get("style")):
        o = ctx.step(m, x)
        if t == 0:
            meta(ctx, "out", o, sh, DT[cfg["st"]])
        xv, ov = ctx.vals(x), ctx.vals(o)
        for i in np.ndindex(*sh):
            r = ite(lt(acc[i], half), 1, xv[i])
            acc[i] = clampv(acc[i] + r * 2 - 1, 0, top)
            net[i] = net[i] + ov[i] * 2 - 1
            ctx.check(f"reference@{t}", eq(ov[i], r))
            # never more than one zero ahead: the decoded prefix is not below bipolar zero by more than one cycle
            ctx.check(f"not negative@{t}", ge(net[i], -1)) if d == 1 else None


# ------------------------------------------------------------------ K08 activations
@scenario("K08", late(lambda tier, rng: [dict(mode=m, d=d, st=st, bt=bt, k=k, T=T, shape=sh) for m in ("unipolar", "Bipolar") for d, T in ((4, 20), (8, 12), (5, 40), (8, 140)) for st, bt in (("f32", "f32"), ("i8", "f32")) for sh, k in (([1], 10), ([2, 2], 4))], 3))
def fsuhardsigmoid(ctx, cfg):
    from UnarySim.kernel import FSUHardsigmoid
    m = FSUHardsigmoid({"mode": cfg["mode"], "depth": cfg["d"]}, {"btype": DT[cfg["bt"]], "stype": DT[cfg["st"]]})
    sh = cfg["shape"]
    ref = machines(sh, lambda: RAdd(cfg["mode"].lower(), 2, 2, cfg["d"]))
    ins, outs = arr(sh, lambda i: 0), arr(sh, lambda i: 0)
    for t, x in bitstream(ctx, "x", cfg["T"], sh, cfg["k"]):
        o = ctx.step(m, x)
        if t == 0:
            meta(ctx, "out", o, sh, DT[cfg["st"]])
        xv, ov = ctx.vals(x), ctx.vals(o)
        for i in np.ndindex(*sh):
            ins[i], outs[i] = ins[i] + xv[i], outs[i] + ov[i]
            ctx.check(f"reference@{t}", eq(ov[i], ref[i].step(xv[i] + 1)))
            r = ins[i] + (t + 1) - outs[i] * 2
            ctx.check(f"half@{t}", And(ge(r, 0), le(r, 1)))


@scenario("K08", lambda tier, rng: [dict(fn=f, p=p, shape=sh, g=g, dt=dt) for f, p in (("hardtanh", None), ("fsuhardtanh", None), ("relu", 1.0), ("relu", 2.5), ("relu", 0.5), ("relu", 0.0625), ("relu", 6), ("relu", None), ("sigmoid", None), ("sigmoid", 3), ("sigmoid", 1), ("sigmoid", 6)) for sh, g, dt in (([2], 3, "f32"), ([1, 2], 1, "f64"), ([2, 2], 6, "f32"))])
def hub_activations(ctx, cfg):
    from UnarySim.kernel import HUBHardtanh, HUBReLU, HUBHardsigmoid, FSUHardtanh
    dt = DT[cfg["dt"]]
    x = ctx.grid("x", cfg["shape"], -5 * 2 ** cfg["g"], 5 * 2 ** cfg["g"], cfg["g"], dt)
    before = ctx.vals(x).copy()
    f, p = cfg["fn"], cfg["p"]
    a = () if p is None else (p,)
    m = {"hardtanh": HUBHardtanh, "fsuhardtanh": FSUHardtanh, "relu": HUBReLU, "sigmoid": HUBHardsigmoid}[f](*a)
    o = ctx.step(m, x)
    meta(ctx, "out", o, cfg["shape"], dt)
    v = ctx.vals(o)
    ctx.check("input untouched", same(before, ctx.vals(x)))
    for i in np.ndindex(*cfg["shape"]):
        b = before[i]
        if f == "hardtanh":
            ctx.check(f"reference@{i}", eq(v[i], clampv(b, -1, 1)))
        elif f == "fsuhardtanh":
            ctx.check(f"reference@{i}", eq(v[i], b))
        elif f == "relu":
            ctx.check(f"reference@{i}", eq(v[i], clampv(b, 0, Fraction(1 if p is None else p))))
        else:
            s = 3 if p is None else p
            y = clampv(b * s + 3, 0, 6)
            # relu6(s*x + 3) / 6 up to rounding
            ctx.check(f"reference@{i}", le(absv(v[i] * 6 - y), Fraction(1, 2 ** 18)))
            ctx.check(f"range@{i}", And(ge(v[i], 0), le(v[i], 1)))


# ------------------------------------------------------------------ K09 CORDIV, K10 FSUDiv
@scenario("K09", late(lambda tier, rng: [dict(n=n, rng=r, d=d, k=k + (0 if tier == "quick" else 3), T=k + x, shape=sh, st=st) for n in (2, 4, 8) for r, d in (("Sobol", 4), ("Sobol", 1), ("race", 2), ("TC10", 1)) for sh, k in (([1], 7), ([2], 4), ([2, 2], 3)) for x, st in ((0, "f32"), (9, "f32"), (5, "i8"))] + [dict(n=n, rng=r, d=rng.choice([1, 2, 4]), k=3, T=T, shape=[1], st="f32", where="tail") for n, r, T in ((32, "Sobol", 70), (64, "race", 140), (256, "Sobol", 530))], 4))
def cordiv(ctx, cfg):
    from UnarySim.kernel import CORDIV_kernel
    n, sh, dt = cfg["n"], cfg["shape"], DT[cfg["st"]]
    m = CORDIV_kernel({"entry": n, "rng": cfg["rng"], "dimr": cfg["d"]}, {"stype": dt})
    seq = rng_ref(cfg["rng"], ulog2(n), cfg["d"])
    ref = machines(sh, lambda: RCordiv(n, seq))
    for (t, x), (_, d) in zip(bitstream(ctx, "x", cfg["T"], sh, cfg["k"], dt, where=cfg.get("where"), style=cfg.get("style")), bitstream(ctx, "d", cfg["T"], sh, cfg["k"], dt, where=cfg.get("where"), style=cfg.get("style_d"))):
        o = ctx.step(m, x, d)
        if t == 0:
            meta(ctx, "out", o, sh, dt)
        xv, dv, ov = ctx.vals(x), ctx.vals(d), ctx.vals(o)
        for i in np.ndindex(*sh):
            ctx.check(f"valid divisor passes the dividend@{t}", Implies(eq(dv[i], 1), eq(ov[i], xv[i])))
            ctx.check(f"reference@{t}", eq(ov[i], ref[i].step(xv[i], dv[i])))


@scenario("K10", late(lambda tier, rng: [dict(mode=mode, sa=rng.choice([2, 3, 4]), ss=rng.choice([1, 2, 3]), kn=kn, rng=r, d=d, k=k + (0 if tier == "quick" else 3), T=k + x, shape=sh, st=st) for mode in ("unipolar", "bipolar", "Bipolar") for kn in (2, 4) for r, d in (("Sobol", 4), ("race", 1), ("Sobol", 1)) for sh, k in (([1], 6 if mode == "unipolar" else 5), ([2], 4)) for x, st in ((0, "f32"), (12, "f32"), (40, "i8"))] + [dict(mode=mode, sa=sa, ss=ss, kn=kn, rng="Sobol", d=1, k=2, T=T, shape=[1], st="f32", where="tail", style=sx, style_d=sd) for mode, sa, ss, kn, T, sx, sd in (("unipolar", 3, 8, 64, 514, "ones:257", "zeros:257"), ("bipolar", 8, 8, 16, 260, "ones:130", "zeros:130"), ("bipolar", 9, 7, 32, 400, "random", "random"), ("bipolar", 10, 9, 16, 1030, "zeros:514", "zeros:513"), ("unipolar", 3, 10, 16, 2050, "ones:1025", "zeros:1025"))], 4))
def fsudiv(ctx, cfg):
    from UnarySim.kernel import FSUDiv
    mode, sh, dt, n = cfg["mode"].lower(), cfg["shape"], DT[cfg["st"]], cfg["kn"]
    m = FSUDiv({"depth_sa": cfg["sa"], "depth_ss": cfg["ss"], "entry_kn": n, "mode": cfg["mode"], "rng": cfg["rng"], "dimr": cfg["d"]}, {"stype": dt, "btype": F32})
    seq = rng_ref(cfg["rng"], ulog2(n), cfg["d"])
    R = arr(sh, lambda i: (RSync(cfg["ss"]), RCordiv(n, seq), RSignAbs(cfg["sa"]), RSignAbs(cfg["sa"]), RB2U(3), RB2U(3), RU2B(4)))
    for (t, x), (_, d) in zip(bitstream(ctx, "x", cfg["T"], sh, cfg["k"], dt, where=cfg.get("where"), style=cfg.get("style")), bitstream(ctx, "d", cfg["T"], sh, cfg["k"], dt, where=cfg.get("where"), style=cfg.get("style_d"))):
        o = ctx.step(m, x, d)
        if t == 0:
            meta(ctx, "out", o, sh, dt)
        xv, dv, ov = ctx.vals(x), ctx.vals(d), ctx.vals(o)
        for i in np.ndindex(*sh):
            sy, kn, a1, a2, b1, b2, ub = R[i]
            p, q = xv[i], dv[i]
            if mode == "bipolar":
                s1, p = a1.step(p)
                s2, q = a2.step(q)
                p, q = b1.step(p), b2.step(q)
            r = kn.step(*sy.step(p, q))
            if mode == "bipolar":
                r = xor01(xor01(s1, s2), ub.step(r))
            ctx.check(f"bit@{t}", isbit(ov[i]))
            ctx.check(f"reference@{t}", eq(ov[i], r))


# ------------------------------------------------------------------ K11 FSUSqrt
@scenario("K11", late(lambda tier, rng: [dict(mode=mode, emit=em, jk=jk, sr=sr, rng=r, k=k + (0 if tier == "quick" else 3), T=k + x, shape=sh, st=rng.choice(["f32", "i8"]), it=rng.choice(["f32", "i8"])) for mode in ("unipolar", "Bipolar") for em, jk, sr in ((True, True, 2), (True, False, 4), (True, True, 8), (False, True, 2), (False, False, 2)) for r in ("Sobol", "race") for sh, k in (([1], 10), ([2], 5), ([2, 2], 4)) for x in (0, 14, 50)] + [dict(mode=mode, emit=True, jk=True, sr=sr, rng="Sobol", k=3, T=T, shape=[1], st="f32", it="f32") for mode, sr, T in (("unipolar", 16, 60), ("bipolar", 32, 120), ("bipolar", 128, 300), ("unipolar", 256, 640))] + [dict(mode="unipolar", emit=True, jk=True, sr=sr, rng="Sobol", k=3, T=T, shape=[1], st="f32", it="f32", where="tail", style="ones") for sr, T in ((2, 700), (64, 1100))], 4))
def fsusqrt(ctx, cfg):
    from UnarySim.kernel import FSUSqrt
    mode, sh, em, jk = cfg["mode"].lower(), cfg["shape"], cfg["emit"], cfg["jk"]
    m = FSUSqrt({"mode": cfg["mode"], "jk_trace": jk, "emit": em, "entry_kn": 1, "entry_sr": cfg["sr"], "rng": cfg["rng"], "dimr": 4}, {"stype": DT[cfg["st"]], "btype": F32})
    seq = rng_ref(cfg["rng"], 2, 4)
    R = arr(sh, lambda i: dict(add=RAdd("unipolar", 2, 1, 10), sr=RShift(cfg["sr"]), b2u=RB2U(3), jk=RJK(), kn=RCordiv(4, seq), back=0))
    for t, x in bitstream(ctx, "x", cfg["T"], sh, cfg["k"], DT[cfg["it"]], where=cfg.get("where"), style=cfg.get("style")):
        o = ctx.step(m, x)
        if t == 0:
            meta(ctx, "out", o, sh, DT[cfg["st"]])
        xv, ov = ctx.vals(x), ctx.vals(o)
        for i in np.ndindex(*sh):
            s = R[i]
            if em:
                r = s["add"].step(xv[i] + s["back"])
                tap, _ = s["sr"].step(1 - r)
                u = s["b2u"].step(r) if mode == "bipolar" else r
                s["back"] = ite(eq(tap, 1), u, 0)
            else:
                r = ite(eq(s["back"], 1), 1, xv[i])
                u = s["b2u"].step(r) if mode == "bipolar" else r
                if jk:
                    s["back"] = s["jk"].step(u, 1)
                else:
                    d = t % 2
                    p = 0 if d else u
                    s["back"] = s["kn"].step(p, d if d else p)
            ctx.check(f"bit@{t}", isbit(ov[i]))
            ctx.check(f"reference@{t}", eq(ov[i], r))
