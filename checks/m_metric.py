"""Metrics: every observed history."""
from . import scenario
from .util import *

TOL = Fraction(1, 2 ** 18)


def pairs_cfgs(tier, rng):
    out = []
    k = 5 if tier == "quick" else 7
    for two in (True, False):
        for T in (1, 2, 3, k, k + 4, k + 20):
            for sh, kk in (([1], k), ([2], 2 if T > 20 else 3)) if T > 3 else (([1], T), ([2, 1], T)):
                kk = min(kk + (0 if two else 2), T)
                out.append(dict(two=two, T=T, k=kk, shape=sh, it=rng.choice(["f32", "i8", "f32"]), poll=rng.random() < .3))
    return out


@scenario("M01", late(late(pairs_cfgs, 4, T=290), 2, T=1100))
def correlation(ctx, cfg):
    from UnarySim.metric import Correlation
    m, sh, T = Correlation(), cfg["shape"], cfg["T"]
    n = arr(sh, lambda i: dict(a=0, b=0, c=0, d=0))
    prev = arr(sh, lambda i: 0)
    for (t, x), (_, y) in zip(bitstream(ctx, "x", T, sh, cfg["k"], DT[cfg["it"]]), bitstream(ctx, "y", T, sh, cfg["k"], DT[cfg["it"]])):
        xv = ctx.vals(x).copy()
        yv = ctx.vals(y).copy() if cfg["two"] else prev
        ctx.nsteps += 1
        if cfg["two"]:
            m.Monitor(x, y)
            ctx.check(f"second untouched@{t}", same(yv, ctx.vals(y)))
        else:
            m.Monitor(x)
        ctx.check(f"first untouched@{t}", same(xv, ctx.vals(x)))
        for i in np.ndindex(*sh):
            p, q, c = xv[i], yv[i], n[i]
            for key, u, v in (("a", 1, 1), ("b", 1, 0), ("c", 0, 1), ("d", 0, 0)):
                c[key] = c[key] + b2i(And(eq(p, u), eq(q, v)))
        prev = xv
        if t == T - 1 or cfg["poll"] and t >= T - 2:
            before = ctx.vals(x).copy()
            o = m()
            ctx.isvalue(o)
            ctx.check("shape", tuple(o.shape) == tuple(sh))
            ctx.check("asking again", same(ctx.vals(o), ctx.vals(m())))
            ov = ctx.vals(o)
            for i in np.ndindex(*sh):
                a, b, c, d = (n[i][z] for z in "abcd")
                L = t + 1
                num = a * d - b * c
                d1 = maxv(minv(a + b, a + c) * L - (a + b) * (a + c), 1)
                d2 = maxv((a + b) * (a + c) - maxv(a - d, 0) * L, 1)
                den = ite(gt(num, 0), d1, d2)
                ref = ite(gt(num, 0), fdiv32(num, d1), fdiv32(num, d2))
                exact = eq(ov[i], ref)
                ctx.check(f"scc@{t}", Or(exact, le(absv(ov[i] * den - num), TOL * den)))
                if exact is True:
                    # the very quotient: what is left concerns the integers
                    ctx.check(f"range@{t}", le(absv(num), den))
                else:
                    ctx.check(f"range@{t}", And(ge(ov[i], -1), le(ov[i], 1)))
                    ctx.check(f"zero@{t}", Iff(eq(ov[i], 0), eq(num, 0)))
                if cfg["two"]:
                    same_, opp = And(eq(b, 0), eq(c, 0), gt(a, 0), gt(d, 0)), And(eq(a, 0), eq(d, 0), gt(b, 0), gt(c, 0))
                    ctx.check(f"identical@{t}", Implies(same_, eq(num, den) if exact is True else eq(ov[i], 1)))
                    ctx.check(f"complementary@{t}", Implies(opp, eq(num, -den) if exact is True else eq(ov[i], -1)))


def prog_cfgs(tier, rng):
    out = []
    k = 8 if tier == "quick" else 12
    for mode in ("unipolar", "bipolar"):
        for scale in (1, 2, 0.5, 3):
            for T in (1, 2, 5, k, k + 5, 60):
                sh = rng.choice([[1], [2], [2, 2]])
                kk = min(T, k if sh == [1] else 4)
                out.append(dict(mode=rng.choice([mode, mode.upper()]), scale=scale, T=T, k=kk, shape=sh, it=rng.choice(["f32", "i8"]), g=rng.choice([2, 4]), one=rng.random() < .25))
    return out


@scenario("M02", late(prog_cfgs, 4, T=290))
def progerror(ctx, cfg):
    from UnarySim.metric import ProgError
    mode, sh, T, s = cfg["mode"].lower(), cfg["shape"], cfg["T"], Fraction(cfg["scale"])
    ss = [1] if cfg["one"] else sh
    src = ctx.grid("s", ss, -4 * 2 ** cfg["g"], 4 * 2 ** cfg["g"], cfg["g"])
    sv = ctx.vals(src).copy()
    hw = {"scale": cfg["scale"], "mode": cfg["mode"]}
    m = ProgError(src, hw)
    ones = arr(sh, lambda i: 0)
    want = np.broadcast_to(sv, tuple(sh))
    for t, x in bitstream(ctx, "x", T, sh, cfg["k"], DT[cfg["it"]]):
        xv = ctx.vals(x).copy()
        ctx.nsteps += 1
        m.Monitor(x)
        ctx.check(f"stream untouched@{t}", same(xv, ctx.vals(x)))
        for i in np.ndindex(*sh):
            ones[i] = ones[i] + xv[i]
        if t >= T - 3 or t % 7 == 0:
            pp, pe = m()
            ctx.isvalue(pp); ctx.isvalue(pe)
            ctx.check("shape", tuple(pp.shape) == tuple(sh) and tuple(pe.shape) == tuple(sh))
            pv, ev = ctx.vals(pp), ctx.vals(pe)
            for i in np.ndindex(*sh):
                # values as exact rationals over the cycle count, up to rounding
                v = ones[i] if mode == "unipolar" else ones[i] * 2 - (t + 1)
                c = clampv(want[i], -s, s)
                ctx.check(f"decoded@{t}", le(absv(pv[i] * (t + 1) - v), TOL * (t + 1)))
                ctx.check(f"error@{t}", le(absv((ev[i] - pv[i]) * s + c), TOL * s))
    ctx.check("source untouched", same(sv, ctx.vals(src)))
    ctx.check("config untouched", hw == {"scale": cfg["scale"], "mode": cfg["mode"]})


@scenario("M02", lambda tier, rng: [dict(T=T, v=v, r=r) for T in (1, 4) for v in (False, True) for r in (False, True)])
def report(ctx, cfg):
    """the printed summary needs nothing but the documented metric (concrete run, symbolic source clamped away)"""
    from UnarySim.metric import ProgError
    from UnarySim.kernel import progerror_report
    import io, contextlib
    src = torch.tensor([0.25, -0.5, 0.75])
    m = ProgError(src, {"scale": 1, "mode": "bipolar"})
    last = None
    for t in range(cfg["T"]):
        x = torch.tensor([float(ctx.rng.random() < .6) for _ in range(3)])
        m.Monitor(x)
    b = ctx.bits("x", (3,))
    m.Monitor(b)
    f = io.StringIO()
    before = [ctx.vals(v).copy() for v in m()]
    with contextlib.redirect_stdout(f):
        progerror_report(m, "p", report_value=cfg["v"], report_relative=cfg["r"])
    txt = f.getvalue()
    ctx.check("lines", txt.count("\n") == 1 + 2 * cfg["v"] + cfg["r"])
    e = before[1]
    lo_, hi_ = minv(minv(e[0], e[1]), e[2]), maxv(maxv(e[0], e[1]), e[2])
    line = [l for l in txt.splitlines() if "Absolute" in l][0]
    a, b2 = line.split("range,")[1].split(",")[:2]
    near = lambda v, p: le(absv(v * 10 ** 6 - int(Fraction(p.strip()) * 10 ** 6)), 8)
    ctx.check("range printed", And(near(lo_, a), near(hi_, b2)))
    ctx.check("state kept", And(*[same(p, ctx.vals(q)) for p, q in zip(before, m())]))


def stab_cfgs(tier, rng):
    out = []
    k = 5 if tier == "quick" else 8
    for mode in ("unipolar", "bipolar"):
        for th in (0.05, 0.25, 0.125):
            for T in (1, 3, k, k + 3, 40):
                sh = rng.choice([[1], [2]])
                out.append(dict(mode=rng.choice([mode, mode.capitalize()]), th=th, T=T, k=min(T, k if sh == [1] else 3), shape=sh, scale=rng.choice([1, 1, 2]), g=2, it=rng.choice(["f32", "i8"]), ask=rng.random() < .5))
    # tiny thresholds, and streams that come as close to their source
    for mode, th, T in (("bipolar", 2.0 ** -11, 1032), ("unipolar", 2.0 ** -12, 1030), ("unipolar", 0.0, 600), ("bipolar", 0, 301)):
        out.append(dict(mode=mode, th=th, T=T, k=2, shape=[1], scale=1, g=1, it="f32", ask=False, style="alt", where="tail"))
    return out


@scenario("M03", late(stab_cfgs, 2, T=290))
def stability(ctx, cfg):
    from UnarySim.metric import Stability
    mode, sh, T, s = cfg["mode"].lower(), cfg["shape"], cfg["T"], Fraction(cfg["scale"])
    th = Fraction(cfg["th"])
    src = ctx.grid("s", sh, 0 if mode == "unipolar" else -2 ** cfg["g"], 2 ** cfg["g"], cfg["g"])
    sv = ctx.vals(src).copy()
    m = Stability(src, {"scale": cfg["scale"], "mode": cfg["mode"], "threshold": cfg["th"]})
    ones, lastl, lasth = arr(sh, lambda i: 0), arr(sh, lambda i: 0), arr(sh, lambda i: 0)
    for t, x in bitstream(ctx, "x", T, sh, cfg["k"], DT[cfg["it"]], where=cfg.get("where"), style=cfg.get("style")):
        xv = ctx.vals(x).copy()
        ctx.nsteps += 1
        m.Monitor(x)
        ctx.check(f"stream untouched@{t}", same(xv, ctx.vals(x)))
        for i in np.ndindex(*sh):
            ones[i] = ones[i] + xv[i]
            v = ones[i] if mode == "unipolar" else ones[i] * 2 - (t + 1)
            err = absv(v - clampv(sv[i], -s, s) * (1 / s) * (t + 1))
            # an error within rounding of the threshold may count either way
            lastl[i] = ite(gt(err, (th + TOL) * (t + 1)), t + 1, lastl[i])
            lasth[i] = ite(gt(err, (th - TOL) * (t + 1)), t + 1, lasth[i])
        if t == T - 1 or cfg["ask"]:
            o = m()
            ctx.isvalue(o)
            ctx.check("shape", tuple(o.shape) == tuple(sh))
            ov = ctx.vals(o)
            for i in np.ndindex(*sh):
                c = (1 - ov[i]) * (t + 1)
                ctx.check(f"stability@{t}", And(ge(c, clampv(lastl[i], 1, t + 1) - TOL * (t + 1)), le(c, clampv(lasth[i], 1, t + 1) + TOL * (t + 1))))
                ctx.check(f"whole cycles@{t}", le(absv(c - roundv(c)), TOL * (t + 1))) if not ir.is_fp(c) else None
                ctx.check(f"range@{t}", And(ge(ov[i], 0), lt(ov[i], 1)))
    ctx.check("source untouched", same(sv, ctx.vals(src)))


# ------------------------------------------------------------------ U05 printed summaries
def printed(f, *a, **k):
    import io, contextlib
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        f(*a, **k)
    return out.getvalue().splitlines()


def number(s):
    return Fraction(s.strip().rstrip("%").strip())


def close(v, p, tol=Fraction(1, 10 ** 5)):
    """v is what was printed, up to the printed digits and float32 arithmetic"""
    n = 2 ** 24
    return And(le(v * n, math.ceil((p + tol) * n)), ge(v * n, math.floor((p - tol) * n)))


@scenario("U05", lambda tier, rng: [dict(sh=sh, g=g, name=n, fixed=f) for sh, g, n, f in (([2], 1, "w", []), ([1, 2], 1, "a long name that exceeds the column it is printed in", []), ([2], 0, "x", [1.0, -1.0, 1.25]), ([1], 2, "tensor", []), ([2, 1], 1, "b", [-3.5]))])
def outliers(ctx, cfg):
    """range and share of the values outside [-1, 1]"""
    from UnarySim.kernel import tensor_unary_outlier
    sh, r = cfg["sh"], 2 ** (cfg["g"] + 1)
    x = ctx.grid("x", sh, -r, r, cfg["g"])
    if cfg["fixed"]:
        x = torch.cat([x.reshape(-1), torch.tensor(cfg["fixed"])])
    xs = list(ctx.vals(x).ravel())
    txt = printed(tensor_unary_outlier, x, cfg["name"])
    ctx.check("one line", len(txt) == 1)
    p = txt[0].split(":")
    ctx.check("name", p[0].strip() == cfg["name"])
    lo_, hi_ = xs[0], xs[0]
    for v in xs[1:]:
        lo_, hi_ = minv(lo_, v), maxv(hi_, v)
    out = Sum([b2i(Or(gt(v, 1), lt(v, -1))) for v in xs])
    ctx.check("min", close(lo_, number(p[2].split(";")[0])))
    ctx.check("max", close(hi_, number(p[3].split(";")[0])))
    ctx.check("outliers", close(out * 100, number(p[4]) * len(xs), Fraction(1, 1000)))
    ctx.check("untouched", And(*[eq(a, b) for a, b in zip(xs, ctx.vals(x).ravel())]))


def stat_cfgs(tier, rng):
    out = []
    for mode in ("unipolar", "bipolar"):
        for T in (2, 4) if tier == "quick" else (1, 2, 3, 4, 8):
            out.append(dict(mode=mode, T=T, src=[rng.choice([0.25, 0.5, 1.0, 0.0]), rng.choice([0.75, 0.125])] if mode == "unipolar" else [rng.choice([-0.5, 0.25]), rng.choice([1.0, -0.75])], scale=rng.choice([1, 2])))
    return out


@scenario("U05", stat_cfgs, max_paths=200)
def statistics(ctx, cfg):
    """every figure of the summary is the statistic its column names"""
    from UnarySim.metric import ProgError
    from UnarySim.kernel import progerror_report
    src, T = torch.tensor(cfg["src"]), cfg["T"]
    m = ProgError(src, {"scale": cfg["scale"], "mode": cfg["mode"]})
    for t in range(T):
        m.Monitor(ctx.bits(f"x{t}", (2,)) if t >= T - 2 else torch.tensor([float(ctx.rng.random() < .6) for _ in range(2)]))
    pp, pe = (list(ctx.vals(v).ravel()) for v in m())
    sv = [Fraction(float(v)) for v in m.source]
    txt = printed(progerror_report, m, "p", report_value=True, report_relative=True)
    ctx.check("lines", len(txt) == 4)

    def row(line, kind, vs, rmse):
        ctx.check(f"{kind} row", kind in line and line.split(",")[0].strip() == "p")
        f = {}
        a = line.split("range,")[1].split(",")
        f["min"], f["max"] = number(a[0]), number(a[1])
        for k, v in zip(a[2::2], a[3::2]):
            f[k.strip()] = number(v)
        lo_, hi_ = minv(vs[0], vs[1]), maxv(vs[0], vs[1])
        ctx.check(f"{kind} min", close(lo_, f["min"]))
        ctx.check(f"{kind} max", close(hi_, f["max"]))
        ctx.check(f"{kind} mean", close(vs[0] + vs[1], 2 * f["mean"]))
        # of two values: the distance over the square root of two
        ctx.check(f"{kind} std", close((hi_ - lo_) * (hi_ - lo_), 2 * f["std"] ** 2, Fraction(1, 10 ** 4)))
        if rmse:
            ctx.check(f"{kind} rmse", close(vs[0] * vs[0] + vs[1] * vs[1], 2 * f["rmse"] ** 2, Fraction(1, 10 ** 4)))
    row(txt[0], "Binary   Value", sv, False)
    row(txt[1], "Unary    Value", pp, False)
    row(txt[2], "Absolute Error", pe, True)
    # relative to the unary value; nothing is divided by zero
    ctx.check("Relative row", "Relative Error" in txt[3])
    a = txt[3].split("range,")[1].split(",")
    lo_, hi_ = (Fraction(round(number(v) * 2 ** 16), 2 ** 16) for v in a[:2])
    inside = [Or(eq(p, 0), And(le(minv(p * lo_, p * hi_) - Fraction(1, 1024), e), le(e, maxv(p * lo_, p * hi_) + Fraction(1, 1024)))) for p, e in zip(pp, pe)]
    ctx.check("Relative range", And(*inside))
    touch = lambda b: Or(*[And(ne(p, 0), le(absv(e - p * b), Fraction(1, 1024))) for p, e in zip(pp, pe)] + [eq(p, 0) for p in pp])
    ctx.check("Relative min", touch(lo_))
    ctx.check("Relative max", touch(hi_))
