"""Scenario contexts, path exploration, solving and replay.

A scenario is  fn(ctx, cfg):  it builds the real modules, feeds them tensors declared
through the context and states checks over their outputs.  The same code runs
symbolically (SymCtx) and, for the replay of a counterexample, concretely (RepCtx)."""
import os, sys, time, random, traceback, json
from fractions import Fraction
import numpy as np
import torch
from . import ir, lower, mode as M, pynum
from .ir import Unsupported, Node
import z3

REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))


class Infeasible(Exception):
    pass


class HarnessError(Exception):
    pass


def from_repo(tb):
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(REPO + "/"):
            return True
        tb = tb.tb_next
    return False


def seed_all(s):
    torch.manual_seed(s)
    random.seed(s)
    np.random.seed(s % (2 ** 32))


class Base:
    sym = False

    def __init__(self, given, seed, repseed=None):
        self.given = given or {}
        self.rng = random.Random(seed)
        self.reprng = random.Random(f"{seed}/rep" if repseed is None else f"{seed}/rep/{repseed}")
        self.checks = []          # (name, cond)
        self.covers = []
        self.assumes = []
        self.used = {}
        self.nsteps = 0

    # -- declarations: representative values -----------------------------
    def _rep(self, key, lo, hi):
        # drawn in any case: the other choices must not depend on what is given
        v = self.reprng.randint(lo, hi)
        v = self.given.get(key, v)
        self.used[key] = v
        return v

    def bits(self, name, shape=(), dtype=torch.float32):
        """a fully symbolic 0/1 tensor"""
        shape = tuple(shape)
        n = int(np.prod(shape)) if shape else 1
        vs = [self._rep(f"{name}.{i}", 0, 1) for i in range(n)]
        t = torch.tensor(vs).to(dtype).reshape(shape)
        self._inject(t, [("b", f"{name}.{i}", 0, 1, v, 0) for i, v in enumerate(vs)])
        return t

    def grid(self, name, shape, lo, hi, g=0, dtype=torch.float32):
        """symbolic numbers k / 2**g, lo <= k <= hi (integers)"""
        shape = tuple(shape)
        n = int(np.prod(shape)) if shape else 1
        vs = [int(self._rep(f"{name}.{i}", lo, hi)) for i in range(n)]
        t = torch.tensor([v / 2.0 ** g if dtype.is_floating_point else v for v in vs], dtype=torch.float64 if dtype.is_floating_point else dtype).to(dtype).reshape(shape)
        self._inject(t, [("n", f"{name}.{i}", lo, hi, v, g) for i, v in enumerate(vs)])
        return t

    def floats(self, name, shape, lo, hi, dtype=torch.float32):
        """arbitrary IEEE floats in [lo, hi]"""
        shape = tuple(shape)
        n = int(np.prod(shape)) if shape else 1
        vs = []
        for i in range(n):
            k = f"{name}.{i}"
            v = float(torch.tensor(self.reprng.uniform(lo, hi), dtype=dtype))
            v = self.given.get(k, v)
            self.used[k] = v
            vs.append(v)
        t = torch.tensor(vs, dtype=torch.float64).to(dtype).reshape(shape)
        self._inject(t, [("f", f"{name}.{i}", lo, hi, v, M.FMT[dtype]) for i, v in enumerate(vs)])
        return t

    def int_(self, name, lo, hi):
        """a symbolic Python integer"""
        return self._rep(name, lo, hi)

    def twin(self, name, t):
        """the same values once more, under variables of their own that an assumption ties to the first ones"""
        return t.clone()

    def pick(self, seq):
        """a concrete (seeded) choice"""
        return self.rng.choice(list(seq))

    def step(self, mod, *a, **k):
        self.nsteps += 1
        return mod(*a, **k)

    def isvalue(self, t):
        if t is None or isinstance(t, (tuple, list, dict, str)):
            self.check("result is a value", False)
            raise HarnessError(f"not a value: {type(t).__name__}")

    def val(self, t):
        v = self.vals(t).ravel()
        if len(v) != 1:
            self.check("result is a single value", False)
            raise HarnessError("val of a non scalar")
        return v[0]


class SymCtx(Base):
    sym = True

    def __init__(self, given, seed, fallback=True):
        super().__init__(given, seed)
        self.mode = M.SymMode()
        self.mode.fallback = fallback
        self.ncheck_trivial = 0

    def _inject(self, t, specs):
        arr = np.empty(len(specs), dtype=object)
        for i, (k, nm, lo, hi, v, g) in enumerate(specs):
            if k == "b":
                arr[i] = ir.b2i(ir.bvar(nm, v)) if t.dtype != torch.bool else ir.bvar(nm, v)
            elif k == "n":
                arr[i] = ir.nvar(nm, lo, hi, v, g)
            else:
                arr[i] = ir.fvar(nm, v, g, lo, hi)
        self.mode.inject(t, arr)

    def int_(self, name, lo, hi):
        return pynum.Num(self.mode, ir.nvar(name, lo, hi, self._rep(name, lo, hi), 0))

    def vals(self, t):
        self.isvalue(t)
        if type(t) is pynum.Num:
            if t.d != 1:
                raise HarnessError("a quotient is not a value")
            return np.array([t.n], dtype=object)
        if not isinstance(t, torch.Tensor):
            return np.array([ir.norm(t)], dtype=object)
        with torch.utils._python_dispatch._disable_current_modes():
            return self.mode.read(t.detach())

    def check(self, name, cond):
        if isinstance(cond, (bool, np.bool_)) and cond:
            self.ncheck_trivial += 1
            return
        self.checks.append((name, bool(cond) if isinstance(cond, np.bool_) else cond))

    def cover(self, name, cond):
        self.covers.append((name, cond))

    def assume(self, cond):
        if isinstance(cond, bool):
            if not cond:
                raise HarnessError("assumption constantly false")
            return
        self.assumes.append(cond)
        if not cond.cv:
            raise Infeasible()

    def feasible(self, cond):
        """can cond hold under the assumptions and the path so far (yes when in doubt)"""
        if isinstance(cond, bool):
            return cond
        if cond.cv:
            return True
        try:
            L = lower.Lower("bv")
            f = [L.lower(x) for x in self.assumes] + [L.lower(b if t else ir.Not(b)) for b, t in self.mode.path] + [L.lower(cond)]
            s = z3.SolverFor("QF_BV")
            s.set("timeout", 5000)
            s.add(*L.side, *f)
            return s.check() != z3.unsat
        except Unsupported:
            return True

    def twin(self, name, t):
        with torch.utils._python_dispatch._disable_current_modes():
            c = t.detach().clone()
            vs = self.vals(t)
            if not any(isinstance(e, Node) for e in vs.ravel()):
                return c
            new = np.empty(vs.size, dtype=object)
            for i, e in enumerate(vs.ravel()):
                if not isinstance(e, Node):
                    new[i] = e
                    continue
                if e.kind == "n" and (e.L, e.H, e.g) == (0, 1, 0):
                    v = ir.b2i(ir.bvar(f"{name}.{i}", int(e.cv)))
                elif e.kind == "n":
                    v = ir.nvar(f"{name}.{i}", e.L, e.H, int(e.cv * 2 ** e.g), e.g)
                else:
                    raise HarnessError("twin of a value that is not on a grid")
                self.assumes.append(ir.eq(v, e))
                new[i] = v
            self.mode.inject(c, new)
        return c

    def failed(self):
        """has a check failed already on the representative inputs (what follows may then make no sense)"""
        return any(not ir.cvof(c) for _, c in self.checks)

    def must_not_depend(self, t):
        return not any(isinstance(x, Node) for x in self.vals(t).ravel())


class RepCtx(Base):
    def _inject(self, t, specs):
        pass

    def vals(self, t):
        self.isvalue(t)
        if not isinstance(t, torch.Tensor):
            return np.array([ir.norm(t)], dtype=object)
        d = t.detach()
        if d.dtype in (torch.float16, torch.bfloat16):
            d = d.double()
        l = d.reshape(-1).tolist()
        return np.array([ir.norm(x) for x in l] + [None], dtype=object)[:-1].reshape(tuple(t.shape))

    def check(self, name, cond):
        if not isinstance(cond, (bool, np.bool_)):
            raise HarnessError(f"check {name} is not concrete in replay: {cond!r}")
        self.checks.append((name, bool(cond)))

    def failed(self):
        return any(not c for _, c in self.checks)

    def cover(self, name, cond):
        pass

    def assume(self, cond):
        if not cond:
            raise HarnessError("replay input violates an assumption")


# patched entry points that would read data behind the dispatcher's back
class Guard:
    """tolist / numpy / deepcopy bypass the dispatcher: make them visible"""
    def __init__(self, mode):
        self.mode = mode

    def __enter__(self):
        mode, T = self.mode, torch.Tensor
        self.saved = {k: T.__dict__.get(k) for k in ("tolist", "numpy", "__array__", "__deepcopy__")}
        o_tolist, o_numpy, o_array, o_deep = torch._C.TensorBase.tolist, torch._C.TensorBase.numpy, T.__array__, T.__deepcopy__

        def conc(t):
            with torch.utils._python_dispatch._disable_current_modes():
                if mode.has(t):
                    for n in mode.read(t.detach()).ravel():
                        mode.concretize(n)

        def tolist(s):
            conc(s)
            return o_tolist(s)

        def numpy(s, *a, **k):
            conc(s)
            return o_numpy(s, *a, **k)

        def array(s, *a, **k):
            conc(s)
            return o_array(s, *a, **k)

        def deep(s, memo):
            if not s.is_leaf or id(s) in memo:
                return o_deep(s, memo)
            with torch.utils._python_dispatch._disable_current_modes():
                st = s.untyped_storage()
                base = torch.empty(0, dtype=s.dtype).set_(st)
                sy = mode.has(base)
            if not sy:
                return o_deep(s, memo)
            # tensors that share a storage share its copy
            key = ("storage", st._cdata)
            with torch.no_grad():
                if key not in memo:
                    memo[key] = base.clone()
                c = memo[key].as_strided(s.size(), s.stride(), s.storage_offset())
            if isinstance(s, torch.nn.Parameter):
                c = torch.nn.Parameter(c, requires_grad=s.requires_grad)
            elif s.requires_grad:
                c.requires_grad_()
            memo[id(s)] = c
            return c
        T.tolist, T.numpy, T.__array__, T.__deepcopy__ = tolist, numpy, array, deep
        self.one_hot = o_hot = torch.nn.functional.one_hot

        def one_hot(tensor, num_classes=-1):
            # torch's own looks at the smallest and largest value: a path for each
            if num_classes <= 0:
                return o_hot(tensor, num_classes)
            if bool(torch.logical_or(tensor < 0, tensor >= num_classes).any()):
                raise RuntimeError("Class values must be non-negative and smaller than num_classes.")
            return (tensor.unsqueeze(-1) == torch.arange(num_classes)).long()
        torch.nn.functional.one_hot = one_hot
        return self

    def __exit__(self, *a):
        T = torch.Tensor
        torch.nn.functional.one_hot = self.one_hot
        for k, v in self.saved.items():
            if v is None:
                delattr(T, k)
            else:
                setattr(T, k, v)


def run_once(scn, cfg, ctx, seed):
    """-> None, or the exception the code under test raised"""
    seed_all(seed)
    try:
        if ctx.sym:
            M.FEASIBLE[:] = [ctx.feasible]
            with Guard(ctx.mode), ctx.mode:
                scn(ctx, cfg)
        else:
            scn(ctx, cfg)
    except Infeasible:
        raise
    except (Unsupported, M.EngineMismatch, HarnessError):
        if not ctx.failed():
            raise
    except Exception as e:
        if from_repo(e.__traceback__):
            return e
        if not ctx.failed():
            raise
    return None


def mksolver(kind, backend, timeout_ms):
    if kind:
        s = z3.Tactic(kind).solver()
    elif backend == "bv":
        s = z3.SolverFor("QF_BV")
    elif backend == "fp":
        s = z3.SolverFor("QF_BVFP") if hasattr(z3, "SolverFor") else z3.Solver()
    else:
        s = z3.SolverFor("QF_LIA")
    s.set("timeout", int(timeout_ms))
    return s


class Stats(dict):
    def inc(self, k, v=1):
        self[k] = self.get(k, 0) + v


def explore(scn, cfg, seed, opts, stats):
    """all paths of one configuration.
    -> dict(status='ok'|'cex'|'incomplete', ...)"""
    backend = opts.get("backend", "bv")
    cap = opts.get("max_paths", 64)
    qto = opts.get("query_timeout", 240) * 1000
    deadline = opts.get("deadline")
    given = dict(opts.get("given") or {})
    pcs = []        # z3 path conditions explored
    allvars = {}
    assumes_z = None
    cover_ok, cover_seen = {}, {}
    incomplete = []
    npath = 0
    while True:
        npath += 1
        if npath > cap:
            incomplete.append(f"more than {cap} paths")
            break
        if deadline and time.time() > deadline:
            incomplete.append("time budget exhausted")
            break
        ir.reset()
        ctx = SymCtx(given, seed, fallback=opts.get("fallback", True))
        t0 = time.time()
        exc = None
        infeasible = False
        try:
            exc = run_once(scn, cfg, ctx, seed)
        except Infeasible:
            infeasible = True
        stats.inc("sym_exec_s", time.time() - t0)
        stats.inc("paths")
        stats.inc("steps", ctx.nsteps)
        stats.inc("ops_executed", ctx.mode.nops)
        stats.inc("ops_encoded", ctx.mode.nsym)
        stats.inc("values_crosschecked", ctx.mode.nchecked)
        stats.setdefault("aten_ops", {})
        for k, v in ctx.mode.opset.items():
            stats["aten_ops"][k] = stats["aten_ops"].get(k, 0) + v
        for k, v in ctx.mode.nconc.items():
            stats.setdefault("ops_without_encoding", {})
            stats["ops_without_encoding"][k] = stats["ops_without_encoding"].get(k, 0) + v
        L = lower.Lower(backend)
        if infeasible:
            A = [L.lower(x) for x in ctx.assumes]
            s = mksolver(None, backend, qto)
            s.add(*L.side, *A)
            if pcs:
                s.add(*[z3.Not(p) for p in pcs])
            r = timed(s, stats)
            if r != z3.sat:
                raise HarnessError("assumptions unsatisfiable" if r == z3.unsat else "assumption query unknown")
            given = from_model(s.model(), L, ctx.used)
            continue
        pc = [L.lower(b if t else ir.Not(b)) for b, t in ctx.mode.path]
        A = [L.lower(x) for x in ctx.assumes]
        stats.inc("checks", len(ctx.checks) + ctx.ncheck_trivial)
        stats.inc("checks_closed_by_rewriting", ctx.ncheck_trivial)
        if exc is not None:
            tb = traceback.format_exception_only(type(exc), exc)[-1].strip()
            return dict(status="cex", given=dict(ctx.used), check=f"no exception ({tb})", kind="exception")
        # assertions that are constantly false
        bad = [n for n, c in ctx.checks if not isinstance(c, Node) and not c]
        if bad:
            return dict(status="cex", given=dict(ctx.used), check=bad[0], kind="constant", allbad=bad[:5])
        goals = [(n, L.lower(c)) for n, c in ctx.checks]
        bad = [n for n, c in ctx.checks if not ir.cvof(c)]
        if bad:
            # already violated by the representative inputs: the solver confirms it (or finds another model)
            if L.has_fp and backend == "bv":
                backend = "fp"
            res = decide(list(L.side) + A + pc, [(n, g) for n, g in goals if n == bad[0]], backend, opts, stats, 15000)
            if res[0] == "cex":
                return dict(status="cex", given=from_model(res[1], L, ctx.used), check=res[2], kind="solver")
            return dict(status="cex", given=dict(ctx.used), check=bad[0], kind="representative", allbad=bad[:5])
        covers = [(n, ir.cvof(c), L.lower(c)) for n, c in ctx.covers]
        stats.inc("dag_nodes", L.count)
        if L.has_fp and backend == "bv":
            backend = "fp"
        base = list(L.side) + A + pc
        res = decide(base, goals, backend, opts, stats, qto)
        if res[0] == "cex":
            g = from_model(res[1], L, ctx.used)
            return dict(status="cex", given=g, check=res[2], kind="solver")
        if res[0] == "unknown":
            incomplete.append(f"solver gave up on {res[1]}")
        for n, cv, c in covers:
            cover_seen[n] = True
            if cover_ok.get(n):
                continue
            if cv:
                cover_ok[n] = True
                continue
            s = mksolver(None, backend, qto)
            s.add(*base, c)
            if timed(s, stats) == z3.sat:
                cover_ok[n] = True
        if len(stats.setdefault("samples", [])) < 3:
            stats["samples"].append(dict(cfg=jsonable(cfg), inputs=jsonable(dict(list(ctx.used.items())[:24])), n_inputs=len(ctx.used), path_len=len(pc)))
        if not pc:
            break
        pcs.append(z3.And(*pc))
        allvars.update(L.vars)
        s = mksolver(None, backend, qto)
        s.add(*L.side, *A, *[z3.Not(p) for p in pcs])
        r = timed(s, stats)
        if r == z3.unsat:
            break
        if r != z3.sat:
            incomplete.append("path coverage query undecided")
            break
        given = from_model(s.model(), L, ctx.used)
    missing = [n for n in cover_seen if not cover_ok.get(n)]
    if incomplete:
        return dict(status="incomplete", why=incomplete, missing=[])
    return dict(status="ok", missing=missing, paths=npath)


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return str(x)


def timed(s, stats):
    t = time.time()
    r = s.check()
    stats.inc("queries")
    stats.inc("solver_s", time.time() - t)
    return r


def from_model(m, L, used):
    g = dict(used)
    for name, (v, n) in L.vars.items():
        x = lower.model_value(m, v, n)
        g[name] = int(x) if n.kind in ("b", "n") else x
    return g


def decide(base, goals, backend, opts, stats, qto):
    """-> ('ok',) | ('cex', model, name) | ('unknown', name)"""
    if not goals:
        return ("ok",)
    split = opts.get("split", "all")
    if split == "all":
        groups = [goals]
    elif split == "name":
        d = {}
        for n, c in goals:
            d.setdefault(n.split("@")[0], []).append((n, c))
        groups = list(d.values())
    elif split == "step":        # name@k: group by k
        d = {}
        for n, c in goals:
            d.setdefault(n.split("@")[-1], []).append((n, c))
        groups = list(d.values())
    else:
        groups = [[g] for g in goals]
    lemmas = []
    unknown = None
    inc = None
    if opts.get("incremental"):
        inc = z3.Solver()
        inc.set("timeout", int(qto))
        inc.add(*base)
    for grp in groups:
        neg = z3.Or(*[z3.Not(c) for _, c in grp]) if len(grp) > 1 else z3.Not(grp[0][1])
        if inc is not None:
            s = inc
            s.push()
        else:
            s = mksolver(opts.get("tactic"), backend, qto)
            s.add(*base)
            if opts.get("lemmas", True):
                s.add(*lemmas)
        s.add(neg)
        r = timed(s, stats)
        if r == z3.unknown and inc is None:
            # a second engine before giving up
            s = z3.Solver()
            s.set("timeout", int(qto))
            s.add(*base, *lemmas, neg)
            r = timed(s, stats)
        if r == z3.sat:
            m = s.model()
            name = grp[0][0]
            for n, c in grp:
                if z3.is_false(m.eval(c, model_completion=True)):
                    name = n
                    break
            return ("cex", m, name)
        if r == z3.unsat:
            stats.inc("goals_proved", len(grp))
            if stats.get("_cross"):
                cross(s, stats)
            if inc is not None:
                s.pop()
                s.add(*[c for _, c in grp])
            lemmas.extend(c for _, c in grp)
        else:
            if inc is not None:
                s.pop()
            unknown = grp[0][0]
    return ("unknown", unknown) if unknown else ("ok",)


def cross(s, stats):
    """thorough tier: the same query to cvc5"""
    import subprocess, tempfile
    txt = "(set-logic ALL)\n" + s.to_smt2()
    if len(txt) > 3_000_000:
        stats.inc("cvc5_skipped_too_large")
        return
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
    try:
        p = subprocess.run(["cvc5", "--tlimit=60000", f.name], capture_output=True, text=True, timeout=90)
        o = p.stdout.strip().splitlines()
        v = o[-1] if o else "?"
    except subprocess.TimeoutExpired:
        v = "timeout"
    os.unlink(f.name)
    if v == "unsat":
        stats.inc("cvc5_agree")
    elif v == "sat":
        raise HarnessError("z3 says unsat, cvc5 says sat")
    else:
        stats.inc("cvc5_undecided")


def concrete_tries(scn, cfg, seed, n=24, limit=20):
    """what the solver leaves undecided still runs on representative inputs -> counterexample or None"""
    t0 = time.time()
    for i in range(n):
        if time.time() - t0 > limit:
            break
        ctx = RepCtx({}, seed, i)
        try:
            exc = run_once(scn, cfg, ctx, seed)
        except (Infeasible, HarnessError):
            continue
        if exc is not None:
            tb = traceback.format_exception_only(type(exc), exc)[-1].strip()
            return dict(status="cex", given=dict(ctx.used), check=f"no exception ({tb})", kind="exception")
        bad = [n for n, c in ctx.checks if not c]
        if bad:
            return dict(status="cex", given=dict(ctx.used), check=bad[0], kind="concrete", allbad=bad[:5])
    return None


def replay_run(scn, cfg, seed, given):
    """concrete run of the real code -> (reproduced, text)"""
    ctx = RepCtx(given, seed)
    exc = run_once(scn, cfg, ctx, seed)
    if exc is not None:
        return True, "exception: " + "".join(traceback.format_exception_only(type(exc), exc)).strip()
    bad = [n for n, c in ctx.checks if not c]
    return bool(bad), ", ".join(bad[:8])
