"""check.py PROPERTY [tier] | check.py --replay FILE"""
import os, sys, time, json, random, importlib, pkgutil, traceback, subprocess, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import multiprocessing as mp


def load():
    import checks
    for m in sorted(x.name for x in pkgutil.iter_modules(checks.__path__)):
        importlib.import_module("checks." + m)
    return checks.PROPS


def warm():
    """load what every worker needs before forking"""
    import torch
    from symtorch import ctx as C
    c = C.SymCtx({}, 1)
    with C.Guard(c.mode), c.mode:
        x = c.bits("w", (2,))
        (x.sum(0) + 1).clamp_(0, 2)
    import pylfsr, matplotlib.pyplot, torch._decomp
    # the code under test is always compiled from its current source
    sys.pycache_prefix = "/nonexistent/verif"
    import UnarySim.kernel, UnarySim.stream, UnarySim.metric


def find(pid, scn):
    for s in load()[pid]:
        if s.name == scn:
            return s
    raise SystemExit(f"no scenario {scn} in {pid}")


def trace_functions():
    """names of the functions of /repo that are executed (each reported once)"""
    from symtorch.ctx import REPO
    seen = set()
    mon = sys.monitoring
    tid = mon.COVERAGE_ID
    try:
        mon.use_tool_id(tid, "verif")
    except ValueError:
        return seen

    def start(code, off):
        f = code.co_filename
        if f.startswith("/opt/pypath") or f.startswith(REPO + "/"):
            f = os.path.realpath(f)
            if f.startswith(REPO + "/") and "<" not in code.co_name:
                seen.add(os.path.relpath(f, REPO) + ":" + code.co_qualname)
        return mon.DISABLE
    mon.register_callback(tid, mon.events.PY_START, start)
    mon.set_events(tid, mon.events.PY_START)
    return seen


JOBS = []


def work(i):
    s, cfg, seed, opts, tier = JOBS[i]
    import resource
    from symtorch import ctx as C
    import torch
    torch.set_num_threads(1)
    try:
        resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    except Exception:
        pass
    stats = C.Stats()
    if tier == "thorough" and s.opts.get("cross", True):
        stats["_cross"] = True
    fns = trace_functions()
    t0 = time.time()
    try:
        r = C.explore(s.fn, cfg, seed, opts, stats)
    except (C.Unsupported, C.M.EngineMismatch, C.HarnessError) as e:
        r = dict(status="error", why=f"{type(e).__name__}: {e}", tb=traceback.format_exc()[-3000:])
    except MemoryError:
        r = dict(status="incomplete", why=["memory"], missing=[])
    except Exception as e:
        if "canceled" in str(e) or "out of memory" in str(e):
            r = dict(status="incomplete", why=[str(e)], missing=[])
        else:
            r = dict(status="error", why=f"{type(e).__name__}: {e}", tb=traceback.format_exc()[-3000:])
    if r["status"] in ("error", "incomplete"):
        try:
            c = C.concrete_tries(s.fn, cfg, seed)
            if c:
                r = c
        except Exception as e:
            r["tries"] = f"{type(e).__name__}: {e}"
    r["scn"], r["cfg"], r["seed"] = s.name, cfg, seed
    r["wall"] = time.time() - t0
    stats.pop("_cross", None)
    r["stats"] = dict(stats)
    if "rtl.sv" in sys.modules:
        fns |= sys.modules["rtl.sv"].SEEN
        sys.modules["rtl.sv"].SEEN.clear()
    r["functions"] = sorted(fns)
    return r


def main():
    if sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    pid = sys.argv[1]
    tier = (sys.argv[2] if len(sys.argv) > 2 else None) or os.environ.get("VERIF_TIER") or "quick"
    seed = int(os.environ.get("VERIF_SEED") or 1)
    t0 = time.time()
    budget = float(os.environ.get("VERIF_BUDGET") or (600 if tier == "quick" else 3300))
    import torch
    torch.set_num_threads(1)
    import symtorch.ctx as C
    try:
        warm()
        props = load()
    except Exception as e:
        # the code under test does not even import
        traceback.print_exc()
        print(f"CHECK-ERROR property={pid} cannot load: {e}")
        return 2
    if pid not in props:
        print("unknown property", pid)
        return 2
    jobs = []
    only = os.environ.get("VERIF_ONLY")
    for s in props[pid]:
        rng = random.Random(f"{seed}/{pid}/{s.name}")
        for i, cfg in enumerate(s.configs(tier, rng)):
            if only and only not in s.name:
                continue
            o = dict(s.opts)
            o.setdefault("query_timeout", 60 if tier == "quick" else 900)
            o["deadline"] = t0 + budget
            for k in ("backend", "split", "max_paths", "query_timeout", "tactic", "incremental", "fallback"):
                if isinstance(cfg, dict) and "_" + k in cfg:
                    o[k] = cfg["_" + k]
            jobs.append((s, cfg, seed * 1000003 + i, o, tier))
    ncpu = int(os.environ.get("VERIF_JOBS") or min(8, os.cpu_count() or 4))
    ctxm = mp.get_context("fork")
    JOBS[:] = jobs
    results = []
    known = load_known()
    # expensive first
    order = sorted(range(len(jobs)), key=lambda i: -jobs[i][1].get("_cost", 1) if isinstance(jobs[i][1], dict) else 0)
    # Processes are forked per job (cheap: torch is loaded) so that one job's memory goes with it
    pool = ctxm.Pool(ncpu, maxtasksperchild=1)
    pend = [(i, pool.apply_async(work, (i,))) for i in order]
    hard = t0 + budget + 60
    stop_early = False
    while pend:
        nxt = []
        for i, p in pend:
            if p.ready():
                try:
                    r = p.get()
                except Exception as e:
                    r = dict(status="error", why=f"worker: {e}", scn=jobs[i][0].name, cfg=jobs[i][1], stats={}, functions=[], wall=0, seed=jobs[i][2])
                results.append(r)
                if os.environ.get("VERIF_VERBOSE"):
                    print(f"  {r['scn']} {json.dumps(C.jsonable(r['cfg']))} -> {r['status']} {r.get('why', r.get('check', ''))} {r['wall']:.1f}s q={r['stats'].get('queries', 0)} solver={r['stats'].get('solver_s', 0):.1f}", flush=True)
                if r["status"] == "error" and os.environ.get("VERIF_VERBOSE"):
                    print(r.get("tb"))
            else:
                nxt.append((i, p))
        pend = nxt
        if sum(1 for r in results if r["status"] == "cex" and not match_known(known, pid, r)) >= 3:
            # enough counterexamples to report
            stop_early = True
            break
        if time.time() > hard:
            for i, p in pend:
                results.append(dict(status="incomplete", why=["time budget"], scn=jobs[i][0].name, cfg=jobs[i][1], stats={}, functions=[], wall=0, missing=[], seed=jobs[i][2]))
            break
        time.sleep(0.02)
    pool.terminate()
    pool.join()
    return report(pid, tier, seed, t0, jobs, results, stop_early)


def report(pid, tier, seed, t0, jobs, results, stop_early):
    import symtorch.ctx as C
    known = load_known()
    rdir = os.path.join(HERE, "replays", pid)
    cex = [r for r in results if r["status"] == "cex"]
    err = [r for r in results if r["status"] == "error"]
    inc = [r for r in results if r["status"] == "incomplete"]
    ok = [r for r in results if r["status"] == "ok"]
    viol, unrep, kf = [], [], []
    for n, r in enumerate(cex):
        k = match_known(known, pid, r)
        if k and any(k is q for q, _ in kf):
            kf.append((k, r))       # the same finding again
            continue
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, f"cex{n}.json")
        with open(path, "w") as f:
            json.dump(dict(property=pid, scn=r["scn"], cfg=r["cfg"], seed=r["seed"], given=r["given"], check=r["check"], kind=r["kind"]), f, indent=1)
        p = subprocess.run([os.path.join(HERE, "run.sh"), "--replay", path], capture_output=True, text=True, timeout=300)
        if p.returncode == 1:
            if k:
                kf.append((k, r))
            else:
                viol.append((path, r, p.stdout.strip().splitlines()[-1] if p.stdout.strip() else ""))
        else:
            unrep.append((path, r, (p.stdout + p.stderr)[-800:]))
    missing = [(r["scn"], r["cfg"], r["missing"]) for r in ok if r.get("missing")]
    # a cover goal is vacuous when no configuration of its scenario reaches it
    ev = evidence(pid, tier, seed, t0, jobs, results, viol, kf, inc, err)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    c = ev["coverage"]
    print(f"{pid} [{tier}] configurations={len(jobs)} decided={len(ok)} incomplete={len(inc)} errors={len(err)} queries={c['queries']} goals={c['obligations']} solver={c['solver_seconds']}s wall={ev['wall_s']}s")
    for r in inc:
        print(f"INCOMPLETE property={pid} {r['scn']} {json.dumps(C.jsonable(r['cfg']))}: {'; '.join(r['why'])}")
    for path, r, txt in unrep:
        print(f"CHECK-ERROR property={pid} counterexample not reproduced by the real code: {r['scn']} {r['cfg']} {r['check']} {path}\n{txt}")
    for r in err:
        print(f"CHECK-ERROR property={pid} {r['scn']} {json.dumps(C.jsonable(r['cfg']))}: {r['why']}")
    for m in missing:
        print(f"CHECK-ERROR property={pid} vacuous: {m}")
    seen = set()
    for k, r in kf:
        if k["id"] not in seen:
            seen.add(k["id"])
            print(f"KNOWN-FINDING: property={pid} {k['what']}")
    for path, r, txt in viol:
        print(f"  {r['scn']} {json.dumps(C.jsonable(r['cfg']))}: {r['check']} ({r['kind']}) {txt}")
        print(f"VIOLATION property={pid} replay={os.path.relpath(path, HERE)}")
    if viol:
        return 1
    undecided = len(unrep) + len(err) + len(missing) + len(inc)
    if os.environ.get("VERIF_STRICT"):
        return 2 if undecided else 0
    # nothing violated; too little decided to say that the property held
    if not ok and not kf or undecided > 0.5 * len(jobs):
        return 2
    return 0


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    if os.path.exists(p):
        with open(p) as f:
            return json.load(f).get("findings", [])
    return []


def match_known(known, pid, r):
    """an entry names the property, the scenario, the configuration and the failing check"""
    for k in known:
        if k["property"] == pid and k["scn"] == r["scn"] and r["check"].startswith(k["check"]):
            if all(r["cfg"].get(a) == b for a, b in k.get("cfg", {}).items()):
                return k
    return None


def evidence(pid, tier, seed, t0, jobs, results, viol, kf, inc, err):
    import z3
    tot = {}
    fns, samples, aten, noenc = set(), [], {}, {}
    for r in results:
        for k, v in r["stats"].items():
            if isinstance(v, (int, float)):
                tot[k] = tot.get(k, 0) + v
        for k, v in r["stats"].get("aten_ops", {}).items():
            aten[k] = aten.get(k, 0) + v
        for k, v in r["stats"].get("ops_without_encoding", {}).items():
            noenc[k] = noenc.get(k, 0) + v
        fns.update(r["functions"])
    picks = [r for r in results if r["stats"].get("samples")]
    for r in picks[:: max(1, len(picks) // 6)][:8]:
        samples.append(dict(scenario=r["scn"], status=r["status"], **r["stats"]["samples"][0]))
    I = lambda k: int(tot.get(k, 0))
    cov = dict(
        states=I("paths") + I("steps"),
        transitions=I("steps"),
        traces_validated_against_impl=I("paths"),
        samples=samples,
        obligations=I("checks"),
        discharged=I("goals_proved") + I("checks_closed_by_rewriting"),
        checker_cmd="z3 " + z3.get_version_string() + " (python API, QF_BV / QF_BVFP / QF_LIA)" + ("; cvc5 1.1.2 re-checks" if tier == "thorough" else ""),
        explanation="states: symbolic machine states encoded (one per path start and per forward step); transitions: forward steps of the real modules encoded; "
                    "traces: concolic runs of the real code, every encoded operation's value compared with torch's; obligations: property assertions generated; "
                    "discharged: proved by the solver or by term rewriting to true",
        exhaustive=False,
        configurations=len(jobs),
        configurations_decided=sum(1 for r in results if r["status"] == "ok"),
        incomplete=[dict(scn=r["scn"], cfg=r["cfg"], why=r["why"]) for r in inc],
        paths=I("paths"), queries=I("queries"), solver_seconds=round(tot.get("solver_s", 0), 2), symbolic_execution_seconds=round(tot.get("sym_exec_s", 0), 2),
        dag_nodes=I("dag_nodes"), aten_operations_executed=I("ops_executed"), aten_operations_encoded=I("ops_encoded"), encoded_values_compared_with_torch=I("values_crosschecked"),
        checks_closed_by_rewriting=I("checks_closed_by_rewriting"), cvc5_agree=I("cvc5_agree"), cvc5_undecided=I("cvc5_undecided"), cvc5_skipped_too_large=I("cvc5_skipped_too_large"),
        functions_encoded=sorted(fns), aten_ops_encoded=dict(sorted(aten.items())), ops_split_on_values=noenc,
        bounds=[dict(scenario=s, configurations=[j[1] for j in jobs if j[0].name == s]) for s in sorted({j[0].name for j in jobs})],
        known_findings=[k["id"] for k, _ in kf], errors=[r["why"] for r in err],
    )
    return dict(property=pid, tier=tier, seed=seed, level="model_checking", coverage=cov,
                assumptions=["torch CPU kernels compute what the per-operation encoding says outside the concrete values compared on this run",
                             "inputs range over the declared symbolic domains; module parameters, shapes and cycle counts are the listed configurations"],
                wall_s=round(time.time() - t0, 2), violations=len(viol))


def replay(path):
    with open(path) as f:
        d = json.load(f)
    import torch
    torch.set_num_threads(1)
    from symtorch import ctx as C
    s = find(d["property"], d["scn"])
    bad, txt = C.replay_run(s.fn, d["cfg"], d["seed"], d["given"])
    print(("REPRODUCED " if bad else "not reproduced ") + txt)
    return 1 if bad else 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
