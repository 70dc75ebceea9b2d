"""Runner for the runtime monitors.

A check module (checks/pXX.py) exposes
    ID, RULE                       strings
    cases(tier, rng) -> [case]     case = {"k": monitor-name, "g": optional worker group, ...JSON parameters}
    k_<monitor>(ctx, **params)     runs the real code and reports to the Ctx (the monitor)
    finalize(agg) -> None          optional, aggregate verdicts over the whole run (quantiles, coverage floors)
Cases are executed by single-threaded worker processes which import microjax from
/repo/src.  Every verdict is reached by an oracle looking at an execution.
"""
import os, sys, json, time, subprocess, tempfile, importlib, traceback, hashlib, math, shutil

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
NWORK = int(os.environ.get("VERIF_WORKERS", "8"))


def jsonable(x):
    import numpy as np
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (np.bool_, bool)):
        return bool(x)
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, (complex, np.complexfloating)):
        return {"re": float(x.real), "im": float(x.imag)}
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if hasattr(x, "__array__") and not isinstance(x, (int, float, str)):
        return jsonable(np.asarray(x))
    return x


class RepoMissing(Exception):
    """a repo-internal name this monitor hooks is not there (refactored away)"""


class Ctx:
    def __init__(self, tier, seed):
        self.tier, self.seed = tier, seed
        self.evals = 0
        self.keys = set()
        self.events = {}
        self.maxima = {}
        self.hist = {}
        self.viol = []
        self.samples = []
        self.series = {}
        self.skipped = {}
        self.case = None
        self.known_ids = set()
        self.nfresh = {}

    # ---- evidence -------------------------------------------------
    def ev(self, name, n=1):
        self.events[name] = self.events.get(name, 0) + int(n)

    def ran(self, *key, n=1):
        """one execution of the real code was judged; key identifies it (non-trivial case)"""
        self.evals += int(n)
        if key:
            h = hashlib.md5(repr(key).encode()).hexdigest()[:16]
            self.keys.add(h)

    def sample(self, **kw):
        if len(self.samples) < 4:
            self.samples.append(jsonable(kw))

    def top(self, name, value):
        v = float(value)
        if v == v:
            self.maxima[name] = max(self.maxima.get(name, -math.inf), v)

    def put(self, name, *rows):
        """append rows to a series that finalize() can judge as a whole"""
        self.series.setdefault(name, []).extend(jsonable(list(rows)))

    def skip(self, why):
        self.skipped[why] = self.skipped.get(why, 0) + 1

    # ---- verdicts -------------------------------------------------
    def fail(self, what, **detail):
        self.viol.append({"what": what, "case": jsonable(self.case), "detail": jsonable(detail)})
        if self.case is None or case_id(self.case) not in self.known_ids:
            self.nfresh[what] = self.nfresh.get(what, 0) + 1

    def enough(self, what, n=3):
        """this worker has already confirmed n violations of this kind: further costly confirmations add nothing"""
        return self.nfresh.get(what, 0) >= n

    def check(self, cond, what, **detail):
        self.ev("assertions")
        if not bool(cond):
            self.fail(what, **detail)
            return False
        return True

    def close(self, what, got, ref, rtol=0.0, atol=0.0, **detail):
        """|got-ref| <= atol + rtol*|ref| everywhere, NaN never acceptable"""
        import numpy as np
        g, r = np.asarray(got), np.asarray(ref)
        if g.shape != r.shape:
            try:
                g, r = np.broadcast_arrays(g, r)
            except ValueError:
                self.fail(what + " (shape)", got=g.shape, ref=r.shape, **detail)
                return False
        err = np.abs(g - r)
        lim = atol + rtol * np.abs(r)
        bad = ~(err <= lim)
        self.ev("assertions", max(1, g.size))
        with np.errstate(all="ignore"):
            m = np.max(np.where(np.isfinite(err), err / np.where(lim > 0, lim, 1.0), np.inf)) if g.size else 0.0
        if not bad.any():
            self.top(what + " (fraction of tolerance)", m)
            return True
        i = np.unravel_index(np.argmax(np.where(bad, np.where(np.isnan(err), np.inf, err - lim), -np.inf)), g.shape) if g.shape else ()
        self.fail(what, got=g[i], ref=r[i], tol=np.broadcast_to(lim, g.shape)[i], index=list(map(int, i)), nbad=int(bad.sum()), size=int(g.size), **detail)
        return False


def repo_frames(tb):
    fr = traceback.extract_tb(tb)
    return any(os.path.abspath(f.filename).startswith(SRC + os.sep) for f in fr)


def load(pid):
    return importlib.import_module("checks." + pid.lower())


EARLY_STOP_S = 150      # quick tier: once a violation is confirmed, nothing new is started after this long
SOFT_LIMIT_S = 800      # quick tier: what has been observed by then is reported (as incomplete)


def run_cases(mod, cases, tier, seed, stop=None, start=None):
    from vlib import setup_repo
    setup_repo.init(SRC)
    ctx = Ctx(tier, seed)
    ctx.known_ids = {case_id(c) for c, _ in known_findings(mod.ID)}
    errors = []
    start = start or time.time()
    for c in cases:
        if tier == "quick" and stop:
            t = time.time() - start
            if ctx.nfresh and not os.path.exists(stop):
                open(stop, "w").close()
            if t > EARLY_STOP_S and os.path.exists(stop):
                ctx.ev("cases_not_started_after_a_violation")
                continue
            if t > SOFT_LIMIT_S:
                ctx.ev("cases_not_started_for_lack_of_time")
                continue
        ctx.case = c
        kw = {k: v for k, v in c.items() if k not in ("k", "g", "i")}
        fn = getattr(mod, "k_" + c["k"])
        t0 = time.time()
        try:
            fn(ctx, **kw)
        except RepoMissing as e:
            ctx.skip(str(e))
        except Exception as e:
            msg = "%s: %s" % (type(e).__name__, str(e)[:300])
            if repo_frames(e.__traceback__):
                ctx.fail("the code under test raised " + msg, trace=traceback.format_exc()[-1500:])
            else:
                errors.append({"case": jsonable(c), "error": traceback.format_exc()[-3000:]})
        ctx.ev("cases_" + c["k"])
        ctx.top("slowest_case_s_" + c["k"], time.time() - t0)
        if os.environ.get("VERIF_PROFILE"):
            print("PROFILE", c["k"], c.get("g"), "%.1f" % (time.time() - t0), file=open(os.environ["VERIF_PROFILE"], "a"))
    return ctx, errors


def worker(pid, tier, seed, infile, outfile):
    mod = load(pid)
    cases = json.load(open(infile))
    ctx, errors = run_cases(mod, cases, tier, seed, os.environ.get("VERIF_STOP_FILE"), float(os.environ.get("VERIF_START", "0")) or None)
    out = dict(evals=ctx.evals, keys=sorted(ctx.keys), events=ctx.events, maxima=ctx.maxima, viol=ctx.viol,
               samples=ctx.samples, series=ctx.series, skipped=ctx.skipped, errors=errors)
    tmp = outfile + ".tmp"
    json.dump(jsonable(out), open(tmp, "w"))
    os.replace(tmp, outfile)
    return 0


class Agg:
    def __init__(self):
        self.evals = 0
        self.keys = set()
        self.events, self.maxima, self.viol, self.samples = {}, {}, [], []
        self.series, self.skipped, self.errors, self.extra = {}, {}, [], {}

    def add(self, o):
        self.evals += o["evals"]
        self.keys.update(o["keys"])
        for k, v in o["events"].items():
            self.events[k] = self.events.get(k, 0) + v
        for k, v in o["maxima"].items():
            self.maxima[k] = max(self.maxima.get(k, -math.inf), v)
        for k, v in o["skipped"].items():
            self.skipped[k] = self.skipped.get(k, 0) + v
        for k, v in o["series"].items():
            self.series.setdefault(k, []).extend(v)
        self.viol += o["viol"]
        self.samples += o["samples"]
        self.errors += o["errors"]

    def fail(self, what, case=None, **detail):
        self.viol.append({"what": what, "case": jsonable(case) or {"k": "aggregate"}, "detail": jsonable(detail)})


def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                rest = line[len("known: property=%s " % pid):]
                cs, _, what = rest.partition(" :: ")
                out.append((json.loads(cs), what))
    return out


def case_id(c):
    return json.dumps({k: v for k, v in jsonable(c).items() if k not in ("g", "i")}, sort_keys=True)


def distribute(cases, n):
    """group label 'g' pins cases to one worker (shared compilation); others are dealt round robin"""
    bins = [[] for _ in range(n)]
    weight = [0.0] * n
    groups = {}
    for i, c in enumerate(cases):
        c["i"] = i
        groups.setdefault(c.get("g", "_%d" % (i % n)), []).append(c)
    for g, cs in sorted(groups.items(), key=lambda t: -sum(c.get("cost", 1.0) for c in t[1])):
        j = min(range(n), key=lambda k: weight[k])
        bins[j] += cs
        weight[j] += sum(c.get("cost", 1.0) for c in cs)
    return [b for b in bins if b]


def main(argv):
    if argv and argv[0] == "--worker":
        return worker(argv[1], argv[2], int(argv[3]), argv[4], argv[5])
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    mod = load(pid)
    replay = None
    if len(argv) > 2 and argv[1] == "--replay":
        replay = json.load(open(argv[2]))
        cases = [replay["case"]] if replay["case"].get("k") != "aggregate" else None
        if cases is None:
            tier, seed = replay["tier"], replay["seed"]
    else:
        cases = None
    import numpy as np
    if cases is None:
        rng = np.random.default_rng([seed, int(pid[1:])])
        cases = mod.cases(tier, rng)
    known = known_findings(pid)
    known_ids = {case_id(c): w for c, w in known}
    if replay is None:
        cases = [c for c in cases if case_id(c) not in known_ids] + [dict(c) for c, _ in known]
    cases = [jsonable(c) for c in cases]
    for c in cases:
        c.pop("cost_", None)
    bins = distribute(cases, NWORK)
    tmp = tempfile.mkdtemp(prefix="verif_%s_" % pid)
    agg = Agg()
    hard = []
    try:
        procs = []
        env = dict(os.environ)
        env["XLA_FLAGS"] = "--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1"
        for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS", "NPROC"):
            env[v] = "1"
        env.pop("JAX_ENABLE_X64", None)
        env["VERIF_STOP_FILE"], env["VERIF_START"] = os.path.join(tmp, "stop"), repr(t0)
        for j, b in enumerate(bins):
            fi, fo = os.path.join(tmp, "in%d" % j), os.path.join(tmp, "out%d" % j)
            for c in b:
                c.pop("cost", None)
            json.dump(b, open(fi, "w"))
            le = open(os.path.join(tmp, "err%d" % j), "w")
            p = subprocess.Popen([sys.executable, os.path.join(VERIF, "run.py"), "--worker", pid, tier, str(seed), fi, fo],
                                 stdout=le, stderr=le, env=env, cwd=VERIF)
            procs.append((p, fo, le, j))
        limit = 840 if tier == "quick" else 6 * 3600
        for p, fo, le, j in procs:
            try:
                p.wait(timeout=max(1, limit - (time.time() - t0)))
            except subprocess.TimeoutExpired:
                p.kill(); p.wait()
                hard.append("worker %d ran out of time" % j)
            le.close()
            if os.path.exists(fo):
                agg.add(json.load(open(fo)))
            else:
                hard.append("worker %d died (rc %s): %s" % (j, p.returncode, open(os.path.join(tmp, "err%d" % j)).read()[-2000:]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

    if agg.events.get("cases_not_started_for_lack_of_time"):
        hard.append("%d cases were not started for lack of time" % agg.events["cases_not_started_for_lack_of_time"])
    # known findings: pinned cases
    fresh, seen_known = [], set()
    for v in agg.viol:
        cid = case_id(v["case"])
        if replay is None and cid in known_ids:
            seen_known.add(cid)
        else:
            fresh.append(v)
    agg.viol = fresh
    if replay is None and hasattr(mod, "finalize") and not hard:
        mod.finalize(agg)
    for cid in sorted(seen_known):
        print("KNOWN-FINDING: property=%s %s" % (pid, known_ids[cid]))

    wall = time.time() - t0
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": agg.evals, "distinct_nontrivial": len(agg.keys), "rule": mod.RULE,
            "samples": agg.samples[:12] or [jsonable(c) for c in cases[:3]],
            "observed_events": dict(sorted(agg.events.items())),
            "worst_observed": {k: agg.maxima[k] for k in sorted(agg.maxima)},
            "monitors_skipped": agg.skipped, "aggregates": jsonable(agg.extra),
            "worker_processes": len(bins),
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(wall, 2), "violations": len(agg.viol),
    }
    if replay is None:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", pid + ".json")
        json.dump(ev, open(p + ".tmp", "w"), indent=1, default=str)
        os.replace(p + ".tmp", p)
    if os.environ.get("VERIF_SERIES"):
        json.dump(agg.series, open(os.environ["VERIF_SERIES"], "w"), default=str)
    if agg.viol and os.environ.get("VERIF_DUMP"):
        json.dump(agg.viol, open(os.environ["VERIF_DUMP"], "w"), default=str)
    if agg.viol:
        rd = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(rd, exist_ok=True)
        shown = {}
        for n, v in enumerate(agg.viol):
            k = v["what"]
            shown[k] = shown.get(k, 0) + 1
            if shown[k] > 3 or n > 60:
                continue
            h = hashlib.md5(json.dumps(v, sort_keys=True, default=str).encode()).hexdigest()[:10]
            path = os.path.join(rd, "%s_%s.json" % (pid, h))
            json.dump({"property": pid, "tier": tier, "seed": seed, "case": v["case"], "what": v["what"], "detail": v["detail"]},
                      open(path, "w"), indent=1, default=str)
            print("VIOLATION property=%s replay=%s" % (pid, path))
            print("   %s :: %s" % (v["what"], json.dumps({k: x for k, x in v["detail"].items() if k != "trace"}, default=str)[:600]))
    print("%s tier=%s seed=%d evaluations=%d distinct=%d violations=%d wall=%.1fs" % (pid, tier, seed, agg.evals, len(agg.keys), len(agg.viol), wall))
    if agg.skipped:
        print("monitors skipped:", agg.skipped)
    if agg.viol:
        return 1
    if agg.errors or hard:
        for e in agg.errors[:5]:
            print("HARNESS-ERROR", json.dumps(e["case"], default=str)[:300], "\n", e["error"])
        for h in hard:
            print("HARNESS-ERROR", h)
        return 2
    if agg.evals == 0:
        print("HARNESS-ERROR nothing was evaluated")
        return 2
    return 0
