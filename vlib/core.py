"""
Runner for the runtime monitors.

Every property is a module checks/<id>_*.py that defines

    PID       the property id
    RULE      how cases are made, and what makes one non-trivial
    ASSUME    list of assumptions
    DIRECTED  [(name, fn)]                 hand-picked hostile scenarios, run first
    CASES     [(name, fn, nquick, nthorough)]   randomised workloads
    REQUIRED  monitors which must have observed something, else inconclusive
    setup()   optional; runs in the parent before the workers are forked

A case drives the real code and feeds what it observes to oracles through the
context object: `ctx.check(monitor, condition, mechanism, message, data)`.

exit code: 0 held on everything explored; 1 + VIOLATION line; 2 inconclusive.
"""
import gc, hashlib, importlib, json, os, pickle, random, resource, signal, sys, tempfile, time, traceback, glob, shutil

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
NWORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
CPU_LIMIT = 150           # CPU seconds one case may burn (normal cases: < 3s)


class Violation(Exception):
    def __init__(self, mechanism, msg, data=None):
        super().__init__(f"{mechanism}: {msg}")
        self.mechanism, self.msg, self.data = mechanism, msg, data


class KnownFinding(Exception):
    pass


class Skip(Exception):
    """the generated input turned out to be outside of the property's domain"""


class Hang(BaseException):
    pass


class Ctx:
    def __init__(self, pid, tier, seed, known):
        self.pid, self.tier, self.seed, self.known = pid, tier, seed, known
        self.rng = None
        self.mon = {}
        self.cov = {}
        self.sigs = set()
        self.runs = 0
        self.samples = []
        self.known_hits = {}
        self.case = None
        self.skips = 0
        self.trail = []

    # ---- accounting
    def ev(self, monitor, n=1):
        self.mon[monitor] = self.mon.get(monitor, 0) + n

    def cover(self, *key):
        k = "/".join(str(x) for x in key)
        self.cov[k] = self.cov.get(k, 0) + 1

    def run(self, sig, nontrivial=True):
        """counts one execution of the code under test with the (hashable) input sig"""
        self.runs += 1
        if nontrivial:
            self.sigs.add(hashlib.md5(repr(sig).encode()).hexdigest()[:16])
            if len(self.samples) < 3:
                self.samples.append(dict(case="%s[%s]" % self.case, input=repr(sig)[:300], trail=self.trail[:8]))

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(json.loads(json.dumps(obj, default=str)))

    def log(self, *a):
        """event trail of the current case; becomes the witness if the case fails"""
        self.trail.append(" ".join(str(x) for x in a)[:600])
        if len(self.trail) > 400:
            del self.trail[:200]

    # ---- verdicts
    def fail(self, mechanism, msg, data=None):
        for k in self.known:
            if mechanism == k["mechanism"]:
                self.known_hits[mechanism] = self.known_hits.get(mechanism, 0) + 1
                raise KnownFinding(mechanism)
        raise Violation(mechanism, msg, data)

    def check(self, monitor, cond, mechanism, msg="", data=None):
        self.ev(monitor)
        if not cond:
            self.fail(mechanism, msg, data)

    def close(self, monitor, a, b, mechanism, rel=1e-9, abs_=1e-9, msg="", data=None):
        self.ev(monitor)
        if not close(a, b, rel, abs_):
            self.fail(mechanism, f"{msg}: got {a!r}, expected {b!r}", data)

    def skip(self, why="skip"):
        raise Skip(why)


def close(a, b, rel=1e-9, abs_=1e-9):
    try:
        a, b = float(a), float(b)
    except (TypeError, ValueError):
        return False
    if a == b:
        return True
    if a != a or b != b:
        return False
    if a in (float("inf"), float("-inf")) or b in (float("inf"), float("-inf")):
        return False
    return abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))


def load_known(pid):
    fn = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(fn):
        return []
    with open(fn) as f:
        db = json.load(f)
    return [k for k in db.get("findings", []) if k["property"] == pid]


def find_module(pid):
    fl = glob.glob(os.path.join(ROOT, "checks", pid.lower() + "_*.py"))
    if len(fl) != 1:
        raise SystemExit(f"no unique check module for {pid}")
    return "checks." + os.path.basename(fl[0])[:-3]


def case_rng(seed, pid, kind, i):
    return random.Random(f"{seed}|{pid}|{kind}|{i}")


def _alarm(sig, frm):
    raise Hang()


def run_one(mod, ctx, kind, i, fn):
    """runs a single case; returns None or a violation dict"""
    ctx.rng = case_rng(ctx.seed, ctx.pid, kind, i)
    ctx.case = (kind, i)
    ctx.trail = []
    import numpy as np
    np.random.seed(abs(hash((ctx.seed, i))) % (2**31))
    random.seed(f"{ctx.seed}|{i}")
    signal.signal(signal.SIGPROF, _alarm)
    signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
    try:
        fn(ctx)
        return None
    except KnownFinding:
        return None
    except Skip:
        ctx.skips += 1
        return None
    except Violation as e:
        mech, msg, data = e.mechanism, e.msg, e.data
    except Hang:
        mech, msg, data = "hang", f"case did not terminate within {CPU_LIMIT}s of CPU time", None
    except (MemoryError, KeyboardInterrupt):
        raise
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        where = "?"
        for fr in tb:
            if fr.filename.startswith(REPO):
                where = os.path.basename(fr.filename) + ":" + fr.name
        mech = f"crash:{type(e).__name__}:{where}"
        msg = f"unexpected {type(e).__name__}: {e}"
        data = traceback.format_exc()[-3000:]
        for k in ctx.known:
            if k["mechanism"] == mech:
                ctx.known_hits[mech] = ctx.known_hits.get(mech, 0) + 1
                return None
    finally:
        signal.setitimer(signal.ITIMER_PROF, 0)
    return dict(mechanism=mech, msg=msg, data=data, kind=kind, index=i, seed=ctx.seed,
                pid=ctx.pid, trail=list(ctx.trail[-120:]))


def worker(mod, pid, tier, seed, known, jobs, k, outdir, deadline):
    ctx = Ctx(pid, tier, seed, known)
    res = dict(viol=None, done=0, crashed=None)
    stop = os.path.join(outdir, "STOP")
    soft, hard = resource.getrlimit(resource.RLIMIT_NOFILE)
    resource.setrlimit(resource.RLIMIT_NOFILE, (min(hard, 65536) if hard != resource.RLIM_INFINITY else 65536, hard))
    try:
        for kind, i, fn in jobs[k::NWORKERS]:
            if time.time() > deadline or os.path.exists(stop):
                break
            v = run_one(mod, ctx, kind, i, fn)
            res["done"] += 1
            if getattr(mod, "COLLECT", 0) and res["done"] % mod.COLLECT == 0:
                gc.collect()        # sockets and files are closed only then
            if v:
                res["viol"] = v
                open(stop, "w").close()
                break
    except BaseException:
        res["crashed"] = traceback.format_exc()
    res.update(mon=ctx.mon, cov=ctx.cov, sigs=list(ctx.sigs), runs=ctx.runs,
               samples=ctx.samples, known_hits=ctx.known_hits, skips=ctx.skips)
    with open(os.path.join(outdir, f"w{k}.json"), "w") as f:
        json.dump(res, f, default=str)


def main(argv):
    pid, tier = argv[0], (argv[1] if len(argv) > 1 else os.environ.get("VERIF_TIER", "quick"))
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    sys.path.insert(0, REPO)
    sys.path.insert(0, ROOT)
    sys.setrecursionlimit(5000)

    out = os.dup(1)
    def say(s):
        os.write(out, (s + "\n").encode())

    # the code under test prints a lot: discard
    dn = os.open(os.devnull, os.O_WRONLY)
    os.dup2(dn, 1)
    if not os.environ.get("VERIF_STDERR"):
        os.dup2(dn, 2)

    try:
        mod = importlib.import_module(find_module(pid))
        if hasattr(mod, "setup"):
            mod.setup()
        import carbon
        assert os.path.abspath(carbon.__file__).startswith(os.path.abspath(REPO)), carbon.__file__
    except SystemExit as e:
        say(str(e)); return 2
    except BaseException:
        say("ERROR: cannot load\n" + traceback.format_exc())
        return 2

    known = load_known(pid)
    mod.DIRECTED = getattr(mod, "DIRECTED", [])
    kinds = {n: f for n, f in mod.DIRECTED}
    kinds.update({c[0]: c[1] for c in mod.CASES})

    if "--replay" in argv:
        with open(argv[argv.index("--replay") + 1]) as f:
            r = json.load(f)
        ctx = Ctx(pid, tier, r["seed"], known)
        v = run_one(mod, ctx, r["kind"], r["index"], kinds[r["kind"]])
        say(json.dumps(v, indent=1, default=str) if v else "replay: no violation")
        return 1 if v else 0

    only = os.environ.get("VERIF_ONLY")
    jobs = [(n, 0, f) for n, f in mod.DIRECTED]
    rnd = []
    scale = float(os.environ.get("VERIF_SCALE", "1"))
    for c in mod.CASES:
        n = int((c[2] if tier == "quick" else c[3]) * scale)
        rnd += [((j + 0.5) / max(n, 1), c[0], j, c[1]) for j in range(n)]
    rnd.sort(key=lambda r: (r[0], r[1]))
    jobs += [(k, j, f) for _, k, j, f in rnd]
    if only:
        jobs = [j for j in jobs if j[0] == only]
    budget = getattr(mod, "BUDGET", {}).get(tier, 240 if tier == "quick" else 780)
    deadline = t0 + budget
    outdir = tempfile.mkdtemp(prefix=f"verif_{pid}_")
    pids = []
    try:
        for k in range(NWORKERS):
            p = os.fork()
            if p == 0:
                try:
                    worker(mod, pid, tier, seed, known, jobs, k, outdir, deadline)
                except BaseException:
                    traceback.print_exc()
                finally:
                    os._exit(0)
            pids.append(p)
        hard = deadline + CPU_LIMIT + 30 if tier == "quick" else t0 + 880
        alive = set(pids)
        killed = False
        while alive:
            for p in list(alive):
                q, st = os.waitpid(p, os.WNOHANG)
                if q:
                    alive.discard(p)
                    if st: print("worker ended with status", st, file=sys.stderr)
            if alive and time.time() > hard:
                for p in alive:
                    os.kill(p, signal.SIGKILL)
                killed = True
            time.sleep(0.02)
        R = []
        for k in range(NWORKERS):
            fn = os.path.join(outdir, f"w{k}.json")
            if os.path.exists(fn):
                R.append(json.load(open(fn)))
            else:
                R.append(None)
    finally:
        shutil.rmtree(outdir, ignore_errors=True)

    good = [r for r in R if r]
    mon, cov, sigs, hits = {}, {}, set(), {}
    for r in good:
        for k, v in r["mon"].items(): mon[k] = mon.get(k, 0) + v
        for k, v in r["cov"].items(): cov[k] = cov.get(k, 0) + v
        for k, v in r["known_hits"].items(): hits[k] = hits.get(k, 0) + v
        sigs |= set(r["sigs"])
    viol = [r["viol"] for r in good if r["viol"]]
    runs = sum(r["runs"] for r in good)
    samples = [s for r in good for s in r["samples"]][:4]
    evals = sum(mon.values())
    ev = dict(property=pid, tier=tier, seed=seed, level="exploration",
              coverage=dict(
                  evaluations=runs, distinct_nontrivial=len(sigs), rule=mod.RULE,
                  samples=samples or ["(none)"],
                  cases_run=sum(r["done"] for r in good), cases_planned=len(jobs),
                  cases_skipped=sum(r["skips"] for r in good),
                  monitor_evaluations=evals, monitors=dict(sorted(mon.items())),
                  situations=dict(sorted(cov.items())), distinct_situations=len(cov),
                  known_findings=hits),
              wall_s=round(time.time() - t0, 2),
              assumptions=list(mod.ASSUME),
              violations=len(viol),
              violation_details=[{k: v[k] for k in ("mechanism", "msg", "kind", "index")} for v in viol])
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)

    if viol:
        v = viol[0]
        os.makedirs(os.path.join(ROOT, "replays"), exist_ok=True)
        fn = os.path.join(ROOT, "replays", f"{pid}_{v['kind']}_{v['index']}_{v['seed']}.json")
        with open(fn, "w") as f:
            json.dump(v, f, indent=1, default=str)
        say(f"  {v['mechanism']} in {v['kind']}[{v['index']}] : {str(v['msg'])[:600]}")
        say(f"VIOLATION property={pid} replay={fn}")
        return 1
    for m, n in hits.items():
        k = [k for k in known if k["mechanism"] == m][0]
        say(f"KNOWN-FINDING: property={pid} {k['what']} [{m}; seen {n}x]")
    if killed or any(r is None for r in R) or any(r["crashed"] for r in good):
        say("INCONCLUSIVE: worker died, was killed or broke")
        for r in good:
            if r["crashed"]: say(r["crashed"])
        return 2
    missing = [m for m in mod.REQUIRED if not mon.get(m)]
    if (missing and not only) or evals == 0 or runs == 0:
        say(f"INCONCLUSIVE: monitors never reached: {missing}, evaluations={evals}")
        return 2
    say(f"OK {pid} {tier} seed={seed}: {runs} executions ({len(sigs)} distinct), {evals} monitor evaluations, "
        f"{len(cov)} situations, {ev['wall_s']}s")
    return 0


