"""Verdict discipline shared by every check: counters, oracle results, known findings, replay files, evidence."""
import contextlib, hashlib, io, json, os, random, signal, sys, time, traceback, warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN_FILE = os.path.join(ROOT, "known_findings.txt")


def load_known(pid):
    out = {}
    with open(KNOWN_FILE) as f:
        for line in f:
            line = line.strip()
            if not line.startswith("known:"):
                continue
            head, _, what = line[len("known:"):].partition("::")
            kv = dict(t.split("=", 1) for t in head.split())
            if kv["property"] == pid:
                out[kv["key"]] = what.strip()
    return out


class Hang(BaseException):
    """Raised by the CPU-time watchdog; BaseException so that no `except Exception` swallows it."""


@contextlib.contextmanager
def cpu_limit(seconds):
    """CPU-time (not wall-clock) budget, so a loaded machine cannot trip it."""
    def onalarm(signum, frame):
        raise Hang()
    old = signal.signal(signal.SIGVTALRM, onalarm)
    signal.setitimer(signal.ITIMER_VIRTUAL, seconds, 1.0)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        signal.signal(signal.SIGVTALRM, old)


class Outcome:
    """One observed call: value, or the exception / hang that ended it, plus what it printed."""
    __slots__ = ("kind", "value", "exc", "out")

    def __init__(self, kind, value=None, exc=None, out=""):
        self.kind, self.value, self.exc, self.out = kind, value, exc, out

    def short(self):
        if self.kind == "ok":
            return repr(self.value)[:200]
        if self.kind == "hang":
            return "no result within the CPU budget"
        return f"{type(self.exc).__name__}: {self.exc}"[:200]


def observe(fn, *a, cpu=20.0, **k):
    buf = io.StringIO()
    with warnings.catch_warnings(), contextlib.redirect_stdout(buf):
        warnings.simplefilter("ignore")
        try:
            with cpu_limit(cpu):
                v = fn(*a, **k)
        except Hang:
            return Outcome("hang", out=buf.getvalue())
        except Exception as e:  # the code under test failed: an observation, not our error
            return Outcome("exc", exc=e, out=buf.getvalue())
    return Outcome("ok", v, out=buf.getvalue())


def jsonable(o, depth=0):
    import numpy as np
    if depth > 6:
        return repr(o)[:200]
    if isinstance(o, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(o.items())[:int(os.environ.get("PV_SHOW", 60))]}
    if isinstance(o, np.ndarray):
        o = o.tolist()
    if isinstance(o, (list, tuple, set)):
        o = list(o)
        r = [jsonable(v, depth + 1) for v in o[:400]]
        return r if len(o) <= 400 else r + [f"... {len(o)} items"]
    if isinstance(o, (np.floating, np.integer, np.bool_)):
        o = o.item()
    if isinstance(o, float) and (o != o or o in (float("inf"), float("-inf"))):
        return repr(o)
    if o is None or isinstance(o, (bool, int, float, str)):
        return o
    return repr(o)[:300]


class Check:
    def __init__(self, pid, tier, seed, rule, assumptions=()):
        self.pid, self.tier, self.seed, self.rule = pid, tier, seed, rule
        self.assumptions = list(assumptions)
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.evals = 0
        self.distinct = set()
        self.counters = {}
        self.samples = []
        self.sample_kinds = {}
        self.known = load_known(pid)
        self.seen_known = {}
        self.viol = {}
        self.needs = []
        self.rnd = random.Random(f"{pid}-{seed}-{tier}")

    # --- randomness -----------------------------------------------------------------
    def rng(self, *key):
        import numpy as np
        h = hashlib.sha256(repr((self.pid, self.seed, self.tier) + key).encode()).digest()
        return np.random.default_rng(int.from_bytes(h[:8], "little"))

    # --- observations ---------------------------------------------------------------
    def ev(self, n=1):
        self.evals += n

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def nontrivial(self, *key):
        self.distinct.add(hashlib.blake2b(repr(key).encode(), digest_size=8).digest())

    def sample(self, kind, obj):
        k = self.sample_kinds.get(kind, 0)
        if k < 1 and len(self.samples) < 25:
            self.sample_kinds[kind] = k + 1
            self.samples.append({"kind": kind, "case": jsonable(obj)})

    def need(self, name, minimum=1):
        """The run is inconclusive unless counter `name` reached `minimum`."""
        self.needs.append((name, minimum))

    # --- verdicts -------------------------------------------------------------------
    def violation(self, key, what, case=None):
        """key names the mechanism (never random data); the first witness of each key is kept."""
        key = key.replace(" ", "_")
        if key in self.known:
            self.seen_known[key] = self.seen_known.get(key, 0) + 1
            return
        if key in self.viol:
            self.viol[key]["count"] += 1
            return
        self.viol[key] = {"key": key, "what": what, "case": jsonable(case), "count": 1}

    def merge(self, other):
        """Merge the exported state of a worker process."""
        self.evals += other["evals"]
        self.distinct |= other["distinct"]
        for k, v in other["counters"].items():
            self.count(k, v)
        for s in other["samples"]:
            self.sample(s["kind"], s["case"])
        for k, v in other["seen_known"].items():
            self.seen_known[k] = self.seen_known.get(k, 0) + v
        for k, v in other["viol"].items():
            if k in self.viol:
                self.viol[k]["count"] += v["count"]
            else:
                self.viol[k] = v

    def export(self):
        return dict(evals=self.evals, distinct=self.distinct, counters=self.counters,
                    samples=self.samples, seen_known=self.seen_known, viol=self.viol)

    def finish(self, level="exploration", extra=None, only_key=None):
        for k in sorted(self.known):
            if k in self.seen_known:
                print(f"KNOWN-FINDING: property={self.pid} {k}: {self.known[k]}")
        cov = {"evaluations": self.evals, "distinct_nontrivial": len(self.distinct), "rule": self.rule,
               "samples": self.samples, "monitor_counters": dict(sorted(self.counters.items())),
               "known_findings_observed": self.seen_known}
        cov.update(extra or {})
        missing = [f"{n} (saw {self.counters.get(n, 0)}, need {m})" for n, m in self.needs
                   if self.counters.get(n, 0) < m]
        if missing:
            cov["inconclusive"] = missing
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": level, "coverage": cov,
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 3),
              "violations": len(self.viol)}
        os.makedirs(os.path.join(ROOT, "evidence", "replay"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", f"{self.pid}.json"), "w") as f:
            json.dump(ev, f, indent=1)
        if self.viol:
            for key, v in list(self.viol.items())[:int(os.environ.get("PV_SHOW", 60))]:
                if only_key and key != only_key:
                    continue
                safe = "".join(c if c.isalnum() or c in "-_." else "_" for c in key)[:120]
                path = os.path.join("evidence", "replay", f"{self.pid}-{safe}.json")
                with open(os.path.join(ROOT, path), "w") as f:
                    json.dump({"property": self.pid, "key": key, "seed": self.seed, "tier": self.tier,
                               "what": v["what"], "occurrences": v["count"], "case": v["case"],
                               "replay": f"cd /verif && sh check.sh {self.pid} --replay {path}"}, f, indent=1)
                print(f"VIOLATION property={self.pid} replay={path}")
                print(f"  [{key}] x{v['count']}: {v['what']}")
            return 1
        if missing:
            print(f"INCONCLUSIVE property={self.pid}: monitor under-exercised: {'; '.join(missing)}")
            return 3
        print(f"HELD property={self.pid} tier={self.tier} seed={self.seed} evaluations={self.evals} "
              f"distinct={len(self.distinct)} wall={time.time() - self.t0:.1f}s")
        return 0


def close(a, b, rtol=1e-7, atol=1e-9):
    import math
    try:
        a, b = float(a), float(b)
    except (TypeError, ValueError):
        return False
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= atol + rtol * max(abs(a), abs(b))


def parallel(check, tasks, worker, procs=None):
    """Run worker(subcheck, task) in forked children (tasks handed out one by one); merge their observations."""
    import multiprocessing as mp
    procs = procs or min(8, os.cpu_count() or 1)
    tasks = list(tasks)
    ctx = mp.get_context("fork")
    counter = ctx.Value("i", 0)
    pipes = []
    sys.stdout.flush(); sys.stderr.flush()

    def child(conn):
        sub = Check(check.pid, check.tier, check.seed, check.rule)
        err = None
        try:
            while True:
                with counter.get_lock():
                    i = counter.value
                    counter.value += 1
                if i >= len(tasks):
                    break
                worker(sub, tasks[i])
        except BaseException:
            err = traceback.format_exc()
        conn.send((sub.export(), err))
        conn.close()

    ps = []
    for _ in range(min(procs, len(tasks))):
        r, w = ctx.Pipe(False)
        p = ctx.Process(target=child, args=(w,))
        p.start()
        w.close()
        ps.append(p)
        pipes.append(r)
    errs = []
    for r, p in zip(pipes, ps):
        try:
            data, err = r.recv()
            check.merge(data)
            if err:
                errs.append(err)
        except EOFError:
            errs.append("worker died")
        p.join()
    if errs:
        raise RuntimeError("worker failed:\n" + errs[0])
