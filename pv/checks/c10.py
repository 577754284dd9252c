"""C10: evaluating a criterion has no side effects and is repeatable."""
import contextlib, io, logging, os, pickle, random, sys, tempfile, threading, warnings
import numpy as np
from pv import catalog as C
from pv.core import parallel, observe
from pv.meta import tasks, cases, value, call_options
RULE = ("every criterion class (195) x constructor variants x sizes x shapes x containers (ndarray, list): sample bytes, object state, class and module state, "
        "Python and numpy global random state, file-descriptor level output, warning filters, logging configuration and working directory are compared before and after; the value is compared bit for "
        "bit with repeats, with an equal instance, after evaluations of other criteria, after a failed evaluation and under concurrent evaluation of one "
        "instance from several threads; evaluation = one monitored execution; non-trivial = distinct (class, sample)")
ASSUMPTIONS = ["output is observed both through sys.stdout and on file descriptor 1"]


def state(obj):
    try:
        return pickle.dumps(sorted(vars(obj).items(), key=lambda kv: kv[0]))
    except Exception:
        return repr(sorted((k, repr(v)) for k, v in vars(obj).items()))


def class_state(cls):
    out = []
    for c in cls.__mro__:
        if c.__module__.startswith("pysatl_criterion"):
            for k, v in sorted(vars(c).items()):
                if not callable(v) and not isinstance(v, (staticmethod, classmethod, property)) and not k.startswith("__") and not k.startswith("_abc_"):
                    out.append((c.__name__, k, repr(v)))
    return out


def rng_state():
    a = np.random.get_state()
    return (a[0], a[1].tobytes(), a[2:], random.getstate())


@contextlib.contextmanager
def fd1():
    """Everything that reaches file descriptor 1, whoever writes it."""
    sys.stdout.flush()
    with tempfile.TemporaryFile() as f:
        save = os.dup(1)
        os.dup2(f.fileno(), 1)
        got = []
        try:
            yield got
        finally:
            sys.stdout.flush()
            os.dup2(save, 1)
            os.close(save)
            f.seek(0)
            got.append(f.read().decode(errors="replace"))


def same(a, b):
    if a.kind != b.kind:
        return False
    if a.kind != "ok":
        return type(a.exc) is type(b.exc)
    try:
        return a.value == b.value or (a.value != a.value and b.value != b.value)
    except ValueError:
        return False


def run(ck):
    sizes = [4, 9, 26] if not ck.thorough else [4, 5, 8, 13, 26, 60, 130]
    reps = 1 if not ck.thorough else 3
    have = C.classes()
    others = sorted(have)

    def worker(sub, task):
        name = task[0]
        kinds = ("null", "high", "ties") if not sub.thorough else ("null", "low", "high", "edge", "ties", "outlier")
        for cls, fam, kw, kind, x, rng in cases(sub, task, kinds):
            opts = call_options(name)
            call = opts[int(rng.integers(len(opts)))]
            case = {"class": name, "kwargs": kw, "call": call, "sample": x}
            try:
                stat, twin = cls(**kw), cls(**kw)
            except Exception as e:
                sub.violation(f"{name}:constructor", f"{kw}: {e!r}", case)
                continue
            st0, cs0 = state(stat), class_state(cls)
            np.random.seed(int(rng.integers(2 ** 31)))
            random.seed(5)
            np.random.normal()
            rs0 = rng_state()
            cwd, env, err0 = os.getcwd(), dict(os.environ), np.geterr()
            arr = x.copy()
            lst = x.tolist()
            keep = list(lst)
            with fd1() as got:
                first = observe(stat.execute_statistic, arr, **call)
            fdout = "".join(got)
            sub.ev()
            sub.count(f"executions:{C.short(name)}")
            sub.nontrivial(name, float(x[0]), len(x))
            sub.sample(name, {**case, "value": first.short()})
            with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                warnings.simplefilter("default")    # the caller's own warning settings, without the monitor's
                f0, show0, log0 = list(warnings.filters), warnings.showwarning, (logging.root.level, list(logging.root.handlers), logging.root.manager.disable)
                try:
                    stat.execute_statistic(arr, **call)
                except Exception:
                    pass
                if list(warnings.filters) != f0 or warnings.showwarning is not show0:
                    sub.violation(f"{name}:warning-filters", f"the caller's warning filters changed: {warnings.filters[:2]}", case)
                if (logging.root.level, list(logging.root.handlers), logging.root.manager.disable) != log0:
                    sub.violation(f"{name}:logging", "the caller's logging configuration changed", case)
            if arr.tobytes() != x.tobytes():
                sub.violation(f"{name}:array-modified", f"n={len(x)}: the sample array was changed", case)
            if first.out or fdout:
                sub.violation(f"{name}:output", f"printed {(first.out + fdout)[:100]!r}", case)
            if rng_state() != rs0:
                sub.violation(f"{name}:random-state", "global random state changed", case)
            if os.getcwd() != cwd or dict(os.environ) != env or np.geterr() != err0:
                sub.violation(f"{name}:process-state", "working directory, environment or numpy error state changed", case)
            if state(stat) != st0:
                sub.violation(f"{name}:object-modified", "attributes of the criterion changed", case)
            if class_state(cls) != cs0:
                sub.violation(f"{name}:class-modified", "class attributes changed", case)
            runs = [("repeat", observe(stat.execute_statistic, arr, **call)), ("equal-instance", observe(twin.execute_statistic, x.copy(), **call)),
                    ("list", observe(stat.execute_statistic, lst, **call))]
            if lst != keep:
                sub.violation(f"{name}:list-modified", "the caller's list was changed", case)
            # other criteria and identity calls in between, among them one of the same family and one failure
            for k in list(rng.choice(others, 3)) + [name]:
                oc = have[k]
                of = C.family(oc)
                z = C.sample(of, C.variants(k, of)[0], min(max(8, C.nmin(k)), C.nmax(k)), rng)
                observe(lambda: oc(**C.variants(k, of)[0]).execute_statistic(z))
            observe(stat.hypothesis), observe(stat.alternative), observe(stat.code)
            observe(stat.execute_statistic, [])
            observe(stat.execute_statistic, None)
            runs.append(("after-others-and-a-failure", observe(stat.execute_statistic, arr, **call)))
            np.random.seed(12345)
            runs.append(("other-seed", observe(stat.execute_statistic, arr, **call)))
            sub.ev(len(runs))
            for how, o in runs:
                ok = same(o, first)
                if how == "list" and o.kind == "ok" and first.kind == "ok" and not ok:
                    # a list may be summed in another order than an array
                    ok = abs(o.value - first.value) <= 1e-8 + 1e-6 * abs(first.value)
                if how == "list" and first.kind == "ok" and o.kind != "ok":
                    ok = True       # accepted containers: C11
                if not ok:
                    sub.violation(f"{name}:{how}", f"n={len(x)}: {how} gives {o.short()}, first {first.short()}", case)

        # one instance, several threads, different samples
        data = [x for *_, x, _ in cases(sub, task, ("null", "low", "high", "mid"))]
        if not data or task[1] > 40:
            return
        cls = have[name]
        kw = C.variants(name, C.family(cls))[0]
        stat = cls(**kw)
        data = [C.sample(C.family(cls), kw, task[1], sub.rng("threads", i, *task)) for i in range(4)]
        with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
            warnings.simplefilter("ignore")

            def call1(x):
                try:
                    return repr(stat.execute_statistic(x))
                except Exception as e:
                    return type(e).__name__
            want = [call1(x) for x in data]
            bad = []
            start = threading.Barrier(len(data))

            def go(i):
                start.wait()
                for _ in range(4):
                    if call1(data[i]) != want[i]:
                        bad.append(i)
            old = sys.getswitchinterval()
            sys.setswitchinterval(1e-6)
            ts = [threading.Thread(target=go, args=(i,)) for i in range(len(data))]
            [t.start() for t in ts]
            [t.join() for t in ts]
            sys.setswitchinterval(old)
        sub.ev(4 * len(data))
        sub.count("concurrent-executions", 4 * len(data))
        if bad:
            sub.violation(f"{name}:concurrent", f"one instance evaluated from {len(data)} threads gave another value than alone", {"class": name, "samples": data})
    cap = {n: 12 for n in have if n.startswith(("Rossberg", "Ahsanullah", "HollanderProshan"))}
    parallel(ck, tasks(sizes, reps, cap, big=(260, 1030, 5003) if not ck.thorough else (203, 260, 513, 1030, 2051, 5003)), worker)
    for n in have:
        ck.need(f"executions:{C.short(n)}", 3)
    ck.need("concurrent-executions", 1000)
