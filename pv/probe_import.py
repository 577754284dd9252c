"""Run in a fresh interpreter: import the given modules in the given order under an audit hook and report what happened (JSON on the last line)."""
import json
import sys


def main():
    import hashlib, locale, logging, os, random, signal, threading, warnings, decimal
    import numpy as np
    import scipy.stats, scipy.special, scipy.optimize, scipy.integrate, scipy.interpolate, scipy.linalg  # noqa: third-party side effects happen before the recording
    import sqlalchemy, sqlalchemy.orm, dotenv, typing_extensions  # noqa
    for extra in ("zstandard", "sqlalchemy.dialects.sqlite", "sqlalchemy.dialects.postgresql", "numba", "psycopg2", "psycopg"):
        try:
            __import__(extra)
        except Exception:
            pass
    src, order, rest = sys.argv[1], json.loads(sys.argv[2]), json.loads(sys.argv[3])
    events = []
    on = [False]

    def hook(name, args):
        if not on[0]:
            return
        if name == "open":
            path, mode, flags = (list(args) + [None, None])[:3]
            if isinstance(flags, int) and flags & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_APPEND) or isinstance(mode, str) and set(mode) & set("wax+"):
                events.append(f"open-for-writing {path}")
        elif name.startswith(("socket.", "subprocess.", "os.system", "os.remove", "os.rename", "os.mkdir", "os.rmdir", "os.putenv", "os.unsetenv", "os.chdir", "os.fork",
                              "os.posix_spawn", "shutil.", "sqlite3.connect", "urllib.", "ftplib.", "smtplib.", "signal.", "tempfile.")):
            events.append(f"{name} {str(args)[:120]}")
    sys.addaudithook(hook)

    def state():
        st = np.random.get_state()
        return {"numpy-random": hashlib.sha256(st[1].tobytes() + repr(st[2:]).encode()).hexdigest(), "random": hashlib.sha256(repr(random.getstate()).encode()).hexdigest(),
                "np.seterr": str(np.geterr()), "np.printoptions": str(sorted(np.get_printoptions().items(), key=str)), "warnings.filters": str(warnings.filters),
                "logging-root": f"{logging.root.level} {logging.root.handlers}", "environ": str(sorted(os.environ.items())), "cwd": os.getcwd(), "sys.path": str(sys.path),
                "threads": str(sorted(t.name for t in threading.enumerate())), "locale": str(locale.setlocale(locale.LC_ALL)), "decimal": str(decimal.getcontext()),
                "recursion-limit": sys.getrecursionlimit(), "switch-interval": sys.getswitchinterval(), "SIGINT": str(signal.getsignal(signal.SIGINT)),
                "excepthook": str(sys.excepthook), "stdout": str(type(sys.stdout))}
    import importlib
    out = {"failed": {}, "changed": [], "events": events}
    before = state()
    on[0] = True
    for m in order + rest:
        try:
            importlib.import_module(m)
        except BaseException as e:
            out["failed"][m] = f"{type(e).__name__}: {e}"
    on[0] = False
    after = state()
    out["changed"] = [k for k in before if before[k] != after[k]]
    # what every module offers, and whether it is the one object of that name
    names, identity = {}, []
    mods = [sys.modules[m] for m in sorted(set(order + rest)) if m in sys.modules]
    where = {}
    for m in mods:
        public = getattr(m, "__all__", None)
        if public is not None:
            for n in public:
                if not hasattr(m, n):
                    identity.append(f"{m.__name__}.__all__ names {n}, which does not exist")
            if len(set(public)) != len(list(public)):
                identity.append(f"{m.__name__}.__all__ names something twice")
        for n, v in sorted(vars(m).items()):
            if n.startswith("_"):
                continue
            mod = getattr(v, "__module__", None)
            if isinstance(v, type) and isinstance(mod, str) and mod.startswith("pysatl_criterion"):
                names[f"{m.__name__}.{n}"] = f"{mod}.{v.__qualname__}"
                key = (mod, v.__qualname__)
                if where.setdefault(key, v) is not v:
                    identity.append(f"two different classes {mod}.{v.__qualname__}")
                if n == v.__qualname__ and mod in sys.modules and getattr(sys.modules[mod], n, v) is not v:
                    identity.append(f"{m.__name__}.{n} is not {mod}.{n}")
            elif callable(v) and isinstance(mod, str) and mod.startswith("pysatl_criterion"):
                names[f"{m.__name__}.{n}"] = f"{mod}.{getattr(v, '__qualname__', '?')}"
            elif type(v).__name__ == "module" and v.__name__.startswith("pysatl_criterion"):
                names[f"{m.__name__}.{n}"] = f"module {v.__name__}"
    out["identity"] = identity
    out["names"] = len(names)
    if not out["failed"]:
        # from m import * offers what __all__ says
        for m in mods:
            ns = {}
            try:
                exec(f"from {m.__name__} import *", ns)
            except BaseException as e:
                identity.append(f"from {m.__name__} import *: {type(e).__name__}: {e}")
                continue
            for n in getattr(m, "__all__", []):
                if ns.get(n) is not getattr(m, n, None):
                    identity.append(f"from {m.__name__} import * does not give {n}")
        from pysatl_criterion import DistributionType
        from pysatl_criterion.statistics import AbstractGoodnessOfFitStatistic, goodness_of_fit as gof
        from pysatl_criterion.utils.statistic import get_available_criteria
        import inspect
        reg = {str(d): sorted(get_available_criteria(d)) for d in DistributionType}
        out["registry"] = hashlib.sha256(json.dumps(reg, sort_keys=True).encode()).hexdigest()
        out["registered"] = sum(map(len, reg.values()))

        def subs(c):
            for s in c.__subclasses__():
                yield s
                yield from subs(s)
        conc = sorted({f"{c.__module__}.{c.__qualname__}" for c in subs(AbstractGoodnessOfFitStatistic) if not inspect.isabstract(c)})
        if len(conc) != len({c for c in subs(AbstractGoodnessOfFitStatistic) if not inspect.isabstract(c)}):
            identity.append("a concrete criterion class is defined twice")
        out["concrete"] = hashlib.sha256(json.dumps(conc).encode()).hexdigest()
        # the same numbers whatever was imported first
        digest = {}
        rng = np.random.default_rng(7)
        base = np.sort(rng.beta(2, 3, 17))[rng.permutation(17)]
        warnings.simplefilter("ignore")
        for n in sorted(dir(gof)):
            c = getattr(gof, n)
            if isinstance(c, type) and issubclass(c, AbstractGoodnessOfFitStatistic) and not inspect.isabstract(c):
                try:
                    s = c()
                    digest[n] = [repr(float(s.execute_statistic(base.copy()))), s.code(), s.short_code(), str(s.alternative().type()), repr(s.hypothesis())[:200] if not
                                 repr(s.hypothesis()).startswith("<") else sorted(map(str, vars(s.hypothesis()).items()))]
                except Exception as e:
                    digest[n] = f"{type(e).__name__}: {e}"[:120]
        out["digest"] = digest
        from pysatl_criterion.utils import constants
        out["constants"] = {k: v for k, v in vars(constants).items() if k.endswith("_URL")}
        import pysatl_criterion
        out["version"] = pysatl_criterion.__version__
    out["namemap"] = hashlib.sha256(json.dumps(names, sort_keys=True).encode()).hexdigest()
    out["namelist"] = names
    print("@@" + json.dumps(out))


if __name__ == "__main__":
    main()
