"""Which lines of the library the monitors' workloads execute: python tools/coverage.py [Cxx ...]  (run with check.sh's environment; writes /tmp/pvcov)"""
import ast, glob, json, os, subprocess, sys
SRC = "/repo/src/pysatl_criterion"
OUT = "/tmp/pvcov"


def child(pid):
    lines = set()
    mon = sys.monitoring
    mon.use_tool_id(3, "pvcov")

    def hit(code, line):
        if code.co_filename.startswith(SRC):
            lines.add((code.co_filename, line))
        return mon.DISABLE
    mon.register_callback(3, mon.events.LINE, hit)
    mon.set_events(3, mon.events.LINE)
    from pv import core, main

    def dump():
        with open(f"{OUT}/{pid}-{os.getpid()}.json", "w") as f:
            json.dump(sorted(lines), f)
    old = core.Check.export
    core.Check.export = lambda self: (dump(), old(self))[1]
    rc = main.main([pid])
    dump()
    return rc


def statements(path):
    out = {}
    for node in ast.walk(ast.parse(open(path).read())):
        if isinstance(node, ast.stmt) and not isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Import, ast.ImportFrom)):
            if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
                continue
            out[node.lineno] = type(node).__name__
    return out


if __name__ == "__main__":
    if len(sys.argv) > 2 and sys.argv[1] == "--child":
        sys.exit(child(sys.argv[2]))
    os.makedirs(OUT, exist_ok=True)
    ids = sys.argv[1:] or [json.loads(l)["id"] for l in open("properties.jsonl")]
    env = dict(os.environ, PYTHONPATH="/repo/src:/verif", PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", PYTHONHASHSEED="0")
    for i in ids:
        subprocess.run([sys.executable, __file__, "--child", i], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    hit = {}
    for f in glob.glob(OUT + "/*.json"):
        for a, b in json.load(open(f)):
            hit.setdefault(a, set()).add(b)
    tot = miss = 0
    for d, _, fs in os.walk(SRC):
        for f in sorted(fs):
            if f.endswith(".py"):
                p = os.path.join(d, f)
                st = statements(p)
                un = sorted(set(st) - hit.get(p, set()))
                tot += len(st); miss += len(un)
                if un:
                    print(p[len(SRC) + 1:], f"{len(st) - len(un)}/{len(st)}", un[:60])
    print("executed", tot - miss, "of", tot, "statements")
