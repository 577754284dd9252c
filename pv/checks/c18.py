"""C18: a trace monitor over generator call histories: size, support, reproducibility, stream advance, identity, lookup."""
import itertools
import numpy as np
from pv import ref_gen as G
from pv.core import observe, parallel
RULE = ("call histories (construct, generate of sizes 0, 1, many, tuple, parameters(), code(), several interleaved generators, re-seeding) over "
        "all 21 generators and a parameter grid; evaluation = one judged call; non-trivial = one (generator, parameters, size) whose result "
        "was compared against a replay of the same history")
ASSUMPTIONS = ["the global NumPy random state is the source of randomness", "the contaminated normal generators document an int size only"]


def arr(v):
    return np.asarray(v, float)


def pars(ck, name):
    r = ck.rng("par", name)
    return G.SPEC[name][4] + [G.SPEC[name][3](r) for _ in range(12 if ck.thorough else 4)]


def one(ck, name):
    from pysatl_criterion import DistributionType as DT
    from pysatl_criterion.generator.model import AbstractRVSGenerator
    from pysatl_criterion.utils.generator import get_available_generator
    clsname = G.SPEC[name][0]
    cls = G.cls_of(name)
    r = ck.rng("hist", name)
    slow = name in G.SLOW
    built = []
    for par in pars(ck, name):
        o = observe(cls, **par)
        if o.kind != "ok":
            ck.violation(f"{clsname}:constructor", f"{par}: {o.short()}", par)
            continue
        g = o.value
        lo, hi = G.SPEC[name][2](**par)
        before = dict(g.parameters())
        code0 = g.code()
        if g.distribution_type() != DT[name] or not isinstance(g, AbstractRVSGenerator):
            ck.violation(f"{clsname}:type", f"declares {g.distribution_type()}", par)
        for key, v in par.items():
            ck.ev()
            got = before.get(key)
            if name == "LOG_NORMAL" and key == "scale":
                continue
            if key in ("loc", "scale") and got is None and v == {"loc": 0, "scale": 1}[key]:
                continue
            if got is None or got != v:
                ck.violation(f"{clsname}:parameters", f"built with {par}, parameters() = {before}", par)
        built.append((par, before, code0))
        # --- sizes
        sizes = [0, 1, 2, 3, 17, 256, 1000, int(r.integers(2, 3000))] + ([] if slow else [(3, 4), (2, 3, 5), (1,), (0,), (7, 0), 20001] + [1_000_003] * (not built[1:]))
        seed = int(r.integers(2 ** 31))

        def history(gen):
            np.random.seed(seed)
            return [observe(gen.generate, s, cpu=60) for s in sizes]
        first = history(g)
        seen = []
        for s, o in zip(sizes, first):
            ck.ev()
            ck.count("generate-calls")
            case = {"generator": clsname, "params": par, "size": s, "seed": seed}
            if o.kind != "ok":
                ck.violation(f"{clsname}:raised", f"generate({s}) for {par}: {o.short()}", case)
                continue
            x = arr(o.value)
            want = s if isinstance(s, tuple) else (s,)
            if x.shape != want:
                ck.violation(f"{clsname}:size", f"generate({s}) for {par} returned shape {x.shape}", case)
                continue
            if not np.all(np.isfinite(x)) or np.any(x < lo - 1e-12 * abs(lo)) or np.any(x > hi + 1e-12 * abs(hi)):
                ck.violation(f"{clsname}:support", f"generate({s}) for {par}: non-finite or outside [{lo}, {hi}]", case)
            if x.size >= 2:
                seen.append(x.ravel())
            ck.nontrivial(clsname, sorted(par.items()), s)
            ck.sample(clsname, {**case, "first": x.ravel()[:3].tolist()})
        # the stream advances: no call repeats the beginning of another call's values
        heads = {}
        for x in seen:
            k = (x[0], x[1])
            if k in heads:
                ck.violation(f"{clsname}:stream", f"{par}: two calls of one history start with the same values {k}", par)
            heads[k] = True
        np.random.seed(seed)
        st0 = np.random.get_state()[1].tobytes() + bytes([np.random.get_state()[2] % 251])
        observe(g.generate, 5)
        st1 = np.random.get_state()[1].tobytes() + bytes([np.random.get_state()[2] % 251])
        ck.ev()
        if st0 == st1:
            ck.violation(f"{clsname}:stream", f"{par}: generate(5) does not advance the global random stream", par)
        # --- replays: same object, a new object, the looked-up generator, keyword copy of parameters()
        others = {"same object": g, "new object": cls(**par)}
        o = observe(get_available_generator, DT[name], dict(par))
        if o.kind != "ok" or type(o.value) is not cls or o.value.parameters() != before or o.value.code() != code0:
            ck.violation(f"{clsname}:lookup", f"get_available_generator({name}, {par}) gave {o.short()}", par)
        else:
            others["looked-up"] = o.value
        o = observe(cls, **before)
        if o.kind != "ok" or o.value.parameters() != before or o.value.code() != code0:
            ck.violation(f"{clsname}:rebuild", f"a generator rebuilt from parameters() {before} differs: {o.short()}", par)
        else:
            others["rebuilt"] = o.value
        for tag, h in others.items():
            second = history(h)
            for s, a, b in zip(sizes, first, second):
                ck.ev()
                ck.count("replayed-calls")
                if a.kind == "ok" and (b.kind != "ok" or not np.array_equal(arr(a.value), arr(b.value))):
                    ck.violation(f"{clsname}:reproducible", f"{tag}, generate({s}) for {par} differs under the same seed", {"params": par, "size": s, "seed": seed})
                    break
        # results do not share memory with each other or with the generator
        o = observe(g.generate, 6)
        if o.kind == "ok":
            keep = arr(o.value).copy()
            o2 = observe(g.generate, 6)
            if o2.kind == "ok":
                if isinstance(o2.value, np.ndarray):
                    o2.value[...] = 0
                else:
                    o2.value[:] = [0] * 6
            if not np.array_equal(keep, arr(o.value)):
                ck.violation(f"{clsname}:shared-result", f"{par}: overwriting one sample changes another", par)
        ck.ev()
        if g.parameters() != before or g.code() != code0:
            ck.violation(f"{clsname}:params-changed", f"{par}: after generating, parameters() {g.parameters()} code {g.code()} (before {before} {code0})", par)
        # the returned parameter dict is a copy
        d = g.parameters()
        for k in d:
            d[k] = -999
        d["junk"] = 1
        if g.parameters() != before:
            ck.violation(f"{clsname}:params-changed", f"{par}: editing the dict returned by parameters() changes the generator", par)
    # --- identity: different parameterisations <=> different parameters() and codes
    for (p1, d1, c1), (p2, d2, c2) in itertools.combinations(built, 2):
        ck.ev()
        ck.count("identity-pairs")
        if d1 != d2 and c1 == c2:
            ck.violation(f"{clsname}:code-collision", f"{p1} and {p2} share code {c1}", [p1, p2])
    base = G.SPEC[name][4][-1]
    canon = {"LOG_NORMAL": dict(s=.5, mu=1.0), "STUDENT": dict(df=7, loc=-1, scale=.3)}.get(name, base)
    for key in canon:       # one parameter differs by a little, by sign, or parameters swapped
        v = canon[key]
        for w in [v * (1 + 1e-12) if v else 1e-12, v * 1.0000001, v + 1e-3, v * 10 if v else 2]:
            q = dict(canon)
            q[key] = w
            if w == v or (name == "TRUNC_NORMAL" and not q["a"] < q["b"]) or (key == "p" and w > 1):
                continue
            a, b = cls(**canon), cls(**q)
            ck.ev()
            ck.count("identity-pairs")
            if a.parameters() == b.parameters() or a.code() == b.code():
                ck.violation(f"{clsname}:code-collision", f"{canon} and {q}: parameters {a.parameters()} / {b.parameters()}, codes {a.code()} / {b.code()}", [canon, q])
    if len(canon) >= 2:
        ks = list(canon)
        for k1, k2 in itertools.combinations(ks, 2):
            a, b = dict(canon), dict(canon)
            a[k1], a[k2], b[k1], b[k2] = 0.25, 0.75, 0.75, 0.25
            ga, gb = observe(cls, **a), observe(cls, **b)
            ck.ev()
            if ga.kind == gb.kind == "ok" and (ga.value.code() == gb.value.code() or ga.value.parameters() == gb.value.parameters()):
                ck.violation(f"{clsname}:code-collision", f"{a} and {b} share an identity: {ga.value.code()}", [a, b])
    # --- parameters that are equal numbers give the same draws whatever their type
    ints = {k: v for k, v in canon.items()}
    for conv in (float, np.float64, lambda v: np.int64(v) if float(v).is_integer() else np.float64(v)):
        q = {k: conv(v) for k, v in ints.items()}
        out = []
        for kw in (ints, q):
            np.random.seed(7)
            out.append(observe(cls(**kw).generate, 50, cpu=30))
        ck.ev()
        if out[0].kind == "ok" and (out[1].kind != "ok" or not np.allclose(arr(out[0].value), arr(out[1].value), rtol=1e-12)):
            ck.violation(f"{clsname}:parameter-type", f"{ints} vs {q}: different draws under one seed", ints)


def interleave(ck, rd):
    """Several generators of all classes used in random order: each behaves as if it were alone (no shared state)."""
    from pysatl_criterion import DistributionType as DT
    from pysatl_criterion.utils.generator import get_available_generator
    r = ck.rng("inter", rd)
    gens = []
    for _ in range(14):
        name = list(G.SPEC)[int(r.integers(len(G.SPEC)))]
        fixed = G.SPEC[name][4]
        par = fixed[int(r.integers(len(fixed)))] if r.random() < .5 else G.SPEC[name][3](r)
        gens.append((name, par, G.cls_of(name)(**par) if r.random() < .5 else get_available_generator(DT[name], dict(par))))
    for _ in range(60):
        name, par, g = gens[int(r.integers(len(gens)))]
        size = int(r.choice([0, 1, 5, 40]))
        seed = int(r.integers(2 ** 31))
        np.random.seed(seed)
        a = observe(g.generate, size)
        np.random.seed(seed)
        b = observe(G.cls_of(name)(**par).generate, size)
        ck.ev()
        ck.count("interleaved-calls")
        if a.kind != "ok" or b.kind != "ok" or not np.array_equal(arr(a.value), arr(b.value)):
            ck.violation(f"{G.SPEC[name][0]}:history", f"{par}: generate({size}) depends on earlier use of other generators: {a.short()} / {b.short()}", {"params": par, "seed": seed})


def lookup(ck):
    from pysatl_criterion import DistributionType as DT
    from pysatl_criterion.utils.generator import get_available_generator
    for d in DT:
        if d.name not in G.SPEC:
            ck.violation(f"{d.name}:no-model", f"distribution type {d} is not covered by the monitor", None)
            continue
        cls, dflt = G.cls_of(d.name), G.DEFAULTS.get(d.name)
        for p in (None, {}):
            ck.ev()
            ck.count("default-lookups")
            o = observe(get_available_generator, d, p)
            if dflt is None:
                direct = observe(cls)
                if direct.kind != o.kind:
                    ck.violation(f"{cls.__name__}:lookup", f"lookup with {p}: {o.short()}, direct construction: {direct.short()}", None)
            elif o.kind != "ok" or type(o.value) is not cls or any(o.value.parameters().get(k) != v for k, v in dflt.items()):
                ck.violation(f"{cls.__name__}:lookup", f"lookup with {p} gave {o.short()}", None)
        par = {k: v for k, v in (G.SPEC[d.name][4][0]).items()}
        keep = dict(par)
        o = observe(get_available_generator, d, par)
        if par != keep:
            ck.violation(f"{cls.__name__}:lookup", f"lookup changed the caller's parameters to {par}", None)
        o2 = observe(get_available_generator, d, par)
        if o.kind == o2.kind == "ok":
            if o.value is o2.value:
                ck.violation(f"{cls.__name__}:lookup", "two lookups return one shared object", None)
    codes = {}
    for n, spec in G.SPEC.items():
        for par in spec[4]:
            c = G.cls_of(n)(**par).code()
            ck.ev()
            if codes.setdefault(c, n) != n:
                ck.violation(f"{spec[0]}:code-collision", f"code {c} also used by {codes[c]}", par)


def dispatch(ck, task):
    kind, arg = task
    {"one": one, "inter": interleave}[kind](ck, arg)


def run(ck):
    lookup(ck)
    tasks = [("one", n) for n in sorted(G.SPEC, key=lambda n: n not in G.SLOW)] + [("inter", i) for i in range(200 if ck.thorough else 24)]
    parallel(ck, tasks, dispatch)
    ck.need("generate-calls", 1200)
    ck.need("replayed-calls", 4000)
    ck.need("identity-pairs", 500)
    ck.need("interleaved-calls", 1000)
