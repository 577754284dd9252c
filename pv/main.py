import importlib, json, os, sys


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = None
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if "--seed" in argv:
        seed = int(argv[argv.index("--seed") + 1])
    if "--replay" in argv:
        r = json.load(open(argv[argv.index("--replay") + 1]))
        tier, seed, only = r["tier"], r["seed"], r["key"]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    import warnings
    import numpy as np
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")
    import logging
    logging.disable(logging.CRITICAL)
    mod = importlib.import_module(f"pv.checks.{pid.lower()}")
    from pv.core import Check
    ck = Check(pid, tier, seed, mod.RULE, getattr(mod, "ASSUMPTIONS", ()))
    extra = None
    try:
        extra = mod.run(ck)
    except Exception as e:
        # the code did something the workload cannot even go on from: that is reported, next to what was observed before it
        import traceback
        traceback.print_exc()
        ck.violation("workload-stopped", f"the workload could not be carried through: {type(e).__name__}: {str(e)[-600:]}", {"traceback": traceback.format_exc()[-3000:]})
    return ck.finish(extra=extra, only_key=only)


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
