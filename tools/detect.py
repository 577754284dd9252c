#!/usr/bin/env python3
"""Developer tool: run the quick check of each planted bug's property against a scratch copy of /repo with the bug applied, in a private
mount namespace, and rewrite the detection table of DESIGN.md.  usage: detect.py [-j N] [id ...]   (needs unshare -m; no check uses it)"""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys

V = "/verif"
ALSO = {"t19": "C10", "u09": "C06", "u13": "C10", "u29": "C29"}


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def one(i):
    meta = json.load(open(f"{V}/seeded/{i}/meta.json"))
    w, c = f"/tmp/dw/{i}", f"/tmp/dv/{i}"
    for d in (w, c):
        shutil.rmtree(d, ignore_errors=True)
    os.makedirs("/tmp/dw", exist_ok=True)
    os.makedirs(c)
    sh(f"cp -a /repo {w} && cd {V} && cp -a check.sh pv tools known_findings.txt properties.jsonl MANIFEST.json {c}/")
    if sh(f"git -C {w} apply {V}/seeded/{i}/patch.diff").returncode:
        return i, {"error": "patch does not apply"}
    checks = [meta["property"]] + ALSO.get(i.split("-")[0], "").split()
    script = f"mount --bind {w} /repo; mount --bind {c} /verif; cd /verif; " + "".join(
        f"VERIF_SEED=1 VERIF_TIER=quick sh check.sh {k} >{c}/{k}.log 2>&1; echo {k} $?; " for k in dict.fromkeys(checks))
    out = sh(f"unshare -m sh -c '{script}'", timeout=2000).stdout
    res = {"property": meta["property"], "needs": meta["needs"], "caught": [], "missed": []}
    for l in out.split("\n"):
        if l.strip():
            k, v = l.split()
            res["caught" if v == "1" else "missed"].append(k)
    for d in (w, c):
        shutil.rmtree(d, ignore_errors=True)
    return i, res


def table(R):
    p = f"{V}/DESIGN.md"
    s = open(p).read().split("## Detection of planted bugs")[0].rstrip()
    s = s.removesuffix("DETECTION").rstrip()
    lines = ["", "", "## Detection of planted bugs", "", "Each bug is in `seeded/<id>/`; last full run of `tools/detect.py` (quick tier, seed 1).", "",
             "| bug | property | needs | caught by |", "|---|---|---|---|"]
    for i in sorted(R):
        r = R[i]
        if "error" in r:
            lines.append(f"| {i} | | | ({r['error']}) |")
        else:
            needs = r["needs"].replace("|", "/").replace("\n", " ")
            lines.append(f"| {i} | {r['property']} | {needs[:150]} | {', '.join(r['caught']) or '**missed**'} |")
    n = sum(1 for r in R.values() if r.get("caught"))
    lines += ["", f"{n} of {len(R)} caught."]
    open(p, "w").write(s + "\n".join(lines) + "\n")


def main():
    a = sys.argv[1:]
    j = 4
    if a[:1] == ["-j"]:
        j, a = int(a[1]), a[2:]
    f = f"{V}/tools/detection.json"
    R = json.load(open(f)) if os.path.exists(f) else {}
    every = sorted(os.listdir(f"{V}/seeded"))
    R = {k: v for k, v in R.items() if k in every}
    want = [i for i in every if not a or any(i.startswith(x) for x in a)]
    if a == ["new"]:
        want = [i for i in every if i not in R]
    with cf.ThreadPoolExecutor(j) as ex:
        for i, r in ex.map(one, want):
            R[i] = r
            print(i, r.get("caught"), r.get("missed"), r.get("error", ""), flush=True)
    json.dump(R, open(f, "w"), indent=1, sort_keys=True)
    table(R)


main()
