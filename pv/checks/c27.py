"""C27: round trip of stored arrays and detection of damaged bytes."""
import math, struct
import numpy as np
from pv.core import observe
from pv.store import Scratch, f32, same
RULE = ("arrays of length 0..20000 (normal, ties, negative, subnormal, huge, inf, NaN, constants, integers) stored and read through the "
        "SQLite storage (float32) and through the column codec in both precisions; encoded bytes damaged by every single-bit flip of "
        "short blobs, sampled flips of long ones, truncations, extensions, splices; an evaluation is one round trip or one decode of "
        "damaged bytes; non-trivial = non-empty array or damaged blob")


def arrays(ck, r):
    sp = [0.0, -0.0, 1e-45, 1e-40, -1e-310, 5e-324, 3.4e38, -3.4e38, 1e39, 1e300, -1e308, math.inf, -math.inf, math.nan, 0.1, 1 / 3, 16777217.0, 1e-8]
    yield "empty", []
    for v in sp:
        yield "single", [v]
    yield "special", sp
    for n in (1, 2, 3, 7, 100, 255, 256, 257, 1000, 20000) + ((65535, 65536, 65537, 200000) if ck.thorough else ()):
        yield "normal", [float(x) for x in r.normal(size=n)]
        yield "const", [0.1] * n
        yield "ties", [float(x) for x in r.integers(0, 3, n)]
        yield "wide", [float(x) for x in r.normal(size=n) * 10.0 ** r.integers(-44, 38, n)]
    for n in (65535, 65537, 2 ** 17 + 1, 2 ** 20 - 1, 2 ** 20 + 3) if not ck.thorough else (2 ** 16 + 5, 2 ** 18 + 1, 2 ** 20, 2 ** 20 + 3, 2 ** 21 + 7):
        yield "long", [float(x) for x in r.normal(size=n)]
    for _ in range(60 if not ck.thorough else 1500):
        n = int(r.integers(0, 60))
        yield "mix", [sp[int(i)] if r.random() < .3 else float(r.normal() * 10.0 ** r.integers(-50, 50)) for i in r.integers(0, len(sp), n)]
        yield "sorted", sorted(float(x) for x in r.exponential(size=n))


def run(ck):
    from pysatl_criterion.persistence.models.limit_distribution import CriticalValueQuery, LimitDistributionModel, LimitDistributionQuery
    from pysatl_criterion.persistence.sqlalchemy.datastorage import AlchemyLimitDistributionStorage as Store
    from pysatl_criterion.persistence.sqlalchemy.alchemy_decorator import CompressedFloatArray
    r = ck.rng("c27")
    with Scratch() as sc:
        st = Store(sc.url())
        st.init()
        i = 0
        for kind, v in arrays(ck, r):
            i += 1
            want = f32(v)
            if v:
                ck.nontrivial(kind, len(v), tuple(v[:20]))
            ck.ev()
            ck.count("storage-roundtrips")
            o = observe(st.insert_data, LimitDistributionModel(1, "C", [float(i)], 10, 5, v))
            if o.kind != "ok":
                ck.violation("storage:insert-raised", f"{kind} array of {len(v)}: {o.short()}", v)
                continue
            readers = [("get_data", lambda: st.get_data(LimitDistributionQuery("C", [float(i)], 10, 5)))]
            if i % 3 == 0:
                st.insert_bulk_data([LimitDistributionModel(1, f"B{i}", [], 10, 5, v)])
                readers += [("bulk", lambda: st.get_bulk_data([f"B{i}"], 10)[0]),
                            ("cv", lambda: st.get_data_for_cv(CriticalValueQuery(f"B{i}", 10)))]
            for nm, f in readers:
                ck.ev()
                o = observe(f)
                got = o.value.results_statistics if o.kind == "ok" and o.value is not None else None
                if got is None or not isinstance(got, list) or not same(got, want):
                    ck.violation(f"storage:{nm}:values", f"{kind} array of {len(v)}: read back {o.short()[:150]} expected {want[:6]}", {"stored": v})
            if i % 9 == 0:
                st = Store(sc.url())
                st.init()
            ck.sample(kind, {"stored": v[:6], "n": len(v), "read": want[:6]})
            for single in (False, True):
                c, d = CompressedFloatArray(use_float32=single), CompressedFloatArray(use_float32=not single)
                w = want if single else [float(x) for x in v]
                forms = [("list", list(v)), ("ndarray", np.array(v, dtype=float)), ("tuple", tuple(v))]
                blob = None
                for nm, form in forms:
                    ck.ev()
                    ck.count("codec-roundtrips")
                    o = observe(c.process_bind_param, form, None)
                    if o.kind != "ok":
                        ck.violation(f"codec:encode-raised:{nm}", o.short(), v)
                        continue
                    blob = o.value
                    for dec in (c, d):        # the blob describes itself: any reader decodes it
                        o = observe(dec.process_result_value, blob, None)
                        if o.kind != "ok" or not same(o.value, w):
                            ck.violation(f"codec:roundtrip:{'f32' if single else 'f64'}", f"{kind} {nm} of {len(v)}: {o.short()[:150]} expected {w[:6]}", v)
                if blob is None:
                    continue
                # damage
                muts = []
                if len(blob) <= 60 or (len(blob) < 500 and i % 10 == 0):
                    muts += [("flip", p, b) for p in range(len(blob)) for b in range(8)]
                else:
                    muts += [("flip", int(r.integers(len(blob))), int(r.integers(8))) for _ in range(25)]
                    muts += [("flip", p, b) for p in range(6) for b in range(8)]
                if len(v) > 60000:
                    muts = muts[:6] + muts[-12::2]
                muts += [("cut", int(k), 0) for k in set(list(range(min(12, len(blob)))) + [int(x) for x in r.integers(0, len(blob), 6)])]
                muts += [("byte", int(r.integers(len(blob))), int(r.integers(256))) for _ in range(6)]
                muts += [("version", b, 0) for b in (0, 2, 3, 255)] + [("dtype", b, 0) for b in (0, 3, 4, 255)]
                for m, p, b in muts:
                    bb = bytearray(blob)
                    if m == "flip":
                        bb[p] ^= 1 << b
                    elif m == "cut":
                        bb = bb[:p]
                    elif m == "byte":
                        bb[p] = b
                    elif m == "version":
                        bb[0] = p
                    else:
                        bb[1] = p
                    ck.ev()
                    ck.count("damaged-decodes")
                    ck.nontrivial("damage", m, p, b, len(blob), i, single)
                    o = observe(c.process_result_value, bytes(bb), None)
                    if o.kind == "hang":
                        ck.violation(f"codec:damage:{m}:hang", "decoding damaged bytes hangs", [v, m, p, b])
                    elif o.kind == "ok" and (m in ("version", "dtype") or o.value is None or not same(o.value, w)):
                        ck.violation(f"codec:damage:{m}", f"damaged blob ({m} at {p},{b}) silently decoded to {o.short()[:120]} instead of an error",
                                     {"stored": v, "damage": [m, p, b], "blob": bytes(bb).hex()[:400]})
                    elif o.kind == "exc":
                        ck.count("damage-reported")
        for bad in (b"", b"\x01", b"\x01\x01\x00\x00\x00", b"garbage", b"\x01\x02" + b"\x05\0\0\0" + b"notzstd", bytes(range(256))):
            ck.ev()
            ck.count("damaged-decodes")
            o = observe(CompressedFloatArray().process_result_value, bad, None)
            if o.kind == "ok":
                ck.violation("codec:unknown-bytes", f"{bad!r} decoded to {o.short()}", bad.hex())
        o = observe(CompressedFloatArray().process_result_value, None, None)
        if o.kind != "ok" or o.value is not None:
            ck.violation("codec:null", f"NULL decoded to {o.short()}", None)
    ck.need("storage-roundtrips", 50)
    ck.need("damage-reported", 500)
