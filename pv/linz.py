"""Linearizability of one register (write v / read -> v or None / delete), unique written values; Wing-Gong search with memo."""


def linearizable(ops, initial=None, budget=2_000_000):
    """ops: list of (call, ret, kind, value); ret=None means the operation failed or never returned (it may or may not take
    effect, at any time after its call).  Returns True, False or None (budget exhausted)."""
    INF = float("inf")
    ops = sorted(ops, key=lambda o: o[0])
    n = len(ops)
    ret = [INF if o[1] is None else o[1] for o in ops]
    must = 0
    for i, o in enumerate(ops):
        if o[1] is not None:
            must |= 1 << i
    stack = [(0, initial)]
    seen = {(0, initial)}
    steps = 0
    while stack:
        done, state = stack.pop()
        if done & must == must:
            return True
        steps += 1
        if steps > budget:
            return None
        # an op may go next if it was called before every pending op returned
        limit = INF
        cands = []
        for i in range(n):
            if done >> i & 1:
                continue
            if ops[i][0] > limit:
                break
            cands.append(i)
            if ret[i] < limit:
                limit = ret[i]
        for i in cands:
            if ops[i][0] > limit:
                continue
            k, v = ops[i][2], ops[i][3]
            if k == "read":
                if v != state:
                    continue
                ns = state
            elif k == "write":
                ns = v
            else:
                ns = None
            t = (done | 1 << i, ns)
            if t not in seen:
                seen.add(t)
                stack.append(t)
    return False


def selftest():
    assert linearizable([(0, 1, "write", 1), (2, 3, "read", 1)]) is True
    assert linearizable([(0, 1, "write", 1), (2, 3, "read", None)]) is False
    assert linearizable([(0, 5, "write", 1), (2, 3, "read", None)]) is True
    assert linearizable([(0, 1, "write", 1), (2, 3, "write", 2), (4, 5, "read", 1)]) is False
    assert linearizable([(0, None, "write", 1), (2, 3, "read", None), (4, 5, "read", 1)]) is True
    assert linearizable([(0, 1, "write", 1), (2, 9, "delete", None), (3, 4, "read", None), (5, 6, "read", 1)]) is False
