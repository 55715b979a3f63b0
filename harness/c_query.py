"""Checks P32: questions are free."""

import core
from c_image import gather

X = 3 if core.THOROUGH else 1
QUERY = """SPECIFICATION Spec
CONSTANTS
 L = %d
 MaxOps = %d
 BreakTake = %s
 BreakRewind = %s
INVARIANT Undisturbed
CHECK_DEADLOCK FALSE
"""


def query_cfg(r, k):
    """Which layers, in turn; everything else at random."""
    fmt = ["h5", "npy", "mat", "mat", "h5", "npyimg", "mat", "mat73"][k % 8]
    c = dict(fmt=fmt, slices=r.choice([2, 3, 4]) if fmt == "h5" else 1, n=r.choice([3, 5, 8]), dirs=1, shape=[3, 2, 2],
             rand=r.random() < 0.5, loop=r.random() < 0.6, B=r.choice([1, 2, 3]), L=0, prefetch=r.choice([0, 0, 0, 1, 3]),
             top="", seed=r.randrange(1000), bpf=1)
    if fmt == "mat":
        c["dirs"] = r.choice([1, 2])
        c["n"] = c["dirs"] * r.choice([3, 4, 6])
        if k % 8 != 2:
            c["L"] = r.choice([1, 2, 3])
        c["top"] = r.choice(["", "real"])
    return c


def query_ops(r, c, n):
    qs = ["shape", "files", "iter", "len"]
    if c["L"]:
        qs += ["remaining", "length", "iter", "remaining"]
    elif c["prefetch"]:
        qs += ["remaining"]
    if c["prefetch"]:
        qs += ["running"]
    ops, t = [], 0
    for _ in range(n):
        for _ in range(r.choice([0, 1, 1, 2, 4])):
            ops.append(["ask", [r.choice(qs), r.randrange(3)]])
        x = r.random()
        if c["L"] and (t > c["L"] or x < 0.12):
            ops.append(["next", None])
            t = 0
        elif x < 0.2 and not (c["prefetch"] and (c["rand"] or c["L"])):
            # (how many draws a loader is ahead when it is reset depends on its speed)
            ops.append(["reset", None])
            t = 0
        else:
            ops.append(["get", None])
            t += 1
    return ops


def query_canary(t, rng):
    es = [e for e in t["ev"] if e["op"] == "get"]
    asked = [e for e in t["ev"] if e["op"] == "ask" and e["q"] in ("shape", "len", "remaining", "length")]
    if asked and rng.random() < 0.5:
        e = rng.choice(asked)
        e["v"][0] += rng.choice([-1, 1])
    else:
        e = rng.choice(es)
        if rng.random() < 0.5:
            e["kind2"] = "StopIteration" if e["kind"] == "ok" else "ok"
        elif e["kind"] == "ok":
            e["same"] = 0
        else:
            e["kind"] = "ValueError"
    return t


def p32(c):
    for L in (0, 2):
        c.model("Queries", QUERY % (L, 7, "FALSE", "FALSE"), must_take=["Get", "Restart", "Ask"])
        c.refute("Queries", QUERY % (L, 7, "TRUE", "FALSE"))
    c.refute("Queries", QUERY % (2, 7, "FALSE", "TRUE"))
    tests, r = [], c.rng
    for k in range(112 * X):
        d = query_cfg(r, k)
        tests.append(dict(id=f"stack{k} {d}", cfg=d, ops=query_ops(r, d, r.choice([12, 20, 30]))))
    for k in range(5 * X):
        d = dict(fmt="mat", slices=1, n=6, dirs=2, shape=[24, 24, 2], rand=True, loop=True, B=2, L=r.choice([0, 2, 3]),
                 prefetch=r.choice([0, 2]), top="synthetic", seed=r.randrange(1000), bpf=r.choice([1, 2]))
        if d["L"]:
            d["bpf"] = 1
        tests.append(dict(id=f"sampler{k} {d}", cfg=d, ops=query_ops(r, d, 14)))
    c.validate("QueriesTrace", gather(c, "w_query.py", tests), query_canary, label="stacks with questions")
