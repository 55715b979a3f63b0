"""Checks P29-P31: rendering, noise and random draws."""

import core
from c_image import gather

X = 3 if core.THOROUGH else 1

RENDER = """SPECIFICATION Spec
CONSTANTS
 W = 4
 MaxP = %d
 BreakWrap = %s
 BreakClip = %s
 BreakSet = %s
INVARIANT Superposed
CHECK_DEADLOCK FALSE
"""


def render_canary(t, rng):
    e = rng.choice([e for e in t["ev"] if e["op"] != "one" or e["px"]])
    if e["op"] == "one":
        q = rng.choice(e["px"])
        q[2] = 50 + q[2] + abs(q[2]) // 50 if q[2] >= 0 else 100
    else:
        e["off"] += 500
    return t


def p29(c):
    c.model("Render", RENDER % (3 if core.THOROUGH else 2, "FALSE", "FALSE", "FALSE"), must_take=["Deposit"])
    for k in range(3):
        c.refute("Render", RENDER % (2, *("TRUE" if j == k else "FALSE" for j in range(3))))
    tests, r = [], c.rng
    for k in range(28 * X):
        dmax = r.choice([2, 3, 4, 5, 6, 7, 8, 10, 12])
        d = dict(seed=r.randrange(1 << 30), dmax=dmax, dmin=max(1, dmax // 4) if dmax < 6 else 2,
                 shape=r.choice([[12, 15], [16, 11], [5, 7], [3, 9], [1, 6], [20, 20], [4, 300], [280, 3]]), n=30, m=3, group=r.choice([5, 9]))
        tests.append(dict(id=f"render{k} {d}", cfg=d))
    for k in range(8 * X):
        # the widest range first, in the middle and last
        lists = []
        for at in range(3):
            lst = [sorted(r.choices([2, 3, 4, 6, 8], k=2)) for _ in range(r.choice([1, 2]) if at != 1 else 2)]
            top = [r.choice([10, 16]), r.choice([16, 20])]
            lists.append([top, *lst] if at == 0 else [*lst, top] if at == 2 else [lst[0], top, lst[1]])
        d = dict(seed=r.randrange(1 << 30), shape=r.choice([[24, 24], [20, 33]]), lists=lists)
        tests.append(dict(id=f"ranges{k} {d}", cfg=d))
    c.validate("RenderTrace", gather(c, "w_render.py", tests), render_canary, label="rendering")


# ------------------------------------------------------------- P30 and P31
CHANCE = """SPECIFICATION Spec
CONSTANTS
 Batches = 3
 Samples = 3
 BreakFold = %s
 BreakShare = %s
 BreakCall = %s
INVARIANT Fresh
CHECK_DEADLOCK FALSE
"""


def chance_model(c):
    c.model("Chance", CHANCE % ("FALSE", "FALSE", "FALSE"), must_take=["Least", "NextSample", "NextBatch"])
    for k in range(3):
        c.refute("Chance", CHANCE % tuple("TRUE" if j == k else "FALSE" for j in range(3)))


def chance_canary(t, rng):
    es = [e for e in t["ev"] if e["op"] in ("flat", "table", "mean", "range", "same")]
    e = rng.choice(es)
    if e["op"] == "flat":  # one class emptied into another
        s = e["s"]
        j, k = rng.sample(range(len(s)), 2)
        s[k], s[j] = s[k] + s[j] + 40, 0
    elif e["op"] == "table":  # one quantity decides the other
        n = sum(map(sum, e["t"]))
        a, b = len(e["t"]), len(e["t"][0])
        e["t"] = [[n // min(a, b) + 30 if j == k else 0 for k in range(b)] for j in range(a)]
        if min(a, b) == 1:
            e["kind"] = "wrong"
    elif e["op"] == "mean":
        e["m"] = e["want"] + 10 * e["sd"] + 2 * e["slack"]
    elif e["op"] == "range":
        e["max"] = e["hi"] + 3
    else:
        e["off"] = e["most"] + 5
    return t


BASE = dict(shape=[24, 28], density=[0.05, 0.1], hide1=0, hide2=0, dia=[[1.5, 3.0]], int=[[50.0, 200.0]], rho=[[-0.5, 0.5]],
            dvar=0.0, ivar=0.0, rvar=0.0, nu=0.0, nm=0.0, ns=0.0, base=0, direct=0, calls=2, B=4)


def p30(c):
    chance_model(c)
    tests, r = [], c.rng
    kinds = [dict(nu=u) for u in (1.0, 10.0, 60.0)] + [dict(nm=m, ns=s) for m, s in ((60.0, 5.0), (120.0, 18.0), (30.0, 1.0))]
    kinds += [dict(nu=20.0, nm=60.0, ns=6.0), dict(nu=5.0, nm=100.0, ns=0.0), dict(), dict(nm=40.0)]
    for k, kind in enumerate(kinds * 2 * X):
        d = dict(BASE, what="noise", seed=r.randrange(1 << 20), direct=int(k % 4 == 0 or not kind), shape=[40, 44], calls=3, **kind)
        if k % 4 == 3:
            d.update(base=1, int=[[5.0, 20.0]], density=[0.01, 0.03])
        tests.append(dict(id=f"noise{k} {kind} {d['direct']} {d['base']} {d['seed']}", cfg=d))
    c.validate("ChanceTrace", gather(c, "w_chance.py", tests), chance_canary, label="noise")


def p31(c):
    chance_model(c)
    tests, r = [], c.rng
    one = [1.01 / (24 * 28), 1.99 / (24 * 28)]
    for k in range(7 * X):
        d = dict(BASE, what="draws", seed=r.randrange(1 << 20), density=one, B=500, calls=3 * X,
                 dia=[[1.5, 2.5], [2.5, 4.0]], int=[[50.0, 90.0], [100.0, 150.0], [160.0, 250.0]],
                 rho=[[-0.6, -0.2], [0.1, 0.5]], dvar=0.04, ivar=9.0, rvar=0.0025)
        if k % 7 == 1:
            d.update(hide1=50, hide2=50)
        elif k % 7 == 2:
            d.update(hide1=r.choice([20, 70]), hide2=r.choice([10, 40]))
        elif k % 7 == 3:
            d.update(dia=[[1.5, 4.5]], int=[[10.0, 250.0]], rho=[[-0.8, 0.8]])
        elif k % 7 == 4:
            d.update(dvar=0.0, dia=[[1.5, 2.0], [2.0, 2.5], [2.5, 3.0]])
        elif k % 7 == 5:  # as many ranges of each kind: the same key would give the same choice
            d.update(int=[[50.0, 90.0], [100.0, 150.0]])
        tests.append(dict(id=f"draws{k} {d}", cfg=d))
    for k in range(7 * X):
        d = dict(BASE, what="crowd", seed=r.randrange(1 << 20), shape=[64, 96], dia=[[2.0, 2.0]], rho=[[0.0, 0.0]],
                 int=r.choice([[[1.0, 1.0]], [[0.1, 2.0]], [[0.5, 3.0]]]), density=r.choice([[0.1, 0.1], [0.05, 0.3]]),
                 ivar=0.0, B=8, calls=3)
        tests.append(dict(id=f"crowd{k} {d}", cfg=d))
    tests = [t for k in range(7) for t in tests[k::7]]
    c.validate("ChanceTrace", gather(c, "w_chance.py", tests), chance_canary, label="draws")
