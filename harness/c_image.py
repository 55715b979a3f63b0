"""Checks P18-P20: generated images, admitted geometry and motion."""

import core

X = 3 if core.THOROUGH else 1
MODEL = """SPECIFICATION Spec
CONSTANTS
 W = 3
 MaxP = 2
 BreakMask = %s
 BreakHide = %s
 BreakMixed = %s
INVARIANT Accepted
CHECK_DEADLOCK FALSE
"""


def spread(tests, n=7):
    n = min(n, len(tests))
    return [dict(tests=tests[i::n]) for i in range(n)]


def gather(c, script, tests, n=7, **kw):
    return [t for r in c.run_workers(script, spread(tests, n), timeout=3000, **kw) for t in r]


# ------------------------------------------------------------------- P18
def image_cfg(c, kind):
    r = c.rng
    d = dict(
        via="function", seed=r.randrange(1 << 20), B=r.choice([2, 3, 4]), calls=2 * X, flows=1, move=0,
        shape=[r.choice([24, 40, 56]), r.choice([32, 48, 64])], offset=[0, 0], speed=4.0, density=[0.1, 0.1],
        hide1=0, hide2=0, dia=[[2.0, 2.0]], int=[[1.0, 1.0]], rho=[[0.0, 0.0]], dvar=0.0, ivar=0.0,
        rvar=0.0, dt=1.0, nu=0.0, nm=0.0, ns=0.0, mask=0, hist=0, one=0, count=0, still=0,
    )
    if kind == "count":
        d.update(count=1, dia=[[2.0, 2.0], [3.0, 3.0]], int=[[1.0, 1.0], [3.0, 3.0]],
                 rho=[[0.0, 0.0], [0.5, 0.5]], hide1=r.choice([0, 0, 50, 100]), hide2=r.choice([0, 0, 30, 100]),
                 density=r.choice([[0.1, 0.1], [0.05, 0.2], [0.02, 0.3]]), B=5, move=r.choice([0, 1]),
                 dvar=r.choice([0.0, 1.0]), ivar=r.choice([0.0, 2.0]), rvar=r.choice([0.0, 0.5]))
        d["shape"] = [r.choice([40, 56, 72]), r.choice([48, 64, 80])]
        d["still"] = int(not d["move"] and d["dvar"] + d["ivar"] + d["rvar"] == 0)
    elif kind == "still":
        d.update(still=1, dia=[[0.5, 2.5]], int=[[50.0, 200.0]], rho=[[-0.5, 0.5]], flows=r.choice([1, 2]),
                 density=[0.01, 0.1], dt=r.choice([1.0, 0.25]))
    elif kind == "one":
        h = r.choice([0, 0, 50])
        d.update(one=1, dia=[[1.5, 2.0], [3.0, 4.0]], int=[[20.0, 60.0], [100.0, 200.0]],
                 rho=[[-0.6, -0.3], [0.2, 0.5]], dvar=r.choice([0.0, 0.0, 0.5]), ivar=0.0, rvar=0.0,
                 hide1=h, hide2=h, B=8, calls=10 * X, shape=[32, 40])
        if d["dvar"]:
            d.update(ivar=r.choice([0.0, 100.0]), rvar=r.choice([0.0, 0.1]))
        d["density"] = [1.5 / (32 * 40)] * 2
    elif kind == "blank":
        d.update(hide1=100, hide2=100, nu=r.choice([0.0, 5.0, 20.0]), density=[0.1, 0.2], int=[[200.0, 255.0]])
    elif kind == "wild":
        d.update(dia=r.choice([[[0.1, 1.0]], [[0.5, 4.0], [1.0, 2.0]]]), int=[[0.1, 255.0], [200.0, 255.0]],
                 rho=[[-0.9, 0.9], [-0.1, 0.1]], density=r.choice([[0.0, 0.5], [0.4, 0.5], [0.0, 0.0]]), dvar=4.0, ivar=400.0,
                 rvar=4.0, nu=r.choice([0.0, 40.0]), nm=r.choice([0.0, 30.0, 120.0]), ns=r.choice([0.0, 25.0]),
                 hide1=r.choice([0, 20, 100]), hide2=r.choice([0, 20]), mask=r.choice([0, 7, 9]), move=1,
                 hist=r.choice([0, 0, 3, 4]), flows=r.choice([1, 2]))
    elif kind == "sampler":
        d.update(via="sampler", dia=[[0.5, 2.0], [1.0, 3.0]], int=[[50.0, 255.0], [0.5, 30.0]],
                 rho=[[-0.5, 0.5]], density=[0.02, 0.2], dvar=1.0, ivar=30.0, rvar=0.5, nu=r.choice([0.0, 10.0]),
                 ns=r.choice([0.0, 5.0]), hide1=r.choice([0, 10, 100]), hide2=r.choice([0, 10, 100]),
                 mask=r.choice([0, 5, 6]), hist=r.choice([0, 0, 1, 2]), move=1, offset=[6.0, 6.0])
    elif kind == "sampler_count":
        # a window: what is visible in it follows the density only roughly, but hiding is exact
        h = r.choice([(0, 0), (0, 100), (100, 0)])
        d.update(via="sampler", density=r.choice([[0.3, 0.3], [0.2, 0.2], [0.25, 0.3]]), count=1, B=5, hide1=h[0],
                 hide2=h[1], shape=[56, 64], speed=r.choice([20.0, 30.0]))
        d["offset"] = [d["speed"]] * 2
    d["bounds"] = d["shape"]
    g = r.choice([1, 1, 2, 0.5])
    d["grid"] = [int(x * g) for x in d["shape"]]
    if d["via"] == "sampler":
        d["grid"] = [x + int(o + d["speed"]) + r.choice([0, 5, 20]) for x, o in zip(d["shape"], d["offset"])]
    return d


def oracle(d):
    """What the monitor reads of a configuration."""
    noise = int(bool(d["nu"] or d["nm"] or d["ns"]))
    milli = lambda rs: [[int(round(1000 * v)) for v in x] for x in rs]  # noqa: E731
    blank = d["hide1"] == 100 and d["hide2"] == 100 and not d["nm"] and not d["ns"] and d["nu"] and not d["hist"]
    return dict(
        hist=int(bool(d["hist"])), dlo=int(round(1e6 * d["density"][0])), dhi=int(round(1e6 * d["density"][1])),
        area=d["bounds"][0] * d["bounds"][1], hide1=d["hide1"], hide2=d["hide2"], noise=noise, window=int(d["via"] == "sampler"),
        still=d["still"], one=d["one"], vary=int(bool(d["dvar"] or d["ivar"] or d["rvar"])),
        h=d["bounds"][0], w=d["bounds"][1], out=[1000, 1500] if d["move"] else [0, 0],
        diaR=milli(d["dia"]), intR=milli(d["int"]), rhoR=milli(d["rho"]),
        blanknoise=int(1000 * d["nu"]) + 1 if blank else 0)


def image_canary(t, rng):
    e = rng.choice(t["ev"])
    c = t["cfg"]
    how = rng.randrange(7)
    if how == 0:
        e["hi"] = 255001
    elif how == 1:
        e["lo"] = -1
    elif how == 2:
        e["dens"] = c["dhi"] + 500
    elif how == 3:
        e["int"] = 0
    elif how == 4 and e["n1"] >= 0:
        e["n1"] = e["n1"] * 2 + 200 if c["hide1"] < 100 else e["n1"]
        e["dens"] = e["dens"] if c["hide1"] < 100 else -5
    elif how == 5 and e["p1"]:
        k = rng.choice([0, 1, 2, 3])
        e["p1"][k] += rng.choice([-1, 1]) * [3000, 3000, 400000, 1500][k]
    else:
        e["finite"] = 0
    return t


def p18(c):
    c.model("Images", MODEL % ("FALSE", "FALSE", "FALSE"), must_take=["Place", "Hide", "Draw"])
    for k in range(3):
        c.refute("Images", MODEL % tuple("TRUE" if j == k else "FALSE" for j in range(3)))
    tests = []
    plan = ["count"] * 10 + ["still"] * 5 + ["one"] * 6 + ["blank"] * 3 + ["wild"] * 10 + ["sampler"] * 8 + ["sampler_count"] * 3
    for k, kind in enumerate(plan * X):
        d = image_cfg(c, kind)
        if k in (0, 10):  # sides above 256
            d["shape"] = d["bounds"] = d["grid"] = [[280, 264], [16, 300]][k > 0]
        short = {x: v for x, v in d.items() if x not in ("bounds", "grid", "calls")}
        tests.append(dict(id=f"{kind}{k} {short}", cfg=d))
    tr = gather(c, "w_image.py", tests)
    for t in tr:
        t["cfg"] = oracle(t["cfg"])
    c.validate("ImageTrace", tr, image_canary, label="images")


# ------------------------------------------------------------------- P19
GEO = """SPECIFICATION Spec
CONSTANTS
 N = 5
 Swap = %s
 NoLow = %s
INVARIANTS Sound Tight
CHECK_DEADLOCK FALSE
"""


def placement(c, run):
    """A placement whose margins are exact, short or generous (lengths in 1/64)."""
    r = c.rng
    dt = r.choice([1.0, 0.5, 0.25, 2.0])
    res = r.choice([1.0, 2.0, 0.5, 4.0, 0.25])
    step = 8 if not run else 64
    gap = 64 / res if run else 8  # whole pixels when a batch is generated
    px = [r.choice([16, 20, 24, 31]), r.choice([16, 18, 27, 32])]
    p = dict(dt=dt, res=res, px=px, n=r.choice([1, 2]), vnum=r.choice([1, 1, 1, 2, 3]), vden=r.choice([1, 1, 2, 4]),
             units=r.choice(["pixels", "measure units per second"]), ints=r.random() < 0.3, run=run,
             hide=[0.0, 0.0], density=[0.05, 0.05], dia=[[0.5, 1.5]])
    if r.random() < 0.5:
        p.update(hide=r.choice([[0.1, 0.0], [0.0, 0.2], [0.3, 0.3]]))
    if r.random() < 0.3:
        p.update(density=[0.02, 0.06], dia=r.choice([[[1.0, 3.0]], [[0.2, 0.5]], [[0.5, 1.0], [1.0, 5.0]]]))
    lo, hi, off, size = [], [], [], []
    for k in (0, 1):
        a, b = sorted(r.choice([-3, -2, -1, 0, 0, 1, 2, 3]) * r.choice([step, step, 16, 24 if not run else 64])
                      for _ in (0, 1))
        # speeds whose product with dt is whole
        a, b = int(a / dt) if dt > 1 else a, int(b / dt) if dt > 1 else b
        a, b = a - a % 8, b - b % 8
        d = [r.choice([0, 0, 0, 8, 64, 640, -8, -64]) if r.random() < (0.5 if not run else 0.25) else r.choice([0, 64])
             for _ in (0, 1)]
        if run:
            d = [int(abs(v) * (1 if v % 64 == 0 else 8)) for v in d]
        o = int(max(0, b) * dt) + d[0]
        o = max(0, o)
        lo.append(a)
        hi.append(b)
        off.append(o)
        size.append(max(8, int(o + px[k] * 64 / res + max(0, -a) * dt) + d[1]))
    g = r.choice([1, 1, 0.5, 2, 0.7, 1.3])
    if run and r.random() < 0.1:  # a field much larger than the image, known at few points
        size, g = [s + r.choice([1000, 6400]) for s in size], 0.02
    if run and r.random() < 0.5:  # decimal values, far from the limits
        p.update(dt=r.choice([0.1, 0.3, 0.7]), res=r.choice([10.0, 3.0, 7.0, 0.1, 0.3]))
        hi = [64 * r.choice([0.0, 0.1, 0.7, 1.1, 2.3]) / p["res"] / p["dt"] for _ in hi]
        lo = [-64 * r.choice([0.0, 0.2, 0.9, 1.7]) / p["res"] / p["dt"] for _ in lo]
        off = [h * p["dt"] + 64 * r.choice([0.3, 0.7, 1.1, 5.9]) / p["res"] for h in hi]
        size = [o + px[k] * 64 / p["res"] - lo[k] * p["dt"] + 64 * r.choice([0.3, 1.1, 7.0]) for k, o in enumerate(off)]
    p.update(lo=lo, hi=hi, off=off, size=size,
             grid=[max(1, int(s / 64 * p["res"] * g)) for s in size])
    return p


def geometry_canary(t, rng):
    k = rng.randrange(len(t["ev"]))
    e = t["ev"][k]
    if e["run"] == "ok" and rng.random() < 0.7:
        s = rng.choice(["s1", "s2", "sf"])
        e[s][rng.choice([0, 1, 2])] += 1
    else:
        e["kind"] = {"accepted": "refused", "refused": "accepted"}.get(e["kind"], "accepted")
    return t


def p19(c):
    c.model("Geometry", GEO % ("FALSE", "FALSE"), must_take=["Refuse", "Accept", "Seed"])
    c.refute("Geometry", GEO % ("TRUE", "FALSE"))
    c.refute("Geometry", GEO % ("FALSE", "TRUE"))
    tests = [dict(id=f"placements{k}", points=[placement(c, False) for _ in range(60)]) for k in range(35 * X)]
    tests += [dict(id=f"batches{k}", points=[placement(c, True) for _ in range(1)]) for k in range(42 * X)]
    tr = gather(c, "w_geometry.py", tests)
    kinds = {e["kind"] for t in tr for e in t["ev"]}
    ran = sum(e["run"] != "" for t in tr for e in t["ev"])
    if not {"accepted", "refused"} <= kinds or ran < 10:
        raise core.MachineryError(f"placements not diverse: {kinds} {ran}")
    c.validate("GeometryTrace", tr, geometry_canary, label="placements")


# ------------------------------------------------------------------- P20
MOT = """SPECIFICATION Spec
CONSTANTS
 Img = 3
 Size = 8
 BreakCrop = %s
 BreakScale = %s
 BreakPad = %s
INVARIANT Agree
CHECK_DEADLOCK FALSE
"""


def motion_cfg(c, k, big=None):
    r = c.rng
    g = [(1, 1), (2, 2), (0.5, 0.5), (1, 2), (2, 1), (0.5, 1), (2, 0.5)][k % 7]  # grid steps per pixel along x, y
    px = big or [r.choice([28, 32, 36]), r.choice([30, 34, 40])]
    top = [r.choice([1, 2, 3, 4, 5]) for _ in (0, 1)]  # x, y
    extra = k % 2  # room for hidden particles: the particle region is enlarged
    near = r.random() < 0.6
    off = [t + 1 + (0 if near else r.choice([1, 2, 3, 6, 8])) for t in top]  # x, y
    size = [off[1] + px[0] + top[1] + 1 + r.choice([0, 1, 4]), off[0] + px[1] + top[0] + 1 + r.choice([0, 2, 5])]
    size = [v + v % 2 for v in size]
    flows = []
    for _ in range(r.choice([1, 1, 2, 3])):
        f = {}
        for key, t in zip("uv", top):
            a, b = [r.choice([-1, 1]) * r.choice([0, 5, 10] if big else [0, 20, 40, 60]) for _ in (0, 1)]
            # stay within -t..t over the whole field
            ends = [a * X + b * Y for X in (0, size[1]) for Y in (0, size[0])]
            lo, hi = -1000 * t - min(ends), 1000 * t - max(ends)
            if lo > hi:
                a = b = 0
                lo, hi = -1000 * t, 1000 * t
            f[key] = [r.randint(lo, hi), a, b]
        flows.append(f)
    return dict(
        g=g, px=px, off=off, size=size, grid=[int(size[0] * g[1]), int(size[1] * g[0])], flows=flows, B=8, calls=(50 if extra else 24) * X, least=4,
        res=r.choice([1.0, 2.0, 0.5, 4.0]), dt=r.choice([1.0, 0.5, 0.25, 2.0]), vpp=r.choice([1, 1, 1, 0.5, 2]),
        units=r.choice(["pixels", "measure units per second"]), seed=r.randrange(1000), margin=1,
        top=top, exact=int(r.random() < 0.7), room=extra, hide=0.25 if extra else 0.0, spread=1.0 if not extra or r.random() < 0.5 else 1.4)


def motion_canary(t, rng):
    e = rng.choice([e for e in t["ev"] if e["see"] == "both"])
    a = rng.choice([0, 1])
    if rng.random() < 0.2:
        e["see"] = "first" if rng.random() < 0.5 else "changed"
        e["p1"] = [v // 2 for v in t["cfg"]["px"]]
    elif rng.random() < 0.5:
        e["p2"][a] += rng.choice([-700, 700])
    else:
        e["r"][a] += rng.choice([-1500, 1500]) * max(1, t["cfg"]["sd"] // t["cfg"]["sn"])
    return t


def p20(c):
    c.model("Motion", MOT % ("FALSE", "FALSE", "FALSE"), must_take=["Seed", "Move", "Back"])
    for k in range(3):
        c.refute("Motion", MOT % tuple("TRUE" if j == k else "FALSE" for j in range(3)))
    tests = []
    for k in range(42 * X):
        d = motion_cfg(c, k, {20: [270, 20], 40: [20, 280]}.get(k))
        tests.append(dict(id=f"motion{k} {d}", cfg=d))
    tr = gather(c, "w_motion.py", tests)
    c.validate("MotionTrace", tr, motion_canary, label="motion")
