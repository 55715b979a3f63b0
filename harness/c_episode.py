"""Checks P06 and P07: episodic scheduling."""

import core

MODEL = """SPECIFICATION Spec
CONSTANTS
 B = %(B)d
 L = %(L)d
 FixOrder = %(fix)s
 ShuffleBase = %(rand)s
 MaxOps = %(ops)d
INVARIANTS %(inv)s
CHECK_DEADLOCK FALSE
"""
INV = "Allowed CounterMatches Lockstep"


def layouts(rng, k):
    """Directory layouts: sequence lengths, unlisted frames, nesting, listing style."""
    n = rng.choice([1, 2, 3])
    names = [f"a/seq{j}" if rng.random() < 0.5 else f"s{j}" for j in range(n)]
    if rng.random() < 0.3:
        names = [f"run {j}.v1/x" for j in range(n)]
    dirs = []
    for nm in names:
        frames = rng.choice([2, 3, 4, 5, 6])
        as_dir = rng.random() < 0.3
        skip = []
        if not as_dir and rng.random() < 0.5 and frames > 2:
            skip = sorted(rng.sample(range(frames), rng.choice([1, 2]) if frames > 3 else 1))
        dirs.append(dict(name=nm, frames=frames, skip=skip, as_dir=as_dir))
    return dirs


def usable(d):
    return d["frames"] - len(d["skip"])


def p06(c):
    d = dict(B=2, L=3, fix="TRUE", rand="TRUE", ops=0, inv=INV)
    c.model("Episodes", MODEL % d, defs={"Lens": "<<3,4,5>>" if core.THOROUGH else "<<3,4>>"},
            must_take=["Step", "End", "Fresh"])
    c.model("Episodes", MODEL % dict(d, B=3, L=2), defs={"Lens": "<<2,4>>"}, must_take=["Step"])
    c.model("Episodes", MODEL % dict(d, B=1, L=1), defs={"Lens": "<<1,2>>"}, must_take=["Step"])
    c.refute("Episodes", MODEL % dict(d, B=2, L=2, fix="FALSE"), defs={"Lens": "<<3>>"})
    r = c.tlc("Episodes", MODEL % dict(d, ops=14, inv="Emit"), defs={"Lens": "<<4>>"}, workers=1,
              args=("-simulate", f"num={400 if core.THOROUGH else 150}", "-depth", "16",
                    "-seed", str(c.rng.randrange(1 << 30))))
    hists = [s["ops"] for s in c.scenarios(r)][: None if core.THOROUGH else 220]
    if len(hists) < 50:
        raise core.MachineryError("too few histories")
    tests = []
    for k, h in enumerate(hists):
        dirs = layouts(c.rng, k)
        m = min(usable(x) for x in dirs)
        L = c.rng.randint(1, m) if c.rng.random() < 0.9 else m + 1
        ops = ["len"]
        for o in h:
            ops += [o, "rem"] if c.rng.random() < 0.6 else [o]
        # run one episode to its end and beyond, then one more
        ops += ["get"] * (L + 2) + ["rem", "next", "rem"] + ["get"] * (L + 1)
        tests.append(dict(
            id=f"ep{k}:dirs={[(x['name'], x['frames'], x['skip'], x['as_dir']) for x in dirs]}:L={L}",
            dirs=dirs, decoy=c.rng.random() < 0.3, order=c.rng.choice(["plain", "reversed", "mixed"]),
            B=c.rng.choice([1, 2, 3, 7]), L=L, rand=c.rng.random() < 0.5, loop=c.rng.random() < 0.5,
            key=c.rng.randrange(1 << 20), ops=ops,
        ))
    for k, loop in enumerate((False, True)):
        # one sequence with a single admissible start, its second frame unreadable
        tests.append(dict(
            id=f"unreadable-frame{k}", dirs=[dict(name="s0", frames=4, skip=[], as_dir=False, broken=[1])], decoy=False,
            order="plain", B=2, L=4, rand=False, loop=loop, key=k, ops=["len", "get", "rem", "get"]))
    for t in tests:
        # a stray file next to a top-level sequence lies in the (non-leaf) root: fine;
        # beside a nested one likewise
        if t["decoy"] and t["dirs"][0]["as_dir"] and "/" not in t["dirs"][0]["name"]:
            t["decoy"] = False
    rs = c.run_workers("w_episode.py", [dict(tests=tests[i::6]) for i in range(6)])

    def canary(t, rng):
        g = [e for e in t["ev"] if e["op"] == "get" and e["kind"] == "ok"]
        if not g:
            return None
        e = rng.choice(g)
        how = rng.randrange(4)
        if how == 0:
            e["cells"][0] = [e["cells"][0][0], e["cells"][0][1] + 20]
            e["labels"] = e["cells"]
        elif how == 1:
            e["kind"] = "episode_end"
        elif how == 2:
            e["mask"][-1] = 0
        else:
            rem = [x for x in t["ev"] if x["op"] == "rem"]
            if not rem:
                return None
            rng.choice(rem)["v"] += 1
        return t

    c.validate("EpisodeTrace", [t for r in rs for t in r], canary, label="episodes")


def p07(c):
    d = dict(B=2, L=2, fix="TRUE", rand="FALSE", ops=0, inv=INV)
    c.model("Episodes", MODEL % d, defs={"Lens": "<<2,3,4>>"},
            must_take=["Step", "End", "Fresh"])
    specs = []
    n = 24 if core.THOROUGH else 10
    for k in range(n):
        dirs = layouts(c.rng, k)
        while len(dirs) < 2 and k % 2 == 0:
            dirs = layouts(c.rng, k)
        m = min(usable(x) for x in dirs)
        L = c.rng.randint(1, m)
        B = c.rng.choice([1, 2, 3])
        starts = sum(usable(x) - L + 1 for x in dirs)
        draws = min(120, 30 * starts // B + 5)
        lanes = []
        for g in range(2):
            key = c.rng.randrange(1 << 20)
            lanes += [dict(group=f"k{g}", key=key)] * 2
        specs.append((k, dirs, L, B, draws, lanes))
    # lane j of every test runs in process j; processes differ in their hash seed
    jobs, envs = [], []
    for p in range(4):
        tests = []
        for k, dirs, L, B, draws, lanes in specs:
            g = lanes[p]
            tests.append(dict(
                id=f"draw{k}", dirs=dirs, decoy=False, order="plain", B=B, L=L, rand=False, loop=False,
                key=g["key"], group=g["group"], ops=["draw"] * draws,
            ))
        jobs.append(dict(tests=tests))
        envs.append({"PYTHONHASHSEED": str(100 + 37 * p)})
    rs = c.run_workers("w_episode.py", jobs, envs=envs)
    blank = dict(op="end", kind="ok", cells=[], labels=[], mask=[], v=0, group="", no=0, all=1)
    traces = []
    for j, (k, dirs, L, B, draws, lanes) in enumerate(specs):
        ev = [e for p in range(4) for e in rs[p][j]["ev"]]
        traces.append(dict(
            id=f"draw{k}:dirs={[(x['name'], usable(x)) for x in dirs]}:L={L}:B={B}",
            cfg=rs[0][j]["cfg"], ev=ev + [dict(blank)],
        ))
    # too-short sequences
    tests = []
    for k in range(30):
        dirs = layouts(c.rng, k)
        m = min(usable(x) for x in dirs)
        L = m + c.rng.choice([-1, 0, 1, 1, 2])
        tests.append(dict(
            id=f"short{k}:lens={[usable(x) for x in dirs]}:L={L}", dirs=dirs, decoy=False, order="mixed",
            B=2, L=max(1, L), rand=False, loop=False, key=k, group="k0", ops=["draw"],
        ))
    for t in c.run_worker("w_episode.py", dict(tests=tests)):
        t["ev"].append(dict(blank, all=0))
        traces.append(t)

    def canary(t, rng):
        g = [e for e in t["ev"] if e["op"] == "draw"]
        if not g:
            t["ev"][0]["kind"] = "ok"
            return t
        how = rng.randrange(3)
        if how == 0:
            e = rng.choice(g)
            e["cells"][0] = [e["cells"][0][0], e["cells"][0][1] + 20]
        elif how == 1 and len(g) > 4:
            cell = g[0]["cells"][0]
            t["ev"] = [e for e in t["ev"] if cell not in e["cells"]]
            if not any(e["op"] == "draw" for e in t["ev"]):
                return None
        else:
            t["ev"][0]["kind"] = "ValueError"
        return t

    c.validate("DrawTrace", traces, canary, label="draws")
