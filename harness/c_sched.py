"""Checks P01-P05: the file schedulers."""

import core

MODEL = """SPECIFICATION Spec
CONSTANTS
 MaxList = %(L)d
 MaxBatch = 3
 Faults = %(faults)s
 MaxOps = 0
 FixDup = %(dup)s
 FixLoop = %(loop)s
INVARIANTS Allowed TypeOK InStep
PROPERTIES Terminates
CHECK_DEADLOCK FALSE
"""
GEN = """SPECIFICATION Spec
CONSTANTS
 MaxList = %(L)d
 MaxBatch = 3
 Faults = %(faults)s
 MaxOps = %(ops)d
 FixDup = TRUE
 FixLoop = TRUE
INVARIANTS Emit Allowed
CHECK_DEADLOCK FALSE
"""
ANY = "BOOLEAN \\X BOOLEAN"
ACTS = ["Call", "Reset", "Exhaust", "LoadFail", "LoadOk", "Slice", "FileEnd", "Return"]


def models(c):
    big = core.THOROUGH
    t = dict(dup="TRUE", loop="TRUE")
    c.model(
        "Scheduler",
        MODEL % dict(t, L=3 if big else 2, faults="TRUE"),
        defs={"Slices": "<<2,1,0>>", "Modes": ANY},
        must_take=ACTS + ["Flip", "Wrap", "Dead"],
    )
    c.model(
        "Scheduler",
        MODEL % dict(t, L=3, faults="FALSE"),
        defs={"Slices": "<<3,1,2>>" if big else "<<2,1>>", "Modes": ANY},
        must_take=ACTS + ["Wrap", "Dead"],
    )


def generate(c, L, ops, num, faults, slices, modes=ANY):
    r = c.tlc(
        "Scheduler",
        GEN % dict(L=L, ops=ops, faults=faults),
        defs={"Slices": slices, "Modes": modes},
        workers=1,
        args=("-simulate", f"num={num}", "-depth", str(ops * 14), "-seed", str(c.rng.randrange(1 << 30))),
    )
    if not r["ok"]:
        raise core.MachineryError(r["tail"])
    return c.scenarios(r)


def prepare(c, raw, fmts, keep, n_all, tag):
    """Turn model behaviours into replay jobs."""
    out, seen = [], set()
    for k, s in enumerate(raw):
        if not keep(s):
            continue
        ok0 = list(s["ok"])
        for op, f in reversed(s["ops"]):
            if op in ("break", "repair"):
                ok0[f - 1] = op == "break"
        key = repr((s["list"], s["loop"], s["rand"], ok0, s["ops"]))
        if key in seen:
            continue
        seen.add(key)
        fmt = fmts[len(out) % len(fmts)]
        n = n_all if fmt == "h5" else [1] * len(n_all)
        total = sum(n[f - 1] for f in s["list"])
        ops = list(s["ops"])
        g = c.rng.choice([1, 2, 3])
        ops += [["get", g]] * ((total + g - 1) // g + 2)
        out.append(
            dict(
                id=f"{tag}{k}:{fmt}:list={s['list']}:loop={int(s['loop'])}:rand={int(s['rand'])}",
                fmt=fmt, list=s["list"], loop=s["loop"], rand=s["rand"], ok0=ok0,
                ops=ops, n=n, mode=c.rng.randrange(12), zero=c.rng.random() < 0.4, key=c.rng.randrange(1 << 20),
            )
        )
    return out


def replay(c, scs, script="w_sched.py", parts=6):
    jobs = [dict(scenarios=scs[i::parts]) for i in range(parts) if scs[i::parts]]
    return [t for r in c.run_workers(script, jobs) for t in r]


def canary(t, rng):
    """Corrupt one delivered batch in one of several ways."""
    gets = [i for i, e in enumerate(t["ev"]) if e["op"] == "get" and e["kind"] == "ok"]
    if not gets:
        return None
    e = t["ev"][rng.choice(gets)]
    k = len([x for x in e["items"] if x != [0, 0]])
    how = rng.randrange(5)
    if how == 0:
        e["mask"][k - 1] = 0
    elif how == 1:
        e["labels"][k - 1] = 0
    elif how == 2:
        e["items"] = e["items"][:-1]
    elif how == 3:
        e["items"][0] = [e["items"][0][0], e["items"][0][1] + 7]
    else:
        e["kind"] = "stop"
    return t


def histories(c, fmts, keep, what, num, modes=ANY):
    n_all = [2, 1, 3, 1]
    raw = generate(c, 3, 5, num, "FALSE", "<<2,1,3>>", modes)
    raw += generate(c, 4, 7, num // 2, "TRUE", "<<2,1,3,1>>", modes)
    for s in raw:
        s["ok"] = list(s["ok"]) + [True] * (4 - len(s["ok"]))
    scs = prepare(c, raw, fmts, keep, n_all, what)
    if len(scs) < 40:
        raise core.MachineryError(f"only {len(scs)} scenarios for {what}")
    # longer lists, files and batches than the model enumerates
    for k in range(12 if core.THOROUGH else 5):
        fmt = fmts[k % len(fmts)]
        m = c.rng.choice([11, 17, 33]) if fmt == "h5" else 9  # images of more files would not differ enough
        n = [c.rng.choice([1, 2, 5, 9, 20]) if fmt == "h5" else 1 for _ in range(m)]
        lst = list(range(1, m + 1)) if c.rng.random() < 0.5 else [c.rng.randint(1, m) for _ in range(c.rng.choice([m, 31]))]
        loop, rand = (False, False) if what == "pass" else (c.rng.random() < 0.6, c.rng.random() < 0.5)
        ops = [["get", c.rng.choice([1, 4, 7, 16, 40])] for _ in range(c.rng.randint(3, 9))]
        ops += [["reset", 0]] * (k % 2) + [["get", g] for g in [c.rng.choice([3, 8, 13])] * (sum(n[f - 1] for f in lst) // 8 + 3)]
        scs.append(dict(id=f"{what}-long{k}:{fmt}:list={lst}:loop={int(loop)}:rand={int(rand)}", fmt=fmt, list=lst, loop=loop,
                        rand=rand, ok0=[c.rng.random() > 0.1 or j == 0 for j in range(m)], ops=ops, n=n, mode=c.rng.randrange(12),
                        zero=False, key=c.rng.randrange(1 << 20)))
    traces = replay(c, scs)
    c.validate("SchedulerTrace", traces, canary, label=what)


ALL = ["h5", "npy", "mat", "npyimg", "matimg", "mat73"]


def p01(c):
    models(c)
    c.refute(
        "Scheduler",
        MODEL % dict(L=2, faults="FALSE", dup="FALSE", loop="TRUE"),
        defs={"Slices": "<<2,1>>", "Modes": ANY},
    )
    histories(
        c, ["h5", "h5", "npy", "mat", "mat73", "npyimg"],
        lambda s: True, "pass", 3000 if core.THOROUGH else 450, "{<<FALSE, FALSE>>}",
    )


def p02(c):
    models(c)
    histories(c, ALL, lambda s: True, "layout", 2500 if core.THOROUGH else 500)


def p03(c):
    models(c)
    c.refute(
        "Scheduler",
        MODEL % dict(L=2, faults="FALSE", dup="TRUE", loop="FALSE"),
        defs={"Slices": "<<2,1>>", "Modes": ANY},
    )
    histories(
        c, ["h5", "npy", "h5", "matimg"],
        lambda s: s["loop"] or any(o[0] == "reset" for o in s["ops"]),
        "loop", 2500 if core.THOROUGH else 600,
    )


SHUF = """SPECIFICATION Spec
CONSTANTS
 N = %d
 MaxPass = %d
 Keys = {0, 1, 2}
 LazyReset = %s
 MaxOps = %d
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""


def shuffle_canary(t, rng):
    full = [e for e in t["ev"] if e["op"] == "pass" and e["whole"] and len(e["order"]) > 2]
    if not full:
        return None
    how = rng.randrange(3)
    e = rng.choice(full)
    if how == 0:
        e["order"][0] = e["order"][1]
    elif how == 1:
        e["order"].pop()
    else:
        twins = [x for x in full if sum(
            1 for y in t["ev"] if (y["group"], y["pass"]) == (x["group"], x["pass"])
            and len(y["order"]) > 1) > 1]
        if not twins:
            return None
        o = rng.choice(twins)["order"]
        o[0], o[1] = o[1], o[0]
    return t


def p04(c):
    c.model("Shuffle", SHUF % (4, 5, "FALSE", 0, "FunctionOfPass IsPermutation"),
            must_take=["Next1", "Reset", "Wrap"])
    c.refute("Shuffle", SHUF % (4, 4, "TRUE", 0, "FunctionOfPass"))
    # file-level behaviour of the cursor under shuffling
    c.model("Scheduler", MODEL % dict(L=3, faults="FALSE", dup="TRUE", loop="TRUE"),
            defs={"Slices": "<<2,1>>", "Modes": "{<<TRUE,TRUE>>,<<FALSE,TRUE>>}"},
            must_take=ACTS + ["Wrap"])
    r = c.tlc("Shuffle", SHUF % (6, 12, "FALSE", 26, "Emit"), workers=1,
              args=("-simulate", f"num={200 if core.THOROUGH else 60}", "-depth", "30",
                    "-seed", str(c.rng.randrange(1 << 30))))
    hist = [s["ops"] for s in c.scenarios(r)]
    if len(hist) < 20:
        raise core.MachineryError("too few shuffle histories")
    traces = []
    for k, fmt in enumerate(["h5", "npy", "mat", "npyimg", "matimg", "h5"]):
        n = [2, 1, 3, 1, 2, 1] if fmt == "h5" else [1] * 6
        total = sum(n)
        lanes = []
        for g in range(4):
            key = c.rng.randrange(1 << 24)
            base = [["get", 2]] * (total // 2 + 1) + [["reset", 0]]
            lanes.append(dict(group=f"k{g}", key=key, loop=False, ops=base * 4))
            lanes.append(dict(group=f"k{g}", key=key, loop=True, ops=[["get", 3]] * (total * 4 // 3)))
            for h in hist[(k * 4 + g) % 20 :: 20]:
                # a model step delivers one file; here a request takes 1-2 slices
                ops = [["reset", 0] if o == "reset" else ["get", c.rng.choice([1, 2, 2])] for o in h]
                lanes.append(dict(group=f"k{g}", key=key, loop=c.rng.random() < 0.5, ops=ops))
        traces.append(dict(id=f"shuffle:{fmt}:{k}", fmt=fmt, n=n, lanes=lanes))
    jobs = [dict(traces=[t]) for t in traces]
    # the configured seed, through the factory
    for fmt, nm in (("matimg", 6), ("npy", 5)):
        lanes = []
        seeds = [c.rng.randrange(1 << 20) for _ in range(3)]
        for g, s in enumerate(seeds):
            lanes.append(dict(group=f"s{g}", seed=s, loop=False, passes=3))
            if g == 0 or fmt == "matimg":
                lanes.append(dict(group=f"s{g}", seed=s, loop=True, passes=3,
                                  buffer=2 if fmt == "matimg" else 0))
        jobs.append(dict(traces=[dict(id=f"make:{fmt}", fmt=fmt, n=[1] * nm, lanes=lanes)]))
    rs = c.run_workers("w_shuffle.py", jobs)
    c.validate("ShuffleTrace", [t for r in rs for t in r], shuffle_canary, label="shuffle lanes")
    histories(c, ["h5", "npy", "mat", "matimg"], lambda s: True, "shuffled",
              1000 if core.THOROUGH else 250, "{<<TRUE,TRUE>>,<<FALSE,TRUE>>}")


def p05(c):
    models(c)
    tests = []

    def add(**kw):
        t = dict(
            fmt="mat", h=5, w=4, oh=None, ow=None, pat="code", nf=2, ns=1, key="u", dtype="float32",
            img=0, chw=0, enc="5", extra=0, batch=c.rng.choice([1, 2, 3]),
        )
        t.update(kw)
        t["oh"], t["ow"] = t["oh"] or t["h"], t["ow"] or t["w"]
        t["id"] = ":".join(f"{k}={v}" for k, v in t.items() if k not in ("batch",))
        tests.append(t)

    dims = [(3, 5), (5, 3), (4, 4), (2, 6), (6, 2)]
    for h, w in dims:
        for ns in (1, 3, 4):
            add(fmt="h5", h=h, w=w, ns=ns, key=c.rng.choice(["u", "velocity", "A"]),
                dtype=c.rng.choice(["float32", "float64"]))
        for img in (0, 1):
            add(fmt="npy", h=h, w=w, img=img, pat="const" if img else "code",
                dtype=c.rng.choice(["float32", "float64"]), nf=3)
    for h, w in [(3, 5), (5, 3), (4, 4), (5, 6)]:
        for img in (0, 1):
            for chw in (0, 1):
                for enc in ("5", "z", "h5"):
                    add(h=h, w=w, img=img, chw=chw, enc=enc, extra=c.rng.randrange(2),
                        dtype=c.rng.choice(["float32", "float64"]))
    sizes = [(8, 4), (4, 8), (8, 8), (4, 4), (16, 8), (6, 8)]
    for h, w in sizes:
        for oh, ow in sizes:
            if (h, w) == (oh, ow):
                continue
            for pat in ("const", "rows", "cols"):
                add(h=h, w=w, oh=oh, ow=ow, pat=pat, img=c.rng.randrange(2),
                    chw=c.rng.randrange(2), enc=c.rng.choice(["5", "h5"]),
                    dtype=c.rng.choice(["float32", "float64"]))
    rs = c.run_workers("w_format.py", [dict(tests=tests[i::6]) for i in range(6)])

    def canary(t, rng):
        ss = [e for e in t["ev"] if e["op"] == "slice"]
        e = rng.choice(ss)
        how = rng.randrange(3)
        if how == 0:
            e["flow"][rng.randrange(len(e["flow"]))] += 5000
        elif how == 1 and e["im1"] and t["cfg"]["pat"] in ("const", "code"):
            e["im1"], e["im2"] = e["im2"], e["im1"]
        elif how == 2:
            e["fshape"] = [e["fshape"][1] + 1, e["fshape"][0], 2]
        else:
            return None
        return t

    c.validate("FormatTrace", [t for r in rs for t in r], canary, label="formats")
