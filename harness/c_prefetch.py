"""Checks P08-P12: the prefetching scheduler under controlled interleavings."""

import core

CFG = """SPECIFICATION Spec
CONSTANTS
 L = %(L)d
 N = %(N)d
 Buf = %(buf)d
 Clients = %(cl)d
 MaxOps = %(ops)d
 Emitting = %(emit)s
 FixEos = %(eos)s
 FixStop = %(stop)s
 FixStale = %(stale)s
 FixStart = %(start)s
INVARIANTS %(inv)s
%(prop)s
CHECK_DEADLOCK FALSE
"""
D = dict(L=0, N=3, buf=1, cl=1, ops=5, emit="FALSE", eos="TRUE", stop="TRUE", stale="TRUE",
         start="TRUE", inv="Allowed Bounded Counter", prop="PROPERTIES EveryCallReturns LoaderEnds")
BIG = 100 if core.THOROUGH else 1


def ops(*names):
    return "{" + ",".join(f'"{n}"' for n in names) + "}"


def model(c, which, fails="{}", must=("WPut", "GetItem"), **kw):
    c.model("Prefetch", CFG % dict(D, **kw), defs={"Fails": fails, "Ops": ops(*which)},
            must_take=must, timeout=3000)


def refute(c, which, fails="{}", **kw):
    c.refute("Prefetch", CFG % dict(D, **kw), defs={"Fails": fails, "Ops": ops(*which)})


def histories(c, which, n, **kw):
    """Operation sequences of the model, as per-client lists."""
    d = dict(D, emit="TRUE", inv="Emit", prop="", **kw)
    r = c.tlc("Prefetch", CFG % d, defs={"Fails": "{}", "Ops": ops(*which)}, workers=1,
              args=("-simulate", f"num={n}", "-depth", "300",
                    "-seed", str(c.rng.randrange(1 << 30))))
    out = {}
    for s in c.scenarios(r):
        out[str(s["ops"])] = s["ops"]
    if len(out) < 15:
        raise core.MachineryError(f"too few histories: {len(out)}\n{r['out'][-1500:]}")
    return list(out.values())


def clients(h, k, rng, sleeps=0.15, query=0.2):
    cl = [[] for _ in range(k)]
    for who, op in h:
        if rng.random() < sleeps:
            cl[who - 1].append(["sleep", rng.choice([0.01, 0.15, 1.0, 2.05, 4.0])])
        cl[who - 1].append([op, 0])
        if k == 1 and rng.random() < query:
            cl[who - 1].append([rng.choice(["rem", "running"]), 0])
    return cl


DELAYS = {
    "none": lambda r: [],
    "some": lambda r: [r.choice([0, 0, 0, 0.01, 0.15, 0.5, 1.0]) for _ in range(20)],
    "slow": lambda r: [r.choice([0, 0.5, 1.9, 2.1, 3.0, 4.5]) for _ in range(16)],
    "stuck": lambda r: [0] * r.randrange(5) + [r.choice([7.0, 33.0, 65.0])],
}


def jitter(r, ds):
    """No delay may coincide with a timeout."""
    return [round(d + r.uniform(0.0011, 0.0399), 5) if d else 0 for d in ds]


def scenario(c, ident, cl, profile, **kw):
    r = c.rng
    buf = kw.pop("buf", None) or r.choice([1, 1, 1, 2, 2, 3, 3, 6])
    s = dict(
        id=ident, seed=r.randrange(1 << 30), switch=r.choice([0.05, 0.2, 0.5, 1.0]),
        early=r.choice([0.02, 0.1]), strict=r.random() < 0.7, lines=r.random() < 0.4,
        N=r.choice([0, 1, 2, 3, 5]), L=0, buf=buf, fail=[], delays=jitter(r, DELAYS[profile](r)),
        startup=30.0, steady=2.0, clients=cl, ignore=[],
    )
    s.update(kw)
    s["id"] += (f":L={s['L']}:N={s['N']}:buf={s['buf']}:{profile}:fail={s['fail']}:seed={s['seed']}"
                f":{'strict' if s['strict'] else 'early'}:ops="
                + "|".join(" ".join(o if o != "sleep" else f"sleep{a}" for o, a in l) for l in cl))
    return s


def judge(c, scs, label, canary):
    n = 7
    rs = c.run_workers("w_prefetch.py", [dict(scenarios=scs[i::n]) for i in range(n)], timeout=3000)
    tr = [t for r in rs for t in r["traces"]]
    c.notes.append(f"{label}: {len(tr)} executions, {sum(r['choices'] for r in rs)} interleaving choices")
    c.validate("PrefetchTrace", tr, canary, label=label)
    return tr


def oks(t):
    return [e for e in t["ev"] if e["op"] == "get" and e["ph"] == "ret" and e["kind"] == "ok"]


def canary_stream(t, rng):
    g = oks(t)
    if len(g) < 2:
        return None
    j = rng.randrange(len(g) - 1)
    how = rng.randrange(3)
    if how == 0:
        g[j]["id"], g[j + 1]["id"] = g[j + 1]["id"], g[j]["id"]
        if t["cfg"]["clients"] > 1:
            g[j]["id"] = g[j + 1]["id"]
    elif how == 1:
        g[j + 1]["id"] = g[j]["id"]
    else:
        g[j].update(kind="stop", id=[0, 0, 0], el=0)
    return t


CONC = ["read-ahead-unbounded", "two-loaders", "wrapped-scheduler-called-concurrently"]


def p08(c):
    model(c, ["get"], ops=7, N=4, buf=1, must=("WPut", "WEos", "GetItem", "GetTimeout"))
    model(c, ["get"], ops=6, N=3, buf=2)
    model(c, ["get"], cl=2, ops=5 if BIG == 1 else 6, must=("GetItem",))
    model(c, ["get"], cl=3, ops=5, N=2, must=("GetItem",))
    refute(c, ["get"], ops=6, eos="FALSE")
    refute(c, ["get"], cl=2, start="FALSE")
    scs = []
    for k in range(500 * BIG):
        n = c.rng.randrange(1, 9)
        cl = clients([[1, "get"]] * n, 1, c.rng)
        scs.append(scenario(c, f"one{k}", cl, c.rng.choice(["none", "some", "slow"]), ignore=CONC))
    for k in range(700 * BIG):
        m = c.rng.choice([2, 2, 3])
        h = [[c.rng.randrange(m) + 1, "get"] for _ in range(c.rng.randrange(3, 10))]
        scs.append(scenario(c, f"many{k}", clients(h, m, c.rng), c.rng.choice(["none", "none", "some", "slow"]),
                            ignore=CONC))
    for k in range(60 * BIG):
        m = c.rng.choice([1, 1, 2])
        h = [[c.rng.randrange(m) + 1, "get"] for _ in range(c.rng.randrange(10, 22))]
        scs.append(scenario(c, f"long{k}", clients(h, m, c.rng, sleeps=0.05),
                            c.rng.choice(["none", "none", "some"]), buf=c.rng.choice([1, 4, 5, 7, 9]),
                            N=c.rng.choice([7, 9, 12, 15, 20]), ignore=CONC))
    judge(c, scs, "streams", canary_stream)


def p09(c):
    A = ["get", "next"]
    model(c, A, L=2, ops=6, must=("NextEp", "Flush", "FlushTimeout", "GetItem"))
    model(c, A, L=2, ops=6, buf=2)
    model(c, A, L=1, ops=6, buf=1)
    if core.THOROUGH:
        model(c, A, L=3, ops=7, buf=2)
        model(c, A + ["reset"], L=2, ops=6, buf=3)
    refute(c, A, L=2, ops=6, stale="FALSE")
    scs = []
    hs = [h for L in (1, 2, 3) for h in histories(c, A, 120, L=L, ops=12)]
    for k, h in enumerate(hs * (4 * BIG)):
        L = c.rng.choice([1, 2, 2, 3, 4, 6])
        h = list(h) + [[1, "get"]] * c.rng.choice([0, L + 1])
        scs.append(scenario(c, f"epi{k}", clients(h, 1, c.rng, query=0.35),
                            c.rng.choice(["none", "some", "slow", "slow", "stuck"]), L=L, ignore=CONC))
    for k in range(40 * BIG):
        L = c.rng.choice([5, 7, 9, 12])
        h = []
        while len(h) < 30:
            h += [[1, "get"]] * c.rng.randrange(0, L + 2) + [[1, "next"]]
        scs.append(scenario(c, f"longepi{k}", clients(h[:34], 1, c.rng, sleeps=0.05, query=0.3),
                            c.rng.choice(["none", "none", "some"]), L=L,
                            buf=c.rng.choice([1, 4, 5, 8, 13]), ignore=CONC))
    def canary(t, rng):
        if rng.random() < 0.3:
            r = [e for e in t["ev"] if e["op"] == "rem" and e["ph"] == "ret"]
            if not r:
                return None
            rng.choice(r)["v"] += rng.choice([1, -1])
            return t
        return canary_stream(t, rng)
    judge(c, scs, "episodes", canary)


def p10(c):
    A = ["get", "next", "reset", "shutdown"]
    model(c, A, ops=6, must=("Reset1", "Reset2", "Reset3", "Shut1"))
    model(c, A, ops=5, buf=2)
    model(c, A, ops=5, L=2, must=("Reset3", "NextEp"))
    refute(c, A, ops=6, stop="FALSE")
    scs = []
    hs = [(0, h) for h in histories(c, ["get", "reset", "shutdown"], 300, ops=9)]
    hs += [(0, h) for h in histories(c, ["get", "reset"], 150, ops=12)]
    hs += [(2, h) for h in histories(c, A, 300, ops=10, L=2)]
    hs = [x for x in hs if any(o == "reset" for _, o in x[1])]
    for k, (L, h) in enumerate(hs * (2 * BIG)):
        h = list(h)
        if c.rng.random() < 0.4:
            h += [[1, "reset"]] + [[1, "get"]] * 3
        L = L and c.rng.choice([1, 2, 3])
        scs.append(scenario(c, f"reset{k}", clients(h, 1, c.rng, sleeps=0.25),
                            c.rng.choice(["none", "some", "slow", "stuck"]), L=L,
                            fail=c.rng.choice([[], [], [1], [3]]) if not L else [],
                            ignore=["read-ahead-unbounded"]))
    def canary(t, rng):
        how = rng.randrange(4)
        rs = [e for e in t["ev"] if e["op"] == "reset" and e["ph"] == "ret"]
        if how == 0:
            g = [e for e in oks(t) if e["id"][0] > 0]
            if not g:
                return None
            e = rng.choice(g)
            e["id"] = [e["id"][0] - 1] + e["id"][1:]
        elif how == 1:
            rng.choice(rs)["kind"] = "hang"
        elif how == 2:
            rng.choice(t["ev"])["alive"] = 2
        else:
            t["ev"] = [e for e in t["ev"] if e["op"] != "u_reset"]
        return t
    judge(c, scs, "resets", canary)


def p11(c):
    A = ["get", "next", "reset", "shutdown"]
    model(c, ["get", "shutdown"], ops=6, must=("Shut1", "Shut2", "Shut3", "Shut4"))
    model(c, A, ops=5, buf=2)
    model(c, A, ops=5, L=2, must=("Shut4",))
    model(c, ["get", "shutdown"], ops=4, cl=2, must=("Shut4",))
    refute(c, A, ops=6, stop="FALSE")
    scs = []
    hs = [(0, h) for h in histories(c, ["get", "shutdown"], 300, ops=7)]
    hs += [(0, h) for h in histories(c, A, 200, ops=9)]
    hs += [(2, h) for h in histories(c, A, 200, ops=9, L=2)]
    for k, (L, h) in enumerate(hs * (2 * BIG)):
        h = list(h)
        if c.rng.random() < 0.5:
            h += [[1, "shutdown"]] * c.rng.choice([1, 2])
        L = L and c.rng.choice([1, 2, 3])
        scs.append(scenario(c, f"shut{k}", clients(h, 1, c.rng, sleeps=0.3),
                            c.rng.choice(["none", "some", "slow", "stuck"]), L=L))
    # a consumer blocked on an empty buffer while another thread shuts down
    for k in range(200 * BIG):
        a = [["sleep", c.rng.choice([0.01, 1.0, 3.0, 10.0])], ["shutdown", 0]]
        b = [["get", 0]] * c.rng.randrange(1, 5)
        scs.append(scenario(c, f"blocked{k}", [a, b], c.rng.choice(["slow", "stuck", "stuck", "none"]),
                            steady=c.rng.choice([2.0, 15.0])))
    # deep read-ahead: a loader left alone with a large source
    for k in range(60 * BIG):
        h = [[1, "get"]] * c.rng.randrange(1, 6)
        scs.append(scenario(c, f"ahead{k}", clients(h, 1, c.rng, sleeps=0.8), "none", N=40,
                            L=c.rng.choice([0, 0, 3]), buf=c.rng.choice([1, 2, 4, 8])))
    def canary(t, rng):
        how = rng.randrange(4)
        sd = [e for e in t["ev"] if e["op"] == "shutdown" and e["ph"] == "ret"]
        if how == 0 and sd:
            t["cfg"]["strict"] = 1
            rng.choice(sd)["el"] = 5000
        elif how == 1 and sd and t["ev"][-1]["op"] == "end" and not any(
            e["op"] == "reset" for e in t["ev"]
        ):
            t["ev"][-1]["alive"] = 1
        elif how == 2 and sd:
            rng.choice(sd)["kind"] = "error"
        elif how == 3:
            u = [k for k, e in enumerate(t["ev"]) if e["op"] == "u_get" and e["ph"] == "ret" and e["kind"] == "ok"]
            if not u or t["cfg"]["L"]:
                return None
            k = u[0]
            extra = []
            for j in range(t["cfg"]["buf"] + 6):
                call = dict(t["ev"][k], ph="call", id=[0, 0, 0])
                extra += [call, dict(t["ev"][k], id=[0, 0, 90 + j])]
            t["ev"][k + 1:k + 1] = extra
        else:
            return None
        return t
    judge(c, scs, "shutdowns", canary)


def p12(c):
    model(c, ["get", "reset"], ops=5, fails="{2}", must=("GetTimeout", "Reset3"))
    model(c, ["get", "reset"], ops=5, fails="{1, 4}", buf=2, must=("GetTimeout",))
    model(c, ["get", "next"], L=2, ops=5, fails="{3}", must=("GetTimeout",))
    model(c, ["get"], ops=6, N=4, buf=2, must=("GetTimeout",))
    refute(c, ["get", "next"], L=2, ops=6, stale="FALSE")
    scs = []
    hs = [(0, h) for h in histories(c, ["get", "reset"], 250, ops=10)]
    hs += [(2, h) for h in histories(c, ["get", "next", "reset"], 200, ops=10, L=2)]
    for k, (L, h) in enumerate(hs * (2 * BIG)):
        f = c.rng.choice([[], [], [1], [2], [3], [4], [1, 3], [2, 5]])
        L = L and c.rng.choice([1, 2, 3])
        scs.append(scenario(
            c, f"slow{k}", clients(h, 1, c.rng), c.rng.choice(["slow", "slow", "stuck", "some", "none"]),
            L=L, fail=f, strict=c.rng.random() < 0.9, startup=c.rng.choice([30.0, 30.0, 5.0, 0.75]),
            steady=c.rng.choice([2.0, 2.0, 0.5, 9.0]), N=c.rng.choice([1, 3, 6]), ignore=CONC))
    for k in range(250 * BIG):
        n = c.rng.randrange(2, 9)
        scs.append(scenario(
            c, f"wait{k}", clients([[1, "get"]] * n, 1, c.rng), c.rng.choice(["slow", "stuck"]),
            strict=True, startup=c.rng.choice([30.0, 5.0, 0.75]), steady=c.rng.choice([2.0, 0.5, 9.0]),
            N=6, ignore=CONC))
    def canary(t, rng):
        g = oks(t)
        if rng.random() < 0.4 or len(g) < 2:
            e = [e for e in t["ev"] if e["op"] == "get" and e["ph"] == "ret" and e["kind"] == "stop"
                 and e["el"] >= t["cfg"]["steady"]]
            if not g:
                return None
            e = rng.choice(g)
            e.update(kind="hang", id=[0, 0, 0])
            return t
        return canary_stream(t, rng)
    judge(c, scs, "slow and failing loaders", canary)
