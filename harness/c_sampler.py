"""Checks P13-P17: the synthetic sampler as a state machine."""

import core

CFG = """SPECIFICATION Spec
CONSTANTS
 F = %(F)d
 B = %(B)d
 D = %(D)d
 K = %(K)d
 N = %(N)d
 V = %(V)d
 L = %(L)d
 MaxOps = %(ops)d
 Emitting = %(emit)s
 FixLate = %(late)s
 FixEpi = %(epi)s
 FixSplit = %(split)s
INVARIANTS %(inv)s
CHECK_DEADLOCK FALSE
"""
M = dict(F=2, B=3, D=1, K=2, N=3, V=1, L=0, ops=9, emit="FALSE", late="TRUE", epi="TRUE",
         split="TRUE", inv="Allowed")
X = 3 if core.THOROUGH else 1


def model(c, must, **kw):
    c.model("Sampler", CFG % dict(M, **kw), must_take=must, timeout=3000)


def refute(c, **kw):
    c.refute("Sampler", CFG % dict(M, **kw))


def histories(c, n, **kw):
    r = c.tlc("Sampler", CFG % dict(M, emit="TRUE", inv="Emit", **kw), workers=1,
              args=("-simulate", f"num={n}", "-depth", "60", "-seed", str(c.rng.randrange(1 << 30))))
    out = {str(s["ops"]): s["ops"] for s in c.scenarios(r)}
    if len(out) < min(n, 20) // 2:
        raise core.MachineryError(f"too few histories\n{r['out'][-1500:]}")
    return list(out.values())


def lane(c, **kw):
    r = c.rng
    d = dict(
        seed=r.randrange(1000), F=1, B=1, D=1, K=1, N=3, V=1, L=0, pf=0, dig=0, refused=0, free=0, lag=0, per=1,
        buf=r.choice([1, 2, 4]), steady=20.0, res=r.choice([1.0, 2.0, 0.5]), dt=r.choice([1.0, 0.5, 0.25]),
        grid=r.choice([1, 1, 0.5, 2]), vpp=r.choice([1, 1, 0.5]),
        units=r.choice(["pixels", "measure units per second"]), devices=None,
    )
    d.update(kw)
    return d


def describe(l):
    keys = ["F", "B", "D", "K", "N", "V", "L", "pf", "seed", "res", "dt", "grid", "units", "devices"]
    return ",".join(f"{k}={l[k]}" for k in keys)


def run(c, tests, label, canary, envs=None, workers=7):
    for t in tests:
        t["id"] += "".join(f"[{describe(l)}]" for l in t["lanes"]) + " ops=" + " ".join(
            o if len(t["lanes"]) == 1 else f"{i}:{o}" for i, o in t["ops"])[:400]
    n = min(workers, len(tests))
    jobs = [dict(tests=tests[i::n]) for i in range(n)]
    rs = c.run_workers("w_sampler.py", jobs, timeout=3000, envs=[envs] * n if envs else None)
    tr = [t for r in rs for t in r]
    for t in tr:
        intern(t)
    c.validate("SamplerTrace", tr, canary, label=label)


KEYS = ("seed", "F", "B", "D", "K", "N", "V", "L", "pf", "dig", "refused", "free", "lag", "per")


def intern(t):
    """Digests become small numbers; the configuration keeps what the monitor reads."""
    ids = {}
    t["cfg"]["lanes"] = [{k: l[k] for k in KEYS} for l in t["cfg"]["lanes"]]
    for e in t["ev"]:
        for k in ("d1", "d2"):
            e[k] = [ids.setdefault(x, len(ids)) for x in e[k]]


def nexts(t):
    return [e for e in t["ev"] if e["op"] == "next" and e["kind"] == "ok"]


def canary(t, rng):
    g = nexts(t)
    if not g:
        t["ev"][0]["kind"] = "ok" if t["ev"][0]["kind"] != "ok" else "error"
        return t
    e = rng.choice(g)
    c = t["cfg"]["lanes"][e["lane"] - 1]
    how = rng.randrange(6)
    if how == 0:
        i = rng.randrange(e["n"])
        e["move"][i] = e["move"][i] % 48 + 1
    elif how == 1:
        e["mask"][rng.randrange(c["F"])] ^= 1
    elif how == 2:
        e["files"][rng.randrange(c["F"])] += 1
        e["files"] = e["files"] if not c["free"] or c["F"] > 0 else None
        if c["free"]:
            e["flow"][0] = e["flow"][0] % 48 + 1
    elif how == 3:
        i = rng.randrange(e["n"])
        e["flow"][i] = e["move"][i] = (e["flow"][i] + 11) % 49
        if all(x in range(1, 49) for x in e["flow"]) and c["D"] > 1:
            e["flow"][i] = e["move"][i] = -1
    elif how == 4:
        e["done"] = {"none": "true", "false": "true", "true": "false"}[e["done"]]
    elif c["lag"]:
        return None
    else:
        e["kind"] = "stop"
    return t


def ops1(h, lane=1):
    return [[lane, o] for o in h]


def p13(c):
    model(c, ["Cached", "Fetch", "Exhausted", "Reset", "ResetSelf"])
    model(c, ["Cached", "Fetch"], F=3, B=5, K=3, N=2, V=3)
    refute(c, late="FALSE")
    tests = []
    for k in range(14 * X):
        F = c.rng.choice([1, 1, 2, 3, 4])
        B = F + c.rng.choice([0, 0, 1, 2, 5])
        K, N = c.rng.choice([1, 2, 3]), c.rng.choice([2, 3, 5])
        if k % 7 == 0:
            F, B, K = 3, 7, 2
        V = c.rng.randint(1, F)
        pf = int(c.rng.random() < 0.3)
        ops = []
        for h in histories(c, 4, K=K, N=N, ops=14):
            ops += ops1(h) + [[1, "reset"]]
            if pf:
                ops = [o for o in ops]
        # one full pass
        ops += [[1, "next"]] * (N * K)
        if pf:  # avoid waiting at the end of the data again and again
            ops = trim(ops, N * K)
        tests.append(dict(id=f"pair{k}", ops=ops,
                          lanes=[lane(c, F=F, B=B, K=K, N=N, V=V, pf=pf, steady=20.0, per=c.rng.choice([1, 1, 2, 5]))]))
    run(c, tests, "pairing", canary)


def trim(ops, cap):
    """Drop requests beyond the end of a pass of `cap` batches (single lane)."""
    out, n = [], 0
    for l, o in ops:
        if o == "reset":
            n = 0
        if o == "reset_self":
            n = cap  # the scheduler goes on: count conservatively
        if o == "next":
            if n >= cap:
                continue
            n += 1
        out.append([l, o])
    return out


def p14(c):
    E = dict(L=2, N=0, ops=8)
    model(c, ["EpisodeOver", "Fetch", "NextEpisode", "Reset"], **E)
    model(c, ["EpisodeOver"], L=3, K=3, N=0, ops=8, F=1, B=1)
    refute(c, epi="FALSE", **E)
    tests = []
    for k in range(20 * X):
        F = c.rng.choice([1, 2, 3])
        L = c.rng.choice([1, 2, 3, 4])
        pf, free = k % 2, int(k % 4 >= 2)
        ops = []
        for h in histories(c, 3, L=L, N=0, ops=16):
            ops += ops1(h) + ops1(["reset"]) + ops1(["next"] * (L + 2) + ["next_episode"] + ["next"] * L)
        if k % 10 == 9:
            # not episodic: no done flags, next episode refused (or ignored when prefetched)
            N = 6
            ops = ops1(["next", "next_episode", "next", "next", "reset", "next_episode", "next"])
            tests.append(dict(id=f"flat{k}", ops=ops, lanes=[
                lane(c, F=F, B=F + 1, K=1, N=N, V=F, pf=pf)]))
            continue
        tests.append(dict(id=f"{'files' if free else 'epi'}{k}", ops=ops, lanes=[
            lane(c, F=F, B=F + c.rng.choice([0, 1, 2]), K=c.rng.choice([1, 2, 3]), N=0, V=F, L=L,
                 pf=pf, free=free, seqs=2, frames=L + c.rng.choice([0, 1, 3]))]))
    for k in range(3 * X):
        # batches that arrive later than the timeout and are asked for again
        F, L = c.rng.choice([1, 2]), c.rng.choice([2, 3, 4])
        ops = ops1((["next"] * (L + 1) + ["next_episode"]) * 2 + ["next", "next_episode"] + ["next"] * (L + 1))
        tests.append(dict(id=f"late{k}", ops=ops, lanes=[
            lane(c, F=F, B=F, K=1, N=0, V=F, L=L, pf=1, lag=1, steady=0.3, buf=c.rng.choice([1, 2]),
                 slow=[c.rng.randint(2, L), L + 1 + c.rng.randint(1, L)])]))
    run(c, tests, "episodes", canary)


def p15(c):
    model(c, ["ResetSelf", "Fetch", "Cached"], K=3, N=2)
    refute(c, D=2, split="FALSE")
    tests = []
    for k in range(7 * X):
        F = c.rng.choice([1, 2, 3])
        B = F + c.rng.choice([1, 2, 3])
        K, N = c.rng.choice([1, 2, 3]), c.rng.choice([2, 3, 4])
        L = 0 if k % 3 else c.rng.choice([2, 3])
        D = 2 if k % 3 == 2 else 1
        base = lane(c, F=F, B=B, K=K, N=0 if L else N, V=F, L=L, dig=1, noisy=k % 2, D=D,
                    devices=list(range(D)), vpp=1)
        other = base["seed"] + c.rng.choice([1, 17, 1000])
        lanes = [base, dict(base), dict(base, seed=other), dict(base, pf=1)]
        per = [[] for _ in lanes]
        for i in range(len(lanes)):
            for h in histories(c, 2, K=K, N=N, L=L, ops=10):
                per[i] += [o for o in h] + ["reset"]
            per[i] += ["next"] * (L or N * K) + (["next_episode"] + ["next"] * L if L else [])
        per[3] = [o for _, o in trim(ops1(per[3]), N * K)] if not L else per[3]
        ops = []
        while any(per):
            i = c.rng.choice([j for j in range(len(lanes)) if per[j]])
            ops.append([i + 1, per[i].pop(0)])
        tests.append(dict(id=f"det{k}", ops=ops, lanes=lanes))
    # the same sampler in two processes with different hash seeds
    n = len(tests)
    rs = c.run_workers(
        "w_sampler.py", [dict(tests=[t]) for t in tests] + [
            dict(tests=[dict(t, lanes=t["lanes"][:1], ops=ops1(["next"] * 3 + ["reset_self"] + ["next"]))])
            for t in tests[:2]],
        timeout=3000, envs=[{"PYTHONHASHSEED": str(7 + j),
                              "XLA_FLAGS": "--xla_force_host_platform_device_count=2"} for j in range(n + 2)])
    tr = [r[0] for r in rs[:n]]
    for j, r in enumerate(rs[n:]):
        t = tr[j]
        m = len(t["cfg"]["lanes"]) + 1
        t["cfg"]["lanes"] = t["cfg"]["lanes"] + r[0]["cfg"]["lanes"]
        t["ev"] += [dict(e, lane=m) for e in r[0]["ev"]]
    for t in tr:
        t["id"] += "".join(f"[{describe(l)}]" for l in t["cfg"]["lanes"][:4])
        intern(t)

    def digest_canary(t, rng):
        g = nexts(t)
        if len(g) < 4:
            return None
        e = rng.choice(g[1:])
        i = rng.randrange(e["n"])
        if rng.random() < 0.5:
            e["d1"][i] = g[0]["d1"][0] if e is not g[0] and e["d1"][i] != g[0]["d1"][0] else 10**6
        else:
            e["d1"] = [10**6 + i for i in range(e["n"])]
            later = [x for x in g if x is not e and x["d1"] == t and x["lane"] == e["lane"]]
            e["d1"][0] = e["d1"][-1] if e["n"] > 1 else g[0]["d1"][0]
        return t
    c.validate("SamplerTrace", tr, digest_canary, label="determinism")


def p16(c):
    model(c, ["Exhausted", "Reset", "ResetSelf"], N=2, V=1)
    model(c, ["Exhausted"], N=1, V=2, K=3)
    refute(c, late="FALSE")
    tests = []
    for k in range(16 * X):
        F = c.rng.choice([1, 2, 3])
        K, N = c.rng.choice([1, 2, 3]), c.rng.choice([1, 2, 3])
        V = c.rng.randint(1, F)
        pf = int(k % 4 == 3)
        ops = []
        end = ["next"] * (N * K) + ["next"] * c.rng.choice([1, 2, 3])
        if pf:
            ops = ops1(["next"] * (N * K + 2) + ["reset"] + ["next"] * (N * K + 1) + ["shutdown"])
        else:
            for h in histories(c, 3, K=K, N=N, ops=16):
                ops += ops1(h) + ops1(["reset"])
            ops += ops1(end + ["reset_self", "next", "next", "reset"] + end
                        + ["reset_self", "next", "reset", "next", "shutdown"])
        tests.append(dict(id=f"end{k}", ops=ops, lanes=[
            lane(c, F=F, B=F + c.rng.choice([0, 1]), K=K, N=N, V=V, pf=pf, steady=3.0)]))
    run(c, tests, "ends", canary)


def p17(c):
    model(c, ["Cached", "Fetch"], D=2, F=3, B=4)
    model(c, ["Cached", "Fetch"], D=4, F=2, B=2)
    model(c, ["Fetch"], D=3, F=4, B=5, L=2, N=0)
    refute(c, D=2, split="FALSE")
    tests = []
    sets = [[0, 1], [0, 1, 2], [0, 1, 2, 3], None, [1, 3], [2], [0, 9, 1], [3, 2, 1, 0]]
    for k in range(24 * X):
        if k % 12 == 11:
            tests.append(dict(id=f"refuse{k}", ops=[[1, "next"]], lanes=[
                lane(c, F=1, B=2, N=2, devices=c.rng.choice([[], [4], [9, 7]]), refused=1)]))
            continue
        dev = sets[k % len(sets)]
        use = list(range(4)) if dev is None else [d for d in dev if d < 4]
        D = len(use)
        F = c.rng.choice([1, 2, 3, 4, 5, D, 2 * D])
        B = F + c.rng.choice([0, 0, 1, 2, 3])
        K, N = c.rng.choice([1, 2]), c.rng.choice([2, 3])
        L = c.rng.choice([0, 0, 0, 2])
        V = c.rng.randint(1, F)
        ops = []
        for h in histories(c, 2, K=K, N=N, L=L, ops=8):
            ops += ops1(h) + ops1(["reset"])
        ops += ops1(["next"] * (L or N * K))
        tests.append(dict(id=f"dev{k}", ops=ops, lanes=[
            lane(c, F=F, B=B, K=K, N=0 if L else N, V=V, L=L, D=D, devices=dev, dig=1,
                 expect_devices=use, vpp=1)]))
    run(c, tests, "devices", canary,
        envs={"XLA_FLAGS": "--xla_force_host_platform_device_count=4"})
