"""Check P35: whole pipelines."""

import core

MODEL = """SPECIFICATION Spec
CONSTANTS
 N = %d
 L = %d
 Cap = %d
 K = %d
 Mode = "%s"
 MaxOps = %d
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""
INV = "InOrder Share Complete Quiet"


def p35(c):
    r, big = c.rng, core.THOROUGH
    for L, cap, K in [(0, 0, 2), (0, 2, 2), (3, 2, 1), (2, 0, 1)] + ([(0, 3, 3), (3, 1, 1), (0, 1, 1), (4, 3, 1)] if big else []):
        take = ["Fetch", "End", "ResetAll", "ResetSelf", "Shutdown"] + ["Serve"] * (K > 1) + ["NextEpisode"] * (L > 0)
        c.model("Pipeline", MODEL % (3, L, cap, K, "right", 0, INV), must_take=take + ["Load", "Begin"] * (cap > 0))
    for mode, cap in (("stale", 2), ("cache", 0), ("stay", 1), ("again", 0)):
        c.refute("Pipeline", MODEL % (3, 0, cap, 2, mode, 0, INV))
    hist = {}
    for L in (0, 3):
        q = c.tlc("Pipeline", MODEL % (4, L, 2, 1 if L else 2, "right", 12, "Emit"), workers=1,
                  args=("-simulate", f"num={900 if big else 300}", "-depth", "40", "-seed", str(r.randrange(1 << 30))))
        hist[L > 0] = [s["ops"] for s in c.scenarios(q)]
        if len(hist[L > 0]) < 40:
            raise core.MachineryError("too few histories")
    tests = []

    def add(fmt, L=0, **kw):
        syn = int(fmt != "matimg")
        t = dict(fmt=fmt, L=L, syn=syn, res=r.choice([1, 2]), dt=r.choice([0.5, 1.0]), seed=r.randrange(1 << 20),
                 units=r.choice(["pixels", "measure units per second"]), src=r.choice(["dict", "yaml"]), rand=False, loop=False,
                 how="files", buf=r.choice([0, 1, 2, 4]))
        if L:
            t["dirs"] = [L + r.choice([0, 1, 2]) for _ in range(r.choice([1, 2, 3]))]
            m = sum(t["dirs"])
            t.update(n=[1] * m, ok=[True] * m, list=list(range(1, m + 1)))
        else:
            m = r.choice([2, 4, 5])
            t["dirs"] = [m]
            t["n"] = [r.choice([1, 2, 4]) if fmt == "h5" else 1 for _ in range(m)]
            t["ok"] = [k == 0 or r.random() > 0.2 for k in range(m)]
            t["list"] = list(range(1, m + 1))
        t.update(kw)
        if fmt == "h5" and not L and len(t["n"]) > 2 and not t["rand"] and r.random() < 0.3:
            t["n"][-1] = 0
        if t["rand"]:
            t["ok"] = [True] * len(t["ok"])
        elif not L and t["how"] == "files" and r.random() < 0.5:  # listed out of order, and twice
            t["list"] = [1] + [r.randrange(1, len(t["n"]) + 1) for _ in range(len(t["n"]))]
        t["lens"], t["pf"] = t["dirs"], int(t["buf"] > 0)
        t.setdefault("F", r.choice([1, 2, 3]) if syn else r.choice([1, 2, 3, 4]))
        t.setdefault("S", r.choice([x for x in (1, 2, 3, 4) if x >= t["F"]]) if syn else t["F"])
        if not syn:
            t["S"] = t["F"]
        t["B"] = t["F"]
        t["K"] = 1 if L or not syn else r.choice([1, 2, 3])
        h = list(r.choice(hist[L > 0]))
        once = -(-sum(t["n"][k - 1] for k in t["list"] if t["ok"][k - 1]) // t["F"]) * t["K"]
        h += ["reset"] + ["next"] * (L + 1 if L else min(once, 14) + 2) + ["next_episode"] * (L > 0 or not t["pf"])
        h += ["next"] * (L + 1) + ["shutdown", "next", "shutdown", "reset", "next", "next"] * (1 + (r.random() < 0.3)) + ["shutdown"]
        t["ops"] = h
        t["id"] = ":".join(f"{k}={t[k]}" for k in ("fmt", "L", "buf", "K", "F", "S", "loop", "rand", "list", "n", "ok", "src")) + f":{len(tests)}"
        tests.append(t)

    for _ in range(3 if big else 1):
        for fmt in ("h5", "npy", "mat"):
            for buf in (0, r.choice([1, 2]), 4):
                add(fmt, buf=buf)
            add(fmt, loop=True)
            add(fmt, rand=True, loop=r.random() < 0.5)
            add(fmt, how="dirs")
        for L in (1, 2, 3):
            add("mat", L=L, buf=0)
            add("mat", L=L, buf=r.choice([1, 2, 4]), how=r.choice(["files", "dirs"]))
            for buf in (0, r.choice([1, 4])):
                add("matimg", L=L, buf=buf, how=r.choice(["files", "dirs"]))
        for buf in (0, 1, 4):
            add("matimg", buf=buf)
            add("matimg", buf=buf, loop=True)
            add("matimg", buf=buf, rand=True)
    rs = c.run_workers("w_pipeline.py", [dict(tests=tests[i::8]) for i in range(8)])

    def canary(t, rng):
        g = [e for e in t["ev"] if e["op"] == "next" and e["kind"] == "ok"]
        how = rng.randrange(7)
        if how == 0 or not g:
            next(e for e in t["ev"] if e["op"] == "shutdown")["threads"] = 1
            return t
        # the first batch: those after a shutdown are unconstrained
        e = g[0]
        if how == 1:
            e["labels"][0] = [77, 0]
        elif how == 2:
            e["move"][-1] = [77, 0]
        elif how == 3:
            e["mask"][0] = 0
        elif how == 4:
            e["done"] = {"none": "true", "true": "false", "false": "true"}[e["done"]]
        elif how == 5:
            e["cells"].append(e["cells"][0])
        else:
            e["cells"] = [[77, 0] if x != [0, 0] else x for x in e["cells"]]
        return t

    c.validate("PipelineTrace", [t for x in rs for t in x], canary, label="pipelines")
