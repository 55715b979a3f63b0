"""Check P21: real-image samplers."""

import core

MODEL = """SPECIFICATION Spec
CONSTANTS
 N = %d
 L = %d
 Cap = %d
 AskInner = %s
 MaxOps = %d
INVARIANTS %s
CHECK_DEADLOCK FALSE
"""
INV = "PassThrough DoneRight EndRight"


def p21(c):
    big = core.THOROUGH
    for L in (0, 1, 3, 5) if big else (0, 1, 3):
        for cap in (0, 1, 2, 4) if big else (0, 1, 2):
            take = ["Next1", "ResetAll", "ResetSelf"] + ["NextEpisode"] * (L > 0) + ["Load"] * (cap > 0)
            c.model("RealSampler", MODEL % (4, L, cap, "FALSE", 0, INV), must_take=take)
    c.refute("RealSampler", MODEL % (4, 3, 2, "TRUE", 0, INV))
    hist = {}
    for L in (0, 3):
        r = c.tlc("RealSampler", MODEL % (4, L, 2, "FALSE", 12, "Emit"), workers=1,
                  args=("-simulate", f"num={900 if big else 300}", "-depth", "40",
                        "-seed", str(c.rng.randrange(1 << 30))))
        hist[L > 0] = [s["ops"] for s in c.scenarios(r)]
        if len(hist[L > 0]) < 60:
            raise core.MachineryError("too few histories")
    tests = []

    def add(**kw):
        t = dict(img=1, loop=False, L=0, pf=0, buf=c.rng.choice([1, 2, 4]), dtype="u8",
                 shape=c.rng.choice([[3, 5], [5, 3], [4, 4]]), route=c.rng.choice(["direct", "config"]),
                 key=c.rng.randrange(1 << 20))
        t.update(kw)
        t["id"] = ":".join(f"{k}={t[k]}" for k in ("fmt", "dtype", "img", "L", "pf", "loop", "B", "lens", "buf")) + f":{len(tests)}"
        tests.append(t)

    def trim(ops, total, B):
        """Drop repeated requests after the end: each waits for a whole timeout."""
        out, pos, over = [], 0, 0
        for o in ops:
            if o == "reset":
                pos = 0
            if o == "next":
                pos += B
                if pos - B >= total:
                    over += 1
                    if pos - B >= total + B and over > 2:
                        continue
            out.append(o)
        return out

    n = 0
    for fmt in ("matimg", "mat73", "npyimg"):
        for L in (0, 1, 2, 3):
            if L and fmt == "npyimg":
                continue  # the episodic layer is limited to .mat files
            for pf in (0, 1):
                for rep in range(9 if big else 3):
                    n += 1
                    lens = [L + c.rng.choice([0, 1, 3]) for _ in range(c.rng.choice([1, 2, 3]))]
                    lens = lens if L else [c.rng.choice([1, 3, 5, 7])]
                    h = hist[L > 0]
                    ops = list(h[(n * 7) % len(h)])
                    ops += ["next"] * (L + 1 if L else 0) + ["next_episode"] * (L > 0 or not pf)
                    ops += ["next"] * (L + 2 if L else 8)
                    ops += ["reset_self", "next", "reset", "next", "shutdown"]
                    B, loop = c.rng.choice([1, 2, 3, 4]), not L and rep == 1
                    if pf and not L and not loop:
                        ops = trim(ops, sum(lens), B)
                    add(fmt=fmt, L=L, pf=pf, lens=lens, B=B, ops=ops, loop=loop,
                        dtype="u8" if fmt == "npyimg" else ["u8", "u16", "f"][rep % 3])
    # schedulers without images, however wrapped
    for fmt in ("h5", "npy", "mat", "mat73"):
        for L in (0, 2):
            if L and fmt in ("h5", "npy"):
                continue
            for pf in (0, 1):
                for route in ("direct", "config"):
                    add(fmt=fmt, img=0, L=L, pf=pf, lens=[3, 2], B=2, ops=[], route=route)
    rs = c.run_workers("w_real.py", [dict(tests=tests[i::8]) for i in range(8)])

    def canary(t, rng):
        g = [e for e in t["ev"] if e["op"] == "next" and e["kind"] == "ok"]
        if not g:
            t["ev"][0]["kind"] = "ok" if t["cfg"]["img"] == 0 else "ValueError"
            return t
        e = rng.choice(g)
        how = rng.randrange(6)
        if how == 0:
            e["im1"][0], e["im2"][0] = [9, 9], e["im1"][0]
        elif how == 1:
            e["done"] = {"none": "true", "true": "false", "false": "true"}[e["done"]]
        elif how == 2:
            e["params"] = 1
        elif how == 3:
            e["labels"][-1] = [7, 7]
        elif how == 4:
            e["mask"][-1] = 1 - e["mask"][-1]
        else:
            for k in ("items", "labels", "im1", "im2"):
                e[k] = [[x[0] + 20, x[1]] if x != [0, 0] else x for x in e[k]]
        return t

    c.validate("RealTrace", [t for r in rs for t in r], canary, label="real images")
