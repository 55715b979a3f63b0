"""Checks P22-P25: interpolation, warps, histogram matching, flow adapter."""

import itertools
from fractions import Fraction

import core


def jobs(c, tests, n=8):
    rs = c.run_workers("w_numeric.py", [dict(tests=tests[i::n]) for i in range(min(n, len(tests)))])
    return [t for r in rs for t in r]


def grid(c, h, w, lo=-9, hi=9):
    """A grid without symmetries."""
    while True:
        g = [[c.rng.randint(lo, hi) for _ in range(w)] for _ in range(h)]
        if h * w < 4 or len({x for r in g for x in r}) > min(2, h * w // 2 - 1, hi - lo):
            return g


# ------------------------------------------------------------------ P22
PART = """SPECIFICATION Spec
CONSTANTS
 Q = %d
 H = %d
 W = %d
 Vals = %s
 Raw = %s
INVARIANTS AtGridPoints InRange NearestEdge
PROPERTY Continuous
CHECK_DEADLOCK FALSE
"""


def p22(c):
    big = core.THOROUGH
    for q, h, w, v in [(2, 2, 3, "{0,3}"), (3, 2, 2, "{0,1,5}"), (2, 1, 3, "{0,2}"), (4, 3, 2, "{0,1}")] + (
            [(4, 3, 3, "{0,1}"), (5, 2, 3, "{0,7}")] if big else []):
        c.model("Particles", PART % (q, h, w, v, "FALSE"), must_take=["MoveX"] + ["MoveY"])
    c.refute("Particles", PART % (2, 2, 3, "{0,3}", "TRUE"))
    tests = []
    shapes2 = [(3, 4), (4, 3), (1, 5), (5, 1), (2, 2), (6, 9), (1, 330), (301, 2)]
    n = 0
    for h, w in shapes2:
        ev = []
        for rep in range(12 if big else 4):
            Q = c.rng.choice([4, 8]) if h * w < 20 else 4
            p = [[y, x] for y in range(-Q - 1, h * Q + 2) for x in range(-Q - 1, w * Q + 2)]
            p = p + [[c.rng.choice([-997, 996, 0]), c.rng.choice([-997, 3, 996])] for _ in range(9)]
            c.rng.shuffle(p)
            if len(p) > 420:
                p = p[:420]
            p += p[:5]
            # one shape of positions per grid shape: one compilation
            p = (p * 20)[:420]
            r = [c.rng.choice([[1, 1], [3, 1], [1, 4], [3, 2], [5, 4], [2, 1]]) for _ in range(3)]
            dt = c.rng.choice([[1, 1], [1, 2], [-1, 1], [3, 1], [-3, 2], [1, 4]])
            base = dict(dim=2, Q=Q, pow=Q * Q, g=[grid(c, h, w), grid(c, h, w)], p=p, r=r, rd=4, dt=dt, dd=4)
            ev.append(dict(base, what="particles", jit=rep % 2))
            if rep < 2 or big:
                ev.append(dict(base, what="interp", rows=c.rng.choice([1, 20])))
        tests.append(dict(id=f"2d:{h}x{w}", ev=ev))
    for d, h, w in [(2, 3, 4), (4, 2, 3), (3, 4, 2), (2, 2, 2), (2, 2, 150), (3, 140, 2)]:
        ev = []
        for rep in range(8 if big else 3):
            Q = 4
            p = [[z, y, x] for z in range((d - 1) * Q + 1) for y in range((h - 1) * Q + 1) for x in range((w - 1) * Q + 1)]
            c.rng.shuffle(p)
            p = (p * 5)[:420]
            r = [c.rng.choice([[1, 1], [3, 1], [1, 2], [3, 2], [2, 1]]) for _ in range(3)]
            dt = c.rng.choice([[1, 1], [1, 2], [-1, 1], [3, 1], [-3, 2]])
            g = [[grid(c, h, w) for _ in range(d)] for _ in range(3)]
            base = dict(dim=3, Q=Q, pow=Q ** 3, g=g, p=p, r=r, rd=2, dt=dt, dd=2)
            ev.append(dict(base, what="particles", jit=rep % 2))
            if rep < 1 or big:
                ev.append(dict(base, what="interp", rows=c.rng.choice([1, 20])))
        tests.append(dict(id=f"3d:{d}x{h}x{w}", ev=ev))
    rs = jobs(c, tests)

    def canary(t, rng):
        e = rng.choice(t["ev"])
        e["out"][rng.randrange(len(e["out"]))][rng.randrange(len(e["g"]))] += rng.choice([-1, 1]) * rng.choice([2, 5, 64])
        return t

    c.validate("ParticlesTrace", rs, canary, label="particles on the position lattice")


# ------------------------------------------------------------------ P23
WARP = """SPECIFICATION Spec
CONSTANTS
 Q = 2
 H = %d
 W = %d
 Vals = %s
 Shifts <- MC_S
 Trunc = %s
INVARIANTS Result Conserved NothingLost
CHECK_DEADLOCK FALSE
"""


def p23(c):
    big = core.THOROUGH
    far = "{<<0,0>>, <<-1,1>>, <<1,-3>>, <<2,0>>}"
    near = "{<<0,1>>, <<-1,0>>, <<3,-1>>}"

    def mod(h, w, vals, sh, trunc="FALSE"):
        return WARP.replace(" Shifts <- MC_S\n", "") % (h, w, vals, trunc), dict(defs=dict(Shifts=sh))

    for h, w, vals, sh in [(2, 2, "{0,3}", far), (1, 3, "{1,4}", far), (3, 1, "{1,4}", near)] + (
            [(2, 2, "{0,1,3}", near), (2, 3, "{2}", near), (1, 4, "{0,1}", far)] if big else []):
        cfg, kw = mod(h, w, vals, sh)
        c.model("Warp", cfg, must_take=["Warp.Next"], **kw)
    cfg, kw = mod(2, 2, "{0,3}", far, "TRUE")
    c.refute("Warp", cfg, **kw)
    tests = []
    for k, (h, w) in enumerate([(4, 6), (6, 4), (1, 7), (7, 1), (5, 5), (2, 3), (8, 3), (3, 9), (1, 262), (260, 1)]):
        ev = []
        long = h * w > 200
        for rep in range((10 if big else 4) if not long else 1):
            Q = c.rng.choice([2, 4, 8])
            im = grid(c, h, w, 0, 200)
            span = c.rng.choice([Q // 2, Q, 3 * Q, 12 * Q])
            u, v = grid(c, h, w, -span, span), grid(c, h, w, -span, span)
            if rep == 1:  # everything stays inside
                u = [[c.rng.randint(-x * Q, (w - 1 - x) * Q) for x in range(w)] for _ in range(h)]
                v = [[c.rng.randint(-y * Q, (h - 1 - y) * Q) for _ in range(w)] for y in range(h)]
            if rep == 2:  # whole pixels
                u, v = [[x - x % Q for x in r] for r in u], [[x - x % Q for x in r] for r in v]
            for mode in ("forward", "backward"):
                dt = c.rng.choice([[1, 1], [1, 2], [2, 1], [-1, 1], [-1, 4]])
                ev.append(dict(what="warp", mode=mode, fwd=0, Q=Q, im=im, u=u, v=v, dt=dt, defaults=rep % 2,
                               cu=[0] * 6, cv=[0] * 6, m=0, t=0))
        for fwd in (0, 1, 0, 1) if big else (0, 1) if not long else (1,):
            Q = 4
            co = [[c.rng.randint(-6, 6), c.rng.choice([-2, 1, 3]), c.rng.choice([-3, 2, 1]), c.rng.choice([-2, 3, 5]),
                   c.rng.choice([0, 4]), c.rng.randint(0, w)] for _ in range(2)]
            ev.append(dict(what="warp", mode="callable", fwd=fwd, Q=Q, im=grid(c, h, w, 0, 200), u=[], v=[],
                           cu=co[0], cv=co[1], m=0, t=c.rng.choice([-1, 1, 2]), vq=2,
                           dt=c.rng.choice([[1, 1], [1, 2], [-1, 1], [3, 2]]), defaults=0))
            e = ev[-1]
            # displacement units per velocity unit
            e["m"] = int(Fraction(*e["dt"]) * Q / e["vq"])
        ev.append(dict(ev[-1], defaults=1, fwd=0, t=0, dt=[1, 1], m=2))
        tests.append(dict(id=f"warp:{h}x{w}", ev=ev))
    rs = jobs(c, tests)

    def canary(t, rng):
        e = rng.choice(t["ev"])
        h, w = len(e["im"]), len(e["im"][0])
        how = rng.randrange(3)
        if how == 0 and e["mode"] != "callable":
            e["mode"] = {"forward": "backward", "backward": "forward"}[e["mode"]]
        else:
            y = rng.randrange(h)
            e["out"][y][rng.randrange(w)] += rng.choice([-4, 2, 40])
        return t

    c.validate("WarpTrace", rs, canary, label="warps")


# ------------------------------------------------------------------ P24
HIST = """SPECIFICATION Spec
CONSTANTS
 Top = %d
 N = %d
 Strict = %s
INVARIANTS Monotone FixedPoint Closest
CHECK_DEADLOCK FALSE
"""


def bag(c, total, levels):
    """Random counts of the given levels adding up to the total."""
    cut = sorted(c.rng.randint(0, total) for _ in range(len(levels) - 1))
    n = [b - a for a, b in zip([0] + cut, cut + [total])]
    return [[lv, k] for lv, k in zip(sorted(levels), n) if k]


def p24(c):
    big = core.THOROUGH
    for top, n in [(2, 4), (3, 4), (4, 3)] + ([(4, 5), (3, 7)] if big else []):
        c.model("Histogram", HIST % (top, n, "FALSE"), must_take=["MapLevel"])
    c.refute("Histogram", HIST % (3, 3, "TRUE"))
    tests = []
    for k, (h, w) in enumerate([(6, 9), (16, 16), (1, 12), (32, 24), (7, 5), (64, 48), (3, 3), (1, 1), (260, 257)]):
        N, ev = h * w, []
        for rep in range((24 if big else 9) if N < 9999 else 2):
            pick = lambda: c.rng.sample(range(256), c.rng.choice([1, 2, 5, 40, 200])) if rep % 3 else (
                [0, 255] + c.rng.sample(range(1, 255), c.rng.randint(0, 6)))
            src, tgt = bag(c, N, pick()), bag(c, N, pick())
            dtype = c.rng.choice(["float32", "uint8", "float32"])
            quarters = dtype == "float32" and rep % 4 == 1
            pix = [lv * 4 + (c.rng.randint(0, 3) if quarters and lv < 255 else 0) for lv, n in src for _ in range(n)]
            if rep % 4 == 3 or (rep % 4 == 2 and not quarters):
                tgt = [list(x) for x in src] if not quarters and rep % 4 == 3 else tgt
            c.rng.shuffle(pix)
            pix = [pix[i * w:(i + 1) * w] for i in range(h)]
            ev.append(dict(what="histogram", pix=pix, tgt=tgt, dtype=dtype, hf=c.rng.randint(0, 1), src=[],
                           jit=int(rep % 3 == 0), whole=int(not quarters)))
        tests.append(dict(id=f"hist:{h}x{w}", ev=ev))
    # the matching applied to generated images
    for k in range(12 if big else 4):
        h, w = c.rng.choice([[12, 9], [16, 20], [8, 8]])
        tgt = bag(c, h * w, c.rng.sample(range(256), c.rng.choice([3, 20, 100])))
        tests.append(dict(id=f"pipeline:{h}x{w}:{k}", ev=[dict(
            what="pipeline", shape=[h, w], tgt=tgt, key=c.rng.randrange(1000), noise=c.rng.choice([0, 5, 60]),
            mean=c.rng.choice([0, 3, 240]), mask=k % 2, B=2)]))
    rs = jobs(c, tests)

    def canary(t, rng):
        g = [e for e in t["ev"] if e["out"]]
        o = rng.choice(rng.choice(g)["out"])
        o[1] = (o[1] + rng.choice([1, 255])) % 256
        return t

    c.validate("HistogramTrace", rs, canary, label="histogram matching")


# ------------------------------------------------------------------ P25
ADAPT = """SPECIFICATION Spec
CONSTANTS
 F = %d
 D = %d
 MaxPad = %d
 NoPad = %s
INVARIANTS Inside Reads Stored
PROPERTY Even
CHECK_DEADLOCK FALSE
"""


def p25(c):
    big = core.THOROUGH
    for f, d, m in [(3, 2, 1), (4, 2, 2), (2, 3, 2)] + ([(5, 4, 3), (6, 3, 2)] if big else []):
        c.model("Adapter", ADAPT % (f, d, m, "FALSE"), must_take=["Walk"])
    c.refute("Adapter", ADAPT % (3, 2, 1, "TRUE"))
    tests = []
    R = c.rng

    def event(fh, fw, n):
        """Random arguments whose regions are whole multiples of 1/D grid steps."""
        while True:
            res = Fraction(*R.choice([(1, 1), (2, 1), (4, 1), (5, 1), (1, 2), (8, 1)]))
            ry, rx = (Fraction(*R.choice([(1, 1), (2, 1), (1, 2), (3, 1), (4, 1), (5, 2)])) for _ in range(2))
            image = [R.randint(2, 12) for _ in range(2)]
            pb = [s + R.choice([0, 1, 4, 6]) for s in image]
            ioff = [Fraction(R.choice([0, 0, 1, 3, 5]), R.choice([1, 2])) for _ in range(2)]
            pbo = [Fraction(R.choice([0, 1, 2, 3]), R.choice([1, 2])) for _ in range(2)]
            new = [R.choice([1, 2, 3, 4, 5]) for _ in range(2)]
            pad = [R.choice([0, 0, 1, 2]) for _ in range(2)]
            dt = R.choice([[1, 1], [1, 2], [3, 1]])
            B = R.randint(1, 2 * n + 1)
            units = R.choice(["pixels", "measure units per second"])
            g = [ry, rx]
            img = [[(pbo[a] * g[a]) + ioff[a] / res * g[a], image[a] / res * g[a]] for a in (0, 1)]
            box = [[pbo[a] * g[a], pb[a] / res * g[a]] for a in (0, 1)]
            D = 1
            for x in (q for r in img + box for q in r):
                D = D * x.denominator // __import__("math").gcd(D, x.denominator)
            # regions of at least one grid step, not absurdly large
            if D > 20 or any(r[1] < 1 or r[0] + r[1] > 20 for r in img + box):
                continue
            bn = [max(1, int(r[1])) for r in box]
            if any(int(float(pb[a]) / float(res) * float(g[a])) != int(box[a][1]) for a in (0, 1)):
                continue
            m = res * Fraction(*dt) if units == "pixels" else Fraction(1)
            den = max(max(1, new[0] - 1) * max(1, new[1] - 1), max(1, bn[0] - 1) * max(1, bn[1] - 1)) * D * D
            S = min(500, int(8e8 / (den * 12 * max(m.numerator, m.denominator, 1))))
            if S < 60:
                continue
            break
        fr = lambda x: [x.numerator, x.denominator]
        return dict(
            what="adapter", D=D, img=[[int(x * D) for x in r] for r in img], box=[[int(x * D) for x in r] for r in box],
            pad=pad, nh=new[0], nw=new[1], B=B, f=[[grid(c, fh, fw) for _ in range(2)] for _ in range(n)],
            m=fr(m), S=S, jit=R.randint(0, 1),
            args=dict(new=new, image=image, ioff=[fr(x) for x in ioff], res=fr(res), rx=fr(rx), ry=fr(ry), pb=pb,
                      pbo=[fr(x) for x in pbo], B=B, units=units, dt=dt, pad=pad))

    for k, (fh, fw, n) in enumerate([(3, 4, 1), (5, 3, 2), (4, 6, 3), (6, 5, 2), (1, 4, 2), (7, 8, 1), (5, 7, 3), (4, 4, 4)]):
        ev = [event(fh, fw, n) for _ in range(60 if big else 14)]
        tests.append(dict(id=f"adapter:{n}x{fh}x{fw}", ev=ev))
    rs = jobs(c, tests)

    def canary(t, rng):
        e = rng.choice([e for e in t["ev"]])
        o = rng.choice(e["out"] if rng.random() < 0.5 else e["bout"])
        r = rng.choice(rng.choice(o))
        r[rng.randrange(len(r))] += rng.choice([-7, 9, e["S"]])
        return t

    c.validate("AdapterTrace", rs, canary, label="adapter")
