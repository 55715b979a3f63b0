"""Check P34: flows given as functions."""

import core

FUN = """SPECIFICATION Spec
CONSTANTS
 H = %d
 W = %d
 BreakAxes = %s
 BreakTime = %s
INVARIANTS Sampled Follows
CHECK_DEADLOCK FALSE
"""


def p34(c):
    r, big = c.rng, core.THOROUGH
    for h, w in [(2, 3), (3, 1), (1, 1)] + ([(3, 3)] if big else []):
        c.model("FlowFunction", FUN % (h, w, "FALSE", "FALSE"), must_take=["Sample", "Move"])
    c.refute("FlowFunction", FUN % (2, 3, "TRUE", "FALSE"))
    c.refute("FlowFunction", FUN % (2, 2, "FALSE", "TRUE"))
    tests = []
    for k, (h, w) in enumerate([(3, 5), (5, 3), (1, 6), (6, 1), (4, 4), (1, 1), (7, 2), (2, 9), (2, 270), (300, 1)] * (4 if big else 1)):
        ev = []
        for rep in range(5):
            co = [[r.randint(-9, 9), r.choice([-3, 0, 1, 2]), r.choice([-2, 0, 1, 3]), r.choice([-4, 0, 5, 7]),
                   r.choice([0, 0, 1, -1]), r.choice([0, 6]), r.randint(0, w)] for _ in range(2)]
            if rep == 0:
                co = [[r.randint(1, 9), 0, r.choice([2, 3]), r.choice([4, 5]), 0, 0, 0],
                      [r.randint(1, 9), r.choice([1, -2]), 0, r.choice([-3, 2]), 0, 0, 0]]
            if rep == 1:  # constant
                co = [[r.randint(-9, 9)] + [0] * 6 for _ in range(2)]
            base = dict(cu=co[0], cv=co[1], h=h, w=w)
            ev.append(dict(base, op="sample", dt=1, fwd=0, seed=0))
            ev.append(dict(base, op="move", dt=r.choice([1, 2, -1]), fwd=0, seed=0))
            for fwd in (0, 1):
                ev.append(dict(base, op="warp", dt=r.choice([1, 2, -3]), fwd=fwd, seed=r.randrange(1 << 30),
                               dtype=r.choice(["float32", "float16", "int32", "uint8"])))
        tests.append(dict(id=f"flow{k}:{h}x{w}", ev=ev))
    rs = c.run_workers("w_flow.py", [dict(tests=tests[i::6]) for i in range(6)])

    def canary(t, rng):
        e = rng.choice(t["ev"])
        if e["op"] == "sample":
            y = rng.choice(e["out"])
            y[rng.randrange(len(y))][rng.randrange(2)] += rng.choice([-1, 1])
        elif e["op"] == "move":
            rng.choice(e["out"])[rng.choice([2, 3])] += 1
        else:
            e["off"] += 50
        return t

    c.validate("FlowFunctionTrace", [t for x in rs for t in x], canary, label="flow functions")
