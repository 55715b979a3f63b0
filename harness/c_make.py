"""Checks P26-P28: factory, validation, speed tool."""

import copy
import math
from fractions import Fraction

import core

FACTORY = """SPECIFICATION Spec
CONSTANTS
 MaxB = %d
 MaxEp = %d
 MaxFrames = %d
 WrongSize = %s
INVARIANTS BuiltAsAsked RefusedOnlyBad NeverFails %s
CHECK_DEADLOCK FALSE
"""


def enc(v):
    """A value as the specification sees it."""
    if isinstance(v, bool):
        return dict(t="bool", n=int(v), d=1)
    if isinstance(v, int):
        return dict(t="int", n=v, d=1)
    if isinstance(v, float):
        if math.isnan(v):
            return dict(t="nan")
        q = Fraction(v).limit_denominator(1000)
        return dict(t="float", n=q.numerator, d=q.denominator)
    if isinstance(v, str):
        return dict(t="str", s=v.partition(":")[0])
    if v is None:
        return dict(t="none")
    if isinstance(v, dict):
        return dict(t="dict")
    return dict(t="tuple" if isinstance(v, tuple) else "list", items=[enc(x) for x in v])


SYN = dict(
    batch_size=3, flow_fields_per_batch=2, batches_per_flow_batch=2, image_shape=[16, 12], img_offset=[4, 3],
    seeding_density_range=[0.05, 0.08], p_hide_img1=0.1, p_hide_img2=0.2, diameter_ranges=[[0.8, 1.2], [1.5, 2.0]],
    diameter_var=0.1, intensity_ranges=[[80, 100], [150, 220]], intensity_var=2, rho_ranges=[[-0.2, 0.2], [0.3, 0.4]],
    rho_var=0.01, dt=0.5, noise_uniform=3, noise_gaussian_mean=1, noise_gaussian_std=0.5, flow_field_size=[24, 20],
    resolution=1, velocities_per_pixel=1, seed=3, max_speed_x=2, max_speed_y=1.5, min_speed_x=-1, min_speed_y=-2,
    output_units="pixels")
REAL = dict(batch_size=2, include_images=True, image_shape=[16, 12], seed=0)
# pairs (key, value): each makes the configuration a bad one; None as key removed
ABSENT = "<absent>"
COMMON_BAD = (
    [("scheduler_class", v) for v in (ABSENT, ".txt", "mat", "", None, 3)]
    + [("batch_size", v) for v in (ABSENT, 0, -1, 2.0, "2", None, [2])]
    + [("include_images", v) for v in ("yes", 1, None)]
    + [("randomize", v) for v in ("no", 0, None)] + [("loop", v) for v in ("true", 1, None)]
    + [("buffer_size", v) for v in (-1, 1.5, "2", None)] + [("episode_length", v) for v in (-2, 0.5, "1", None)]
    + [("file_list", v) for v in (ABSENT, [], ["missing:"], ["dir:", "missing:"], ["other:"], ["emptydir:"], "emptydir:",
                                  "missing:", ["file:1", 3], None, 7)])
REAL_BAD = [("image_shape", v) for v in ([16], [16, 0], [16, -4], [16.0, 12], "ab", [16, 12, 3], 16)] + [
    ("scheduler_class", ".npy"), ("scheduler_class", ".h5"), ("seed", "s"), ("seed", 1.5)]
PAIR = ([1], [1, 2, 3], "ab", 5, None, [1, "x"])
SYN_BAD = (
    [("flow_fields_per_batch", v) for v in (0, -1, 4, 1.0, "1", None)]
    + [("batches_per_flow_batch", v) for v in (0, -1, 1.5, "1", None)]
    + [("flow_field_size", v) for v in ([0, 20], [24, -1], [24], "ab", 5, None, [24, "x"])]
    + [(k, v) for k in ("resolution", "velocities_per_pixel") for v in (0, -1, "1", None)]
    + [("velocities_per_pixel", 0.05)]
    + [("seed", v) for v in (-1, 1.5, "1", None)] + [("output_units", v) for v in ("px", "", None, 3, "Pixels")]
    + [(k, v) for k in ("max_speed_x", "max_speed_y", "min_speed_x", "min_speed_y") for v in ("1", None)]
    + [("max_speed_x", -2), ("max_speed_y", -2.5), ("min_speed_x", 2.5), ("min_speed_y", 1.75)]
    + [("mask", v) for v in ("nofile", "mask_shape", "mask_values", 5, ["mask"])]
    + [("histogram", v) for v in ("nofile", "hist_sum", "hist_len", 5)]
    + [("device_ids", v) for v in ([], [9], [0, 0], 0, "0")]
    + [("flow_field_size", [19.5, 20]), ("flow_field_size", [24, 15]), ("img_offset", [0.25, 3]), ("img_offset", [4, 0.5])]
    + [("image_shape", v) for v in ([16, 0], [16.0, 12], [22, 12], [16, 18]) + PAIR]
    + [("img_offset", v) for v in ([-1, 3],) + PAIR] + [("seeding_density_range", v) for v in ([-0.1, 0.1], [0.2, 0.1]) + PAIR]
    + [(k, v) for k in ("p_hide_img1", "p_hide_img2") for v in (-0.25, 1.25, "0.5", None)]
    + [(k, v) for k in ("diameter_ranges", "intensity_ranges")
       for v in ([], [[0, 1]], [[1, 2], [2, 1]], [[1, 2], [-1, 2]], [[1, 2, 3]], [[1]], "ab", None, [[1, "x"]])]
    + [("rho_ranges", v) for v in ([], [[-1, 0.5]], [[0.25, 1]], [[0.5, 0.25]], [[0, 0.5], [0.5, 1.5]], [[0.25]], None)]
    + [(k, v) for k in ("diameter_var", "intensity_var", "rho_var", "noise_uniform", "noise_gaussian_mean",
                        "noise_gaussian_std") for v in (-0.25, "0", None)]
    + [("dt", v) for v in (0, -0.5, "1", None)])
# pairs of single changes that leave the configuration good
SYN_GOOD = [
    dict(p_hide_img1=0, p_hide_img2=1), dict(seeding_density_range=[0, 0.05]), dict(seeding_density_range=[0, 0]),
    dict(output_units="measure units per second"), dict(velocities_per_pixel=0.5), dict(velocities_per_pixel=1.5),
    dict(flow_fields_per_batch=3, batches_per_flow_batch=1), dict(mask="mask", histogram="histogram"), dict(mask=None),
    dict(resolution=2, image_shape=[30, 20]), dict(device_ids=[0]), dict(device_ids=[0, 9]),
    dict(max_speed_x=0, max_speed_y=0, min_speed_x=0, min_speed_y=0, p_hide_img1=0), dict(loop=True, randomize=False),
    dict(flow_field_size=[22, 17.5], img_offset=[1, 1]), dict(noise_uniform=0, noise_gaussian_std=0, noise_gaussian_mean=0),
    dict(diameter_var=0, intensity_var=0, rho_var=0), dict(diameter_ranges=[[1, 1]], rho_ranges=[[-0.98, -0.98]]),
]


def p26(c):
    big = core.THOROUGH
    args = (3, 2, 3)
    r = c.model("Factory", FACTORY % (*args, "FALSE", "Emit") + "PROPERTY Decided\n", workers=1,
                must_take=["Refuse", "Episodic", "Prefetch", "Sample", "First"])
    c.refute("Factory", FACTORY % (*args, "TRUE", ""))
    scn = c.scenarios(r)
    if len(scn) < 1000:
        raise core.MachineryError("too few configurations")
    tests = []
    NSEQ = 2

    def event(conf, take, src=None, hand=0):
        return dict(config=conf, c={k: enc(v) for k, v in conf.items()}, take=take, hand=hand,
                    src=src or c.rng.choice(["dict", "yaml"]))

    def files(frames):
        return c.rng.choice([["dir:"], "dir:", [f"file:{k + 1}" for k in range(sum(frames))], ["emptydir:", "dir:"]])

    # --- combinations of layers, from the model
    seen = {}
    for s in scn:
        k = s["c"]
        if k["images"] and (k["F"] != 1 or k["K"] != 1):
            continue
        key = (k["cls"], k["images"], min(k["buf"], 1), min(k["ep"], 2), s["ok"], k["B"] == k["F"], k["K"])
        seen.setdefault(key, []).append(k)
    n = 0
    for key, ks in sorted(seen.items(), key=str):
        for rep in range(3 if big else 1):
            n += 1
            k = c.rng.choice(ks)
            img, ok = k["images"], key[4]
            m = k["frames"]
            frames = [m, c.rng.choice([m, 3])]
            conf = dict(REAL if img else SYN)
            conf.update(scheduler_class=k["cls"], batch_size=k["B"], file_list=files(frames))
            if not img:
                conf.update(flow_fields_per_batch=k["F"], batches_per_flow_batch=k["K"])
            elif c.rng.random() < 0.5:
                conf.pop("image_shape") if c.rng.random() < 0.3 else conf.pop("seed")
            if not img and k["cls"] != ".npy" and c.rng.random() < 0.3:
                conf["include_images"] = False
            for name, v in (("buffer_size", k["buf"]), ("episode_length", k["ep"])):
                if v or c.rng.random() < 0.4:
                    conf[name] = v
            loop = c.rng.choice([True, False, None])
            if loop is not None:
                conf["loop"] = loop
            rand = c.rng.choice([True, False, None])
            if rand is not None:
                conf["randomize"] = rand
            ns = c.rng.choice([1, 3]) if k["cls"] == ".h5" else 1
            total = sum(frames) * ns
            r_ = k["B"] if img else k["F"]
            rep_ = 1 if img or k["ep"] else k["K"]
            avail = -(-total // r_) * rep_
            if k["ep"]:
                t = 2 * (k["ep"] + 1)
            elif loop is False:
                t = avail + 1
            else:
                t = 2 * avail + 1
            tests.append(dict(id=f"layers:{n}", cls=k["cls"], frames=frames, n=ns, ev=[event(conf, min(t, 14))]))
    # --- options reach the sampler; YAML and seed
    for j, extra in enumerate([{}, dict(mask="mask", histogram="histogram", output_units="measure units per second"),
                               dict(seed=11, velocities_per_pixel=0.5, buffer_size=2), dict(mask="mask", loop=True)][:4]):
        cls = [".npy", ".mat", ".h5", ".npy"][j]
        conf = dict(SYN, scheduler_class=cls, file_list=["dir:"], **extra) if "seed" not in extra else {
            **SYN, "scheduler_class": cls, "file_list": ["dir:"], **extra}
        ev = [event(conf, 2, "dict", hand=1), event(conf, 2, "yaml")]
        if j in (0, 2):
            ev.append(event({**conf, "seed": conf["seed"] + 1}, 2))
        tests.append(dict(id=f"options:{j}", cls=cls, frames=[2, 2], n=1 + (j == 2), ev=ev))
    for j, cls in enumerate([".mat", ".mat"]):
        conf = dict(REAL, scheduler_class=cls, file_list=["dir:"], randomize=True, batch_size=4)
        tests.append(dict(id=f"options:real{j}", cls=cls, frames=[3, 2], n=1, ev=[
            event(conf, 3, "dict"), event(conf, 3, "yaml"), event({**conf, "seed": 5}, 3)]))
    # --- good variants
    good = SYN_GOOD if big else c.rng.sample(SYN_GOOD, len(SYN_GOOD))
    for j, extra in enumerate(good):
        conf = {**SYN, "scheduler_class": ".npy", "file_list": ["dir:"], **extra}
        tests.append(dict(id=f"good:{j}:" + ",".join(extra), cls=".npy", frames=[2, 2], n=1, ev=[event(conf, 1)]))
    # --- one thing wrong at a time; now and then two
    bad = []
    base_r = dict(REAL, scheduler_class=".mat", file_list=["dir:"])
    base_s = dict(SYN, scheduler_class=".npy", file_list=["dir:"])

    def spoil(base, k, v):
        conf = copy.deepcopy(base)
        if v == ABSENT:
            conf.pop(k, None)
        else:
            conf[k] = v
        return conf

    for k, v in COMMON_BAD:
        bad += [(".mat", spoil(base_r, k, v)), (".npy", spoil(base_s, k, v))]
    bad += [(".mat", spoil(base_r, k, v)) for k, v in REAL_BAD]
    bad += [(".npy", spoil(base_s, k, ABSENT)) for k in SYN]
    bad += [(".npy", spoil(base_s, k, v)) for k, v in SYN_BAD]
    bad += [(".mat", {**base_r, "episode_length": 3}), (".npy", {**base_s, "episode_length": 1})]
    for _ in range(120 if big else 30):
        (k, v), (k2, v2) = c.rng.choice(SYN_BAD), c.rng.choice(SYN_BAD + COMMON_BAD)
        bad.append((".npy", spoil(spoil(base_s, k, v), k2, v2)))
    for cls in (".mat", ".npy"):
        confs = [x for k, x in bad if k == cls]
        c.rng.shuffle(confs)
        for j in range(0, len(confs), 24):
            tests.append(dict(id=f"bad:{cls}:{j}", cls=cls, frames=[2, 2], n=1,
                              ev=[event(x, 1) for x in confs[j:j + 24]]))
    rs = jobs_make(c, tests)
    # --- several devices
    dev = []
    for j, extra in enumerate([{}, dict(device_ids=[0, 2]), dict(device_ids=[3]), dict(device_ids=[1, 9, 0]),
                               dict(device_ids=[1, 2, 1]), dict(device_ids=[4, 9]), dict(device_ids=[0, 1, 2, 3, 4])]):
        conf = {**SYN, "scheduler_class": ".npy", "file_list": ["dir:"], "batch_size": c.rng.choice([3, 4, 6]), **extra}
        dev.append(dict(id=f"devices:{j}", cls=".npy", frames=[2, 2], n=1, ev=[event(conf, 2)]))
    rs += jobs_make(c, dev, 3, XLA_FLAGS="--xla_force_host_platform_device_count=4")

    def canary(t, rng):
        g = [e for e in t["ev"] if e["kind"] == "ok"]
        if not g:
            e = rng.choice(t["ev"])
            e["kind"] = "ok"
            return t
        e = rng.choice(g)
        how = rng.randrange(6)
        if how == 0:
            e["layers"] = ["prefetch"] + e["layers"]
        elif how == 1:
            e["takes"][0]["fshape"][-2] += 1
        elif how == 2:
            e["takes"][0]["ishape"][0] += 1
        elif how == 3:
            e["sampler"] = "real" if e["sampler"] == "synthetic" else "synthetic"
        elif how == 4:
            e["kind"] = "ValueError"
        else:
            e["takes"][0]["params"] = 1 - e["takes"][0]["params"]
        return t

    c.validate("FactoryTrace", rs, canary, label="configurations")


def jobs_make(c, tests, n=8, **env):
    # spread the expensive builds
    cost = lambda t: sum(1 for e in t["ev"]) if t["id"].startswith("bad") else 20 * len(t["ev"])
    order = sorted(tests, key=cost, reverse=True)
    rs = c.run_workers("w_make.py", [dict(tests=order[i::n]) for i in range(min(n, len(order)))], **env)
    return [t for r in rs for t in r]


# ------------------------------------------------------------------ P27
VALID = """SPECIFICATION Spec
CONSTANTS
 N = %d
 MaxOps = %d
 Mode = "%s"
INVARIANTS AllValid AsAsked %s
PROPERTY Untouched
CHECK_DEADLOCK FALSE
"""
EPS = 2.0 ** -30
# good and bad values of each field, at and around the boundaries
NONNEG = (["0", "0.0", "1", "0.25", "1000000"], ["-1", "-0.001", "'0'", "None", "[1]", "nan", "(1,)"])
RANGES_BAD = ["[]", "()", "((1, 2),)", "[[1, 2]]", "[(1,)]", "[(1, 2, 3)]", "[1, 2]", "(1, 2)", "None", "'ab'", "3",
              "[(1, 2), [1, 2]]", "[(2, 1)]", "[(1, 2), (2, 1)]", "[(1, 2), (1, 2), (0.5, 0.25)]", "[(nan, 1)]",
              "[(1, nan)]", "[(1, 2), (nan, nan)]", "[('a', 'b')]", "[(0.25, '1')]", "[(0.25, 0.5), (None, 0.75)]"]
POSRANGES = (["[(1, 2)]", "[(1, 1)]", "[(0.001, 0.001), (3, 4.5)]", "[(1, 2), (2, 3), (0.5, 7)]"],
             RANGES_BAD + ["[(0, 1)]", "[(0, 0)]", "[(1, 2), (0.0, 1)]", "[(-1, 1)]", "[(1, 2), (3, 4), (-2, -1)]"])
VALUES = {
    "batch_size": (["1", "7", "100000"], ["0", "-1", "1.0", "'1'", "None", "[1]", "nan", "2.5"]),
    "image_shape": (["(1, 1)", "(8, 6)", "(1, 999)"],
                    ["(0, 6)", "(8, 0)", "(-8, 6)", "(8, -1)", "(8.0, 6)", "(8, 6.0)", "[8, 6]", "(8,)", "(8, 6, 1)", "8",
                     "None", "'86'", "(nan, 6)", "()", "('8', 6)"]),
    "img_offset": (["(0, 0)", "(0.0, 3.5)", "(128, 0.25)"],
                   ["(-1, 0)", "(0, -0.001)", "[1, 1]", "(1,)", "(1, 1, 1)", "1", "None", "(nan, 1)", "(1, nan)", "('1', 1)", "()"]),
    "seeding_density_range": (["(0, 0)", "(0, 0.5)", "(0.02, 0.02)", "(0.01, 2)"],
                              ["(0.02, 0.01)", "(-0.01, 0.1)", "(0.5, 0)", "(-0.2, -0.1)", "[0.1, 0.2]", "(0.1,)", "(0, 0.1, 0.2)",
                               "0.1", "None", "(nan, 1)", "(0, nan)", "('0', 1)", "()"]),
    "p_hide_img1": (["0", "1", "0.0", "1.0", "0.5", "0.999"], ["-0.001", "1.001", "2", "-1", "'0'", "None", "nan", "[0.5]"]),
    "diameter_ranges": POSRANGES, "intensity_ranges": POSRANGES,
    "rho_ranges": (["[(0, 0)]", "[(-0.999, 0.999)]", "[(-0.5, -0.25), (0.5, 0.75)]", "[(0.1, 0.1), (0.2, 0.3), (-0.9, 0)]"],
                   [v for v in RANGES_BAD if "(1, 2)" in v or "nan" in v or "'" in v or v in ("[]", "()", "None", "3")] + [
                       "[(0.5, 0.25)]", "[(-1, 0)]", "[(0, 1)]", "[(0, 0.5), (0.5, 1.0)]", "[(0, 0.5), (-1.0, 0.5)]", "[(-2, 0)]",
                       "[(0, 0.5), (0, 0.25), (0, 1.5)]", "[(0, 0.5), (0.1, 0.2), (0.2, 0.1)]", "[(0, 0.5), [0, 0.5]]", "[(0,)]",
                       "[(0, 0.1, 0.2)]"]),
    "dt": (["1", "0.001", "250"], ["0", "0.0", "-1", "-0.001", "'1'", "None", "nan", "[1]"])}
VALUES["p_hide_img2"] = VALUES["p_hide_img1"]
for _f in ("diameter_var", "intensity_var", "rho_var", "noise_uniform", "noise_gaussian_mean", "noise_gaussian_std"):
    VALUES[_f] = NONNEG
SPEC = {"batch_size": "300", "image_shape": "(256, 256)", "img_offset": "(128, 128)", "seeding_density_range": "(0.01, 0.02)",
        "p_hide_img1": "0.01", "p_hide_img2": "0.01", "diameter_ranges": "[(0.1, 1.0)]", "diameter_var": "1.0",
        "intensity_ranges": "[(50, 200)]", "intensity_var": "1.0", "rho_ranges": "[(-0.99, 0.99)]", "rho_var": "1.0", "dt": "1.0",
        "noise_uniform": "0.0", "noise_gaussian_mean": "0.0", "noise_gaussian_std": "0.0"}
OPTIONAL = {"batch": ["params", "done", "mask", "files"], "data": ["images1", "images2", "mask", "files"]}
NAMES = {"batch": ["images1", "images2", "flow_fields", "params", "done", "mask", "files"],
         "data": ["flow_fields", "images1", "images2", "mask", "files"],
         "params": ["seeding_densities", "diameter_ranges", "intensity_ranges", "rho_ranges"]}


def p27(c):
    big = core.THOROUGH
    r = c.model("Validation", VALID % (3, 2, "right", "Emit"), workers=1, must_take=["New", "Change"])
    if big:
        c.model("Validation", VALID % (2, 3, "right", ""), must_take=["New", "Change"])
    for m in ("unchecked", "in-place", "first", "forgets"):
        c.refute("Validation", VALID % (3, 2, m, ""))
    scn = c.scenarios(r)
    names = sorted(VALUES)
    tests = []

    def spec(id_, ops):
        tests.append({"id": id_, "class": "spec", "names": names, "defaults": SPEC, "ops": ops})

    # --- every value of every field: constructed alone, constructed among others, through an update
    for f in names:
        good, bad = VALUES[f]
        ops = [dict(op="new", v={})]
        for v in good + bad:
            others = {g: c.rng.choice(VALUES[g][0]) for g in c.rng.sample(names, 4)}
            ops += [dict(op="new", v={f: v}), dict(op="new", v={**others, f: v}), {"op": "update", "from": c.rng.randrange(99), "v": {f: v}},
                    {"op": "update", "from": c.rng.randrange(99), "v": {**others, f: v}}]
        spec(f"field:{f}", ops)
    # --- histories of the model on random fields, values of the field's kind
    picked = c.rng.sample(scn, min(len(scn), 4000 if big else 700))
    ops = []
    for n, h in enumerate(picked):
        fs = c.rng.sample(names, 3)
        ops.append(dict(op="new", v={}))
        for a in h:
            v = {fs[k - 1]: c.rng.choice(VALUES[fs[k - 1]][a["v"][k - 1] == "bad"]) for k in a["set"]}
            ops.append(dict(op="new", v=v) if a["op"] == "new" else {"op": "update", "from": c.rng.randrange(99), "v": v})
        if len(ops) > 100:
            spec(f"history:{n}", ops)
            ops = []
    # --- any pair of bad fields
    ops = [dict(op="new", v={})]
    for a in names:
        for b in names:
            if a < b and (big or c.rng.random() < 0.6):
                v = {a: c.rng.choice(VALUES[a][1]), b: c.rng.choice(VALUES[b][1])}
                ops.append(dict(op="new", v=v) if c.rng.random() < 0.5 else {"op": "update", "from": 0, "v": v})
    spec("pairs", ops)
    # --- every field renewed at once, and none
    for n in range(40 if big else 12):
        spec(f"all:{n}", [dict(op="new", v={f: c.rng.choice(VALUES[f][0]) for f in names}), {"op": "update", "from": 0, "v": {}},
                          {"op": "update", "from": 0, "v": {f: c.rng.choice(VALUES[f][0]) for f in names}},
                          {"op": "update", "from": 1, "v": {f: SPEC[f] for f in c.rng.sample(names, 8)}}])
    # --- batches, scheduler data, parameters
    for cls in ("batch", "data", "params"):
        fields = NAMES[cls]
        opt = OPTIONAL.get(cls, [])
        for n in range(30 if big else 8):
            lab = iter(range(1, 100000))
            given = lambda fs: {f: 0 if f in opt and c.rng.random() < 0.3 else next(lab) for f in fs}
            ops = []
            need = [f for f in fields if f not in opt]
            for _ in range(25):
                k = c.rng.random()
                if k < 0.2 or not ops or cls == "params" and k < 0.5:
                    ops.append(dict(op="new", v=given(need + c.rng.sample(opt, c.rng.randint(0, len(opt))))))
                elif cls != "params" and (k < 0.7 or cls == "data"):
                    ops.append({"op": "update", "from": c.rng.randrange(99), "v": given(c.rng.sample(fields, c.rng.randint(0, len(fields))))})
                else:
                    ops.append({"op": "tree", "from": c.rng.randrange(99), "add": c.rng.choice([0, 5, 31]),
                                "how": c.rng.choice(["map", "jit", "flat"])})
            # file names are no arrays: only batches without them can be flattened and rebuilt by arithmetic
            fs = [f for f in fields if f != "files"] if cls == "batch" and n % 2 else fields
            if cls == "batch":
                ops = [o for o in ops if o["op"] != "tree"] if fs is fields else [
                    {**o, "v": {f: x for f, x in o["v"].items() if f != "files"}} if "v" in o else o for o in ops]
            tests.append({"id": f"{cls}:{n}", "class": cls, "names": fs, "defaults": {f: 0 for f in fs}, "ops": ops})
    rs = c.run_workers("w_valid.py", [dict(tests=tests[i::8]) for i in range(8)])
    traces = [t for r in rs for t in r]
    for t in traces:
        if not t["ev"]:
            raise core.MachineryError("empty history")

    def canary(t, rng):
        es = [e for e in t["ev"] if e["kind"] == "ok"]
        e = rng.choice(es)
        how = rng.randrange(3)
        bad = [x for x in t["ev"] if x["kind"] != "ok"]
        if how == 0 or (how == 1 and not bad):
            e["kind"] = "ValueError"
        elif how == 1:
            rng.choice(bad)["kind"] = "ok"
        else:
            f = rng.choice(sorted(e["got"]))
            e["got"][f] = dict(t="str", s="other") if t["cfg"]["class"] == "spec" else e["got"][f] + 1
        return t

    c.validate("ValidationTrace", traces, canary, label="histories")


# ------------------------------------------------------------------ P28
TOOL = """SPECIFICATION Spec
CONSTANTS
 Values = %s
 MaxFiles = %d
 Mode = "%s"
INVARIANTS WrittenOnlyIfAccepted TrueExtremes %s
CHECK_DEADLOCK FALSE
"""
STRINGS = ["yes", "no", "null", "~", "true", "1", "007", "1e3", "0x1F", "1.5", "a: b", "# no comment", "", " lead", "tail ", "it's",
           'say "hi"', "two\nlines", "tab\there", "üñí✓", "[1, 2]", "{a: 1}", "*star", "&amp", "!tag", "%p", "@x", "`b`", "-", "- x",
           "?", ":", "x:", "2024-01-01", "1_000", "12:30:45", ".inf", "0o17", "null null", "a" * 300, "back\\slash", ">", "|", "<<", "="]
OTHER = [0, 1, -7, 2 ** 40, 0.1, 1e-05, 1e20, -0.0, 3.0, 1e-300, True, False, None, [], {}, [1, 2.5, "x", None], [[1, 2], [3.5, 4]],
         {"a": {"b": [1, {"c": "no"}]}, "d": None}, ["yes", "1"], [0.01, 0.02], [[0.1, 1.0]], "plain", "pixels", "/some/path.npy"]
TEXT = """# a comment
seed: 0            # trailing
name: 'on'
other: "no"
block: |
  line one
    line two
folded: >
  some
  text
octal: 0o17
exp: 1e-3
exp2: 2.5E+4
under: 1_000
date: 2024-01-01
nul: ~
quoted: '1.5'
tilde: "~"
flow: [1, '2', {a: yes, b: 'y'}]
anchor: &x [3, 4]
alias: *x
dash: "- a"
"""


def p28(c):
    big = core.THOROUGH
    r = c.model("SpeedTool", TOOL % ("{1, 2, 4}" if not big else "{1, 2, 4, 7}", 2, "right", "Emit") + "PROPERTY Ends\n", workers=1,
                must_take=["Refuse", "Present", "Decline", "Accept", "Read", "Write", "Continue", "Stop"])
    for m in ("early", "zero", "last"):
        c.refute("SpeedTool", TOOL % ("{1, 2, 4}", 2, m, ""))
    scn = []
    for s in c.scenarios(r):
        if s not in scn:
            scn.append(s)

    def h5(lo=-200, hi=200, dims=None, dtype=None):
        dims = dims or c.rng.choice([3, 4])
        sh = [c.rng.randint(1, 3) for _ in range(dims - 1)]
        tall = c.rng.random() < 0.4
        if tall:  # long along one axis
            sh = [c.rng.randint(1, 2) for _ in sh]
            sh[c.rng.randrange(len(sh))] = c.rng.choice([65, 129, 257, 1030, c.rng.randint(66, 700)])
        ch = 2 if dims == 3 else c.rng.choice([2, 2, 3])
        dtype = dtype or c.rng.choice(["float32", "float64", "int32"])

        def val():
            v = c.rng.randint(lo, hi)
            return v if dtype.startswith("float") else v * 8

        def build(s):
            return [val() for _ in range(ch)] if not s else [build(s[1:]) for _ in range(s[0])]

        data = build(sh)
        flat = [data]
        for _ in sh:
            flat = [y for x in flat for y in x]
        if tall and hi - lo > 4:  # the extremes each at one place
            for v in flat:
                v[:2] = [q // 2 if dtype.startswith("float") else q // 16 * 8 for q in v[:2]]
            for ax in (0, 1):
                for e in (lo, hi):
                    c.rng.choice(flat)[ax] = e if dtype.startswith("float") else e * 8
        return dict(what="good", data=data, dtype=dtype, name=c.rng.choice(["velocity", "u", "a"]),
                    x=sorted({v[0] for v in flat}), y=sorted({v[1] for v in flat}))

    bad = lambda: dict(what=c.rng.choice(["suffix", "dir", "number", "missing"]), data=[[[8, 8]]], dtype="float32", name="u", x=[8], y=[8])

    def extra():
        d = {}
        for k in range(c.rng.randint(2, 9)):
            name = c.rng.choice(["k", "yes key ", "on", "1", "batch_size ", "a: ", "#"]) + f"{k}"
            d[name] = c.rng.choice([c.rng.choice(STRINGS), c.rng.choice(OTHER), {"s": c.rng.choice(STRINGS)}, [c.rng.choice(STRINGS)]])
        return d

    tests, ev = [], []
    keys = ["max_speed_x", "max_speed_y", "min_speed_x", "min_speed_y"]
    n = 0
    reps = 4 if big else 1

    def flush(label):
        nonlocal ev, n
        if ev:
            tests.append(dict(id=f"{label}:{n}", ev=ev))
            n += 1
        ev = []

    for s in scn:
        for _ in range(reps):
            sign = c.rng.choice([(-200, 200), (3, 90), (-90, -3), (0, 0), (-200, 200)])
            files = [h5(*sign) for _ in range(s["n"] + c.rng.randint(0, 1))]
            lst = "good"
            if not s["ok"]:
                if c.rng.random() < 0.3:
                    lst = c.rng.choice(["empty", "string", "null", "absent"])
                else:
                    files[c.rng.randrange(len(files))] = bad()
            conf = extra()
            for key in keys:
                st = s[key[:3]]
                # each half of the pair may be the one missing
                if st != "ok" and c.rng.random() < 0.3 and any(conf.get(q) == "x" or q not in conf for q in keys[:keys.index(key)] if q[:3] == key[:3]):
                    st = "ok"
                if st == "ok":
                    conf[key] = c.rng.choice([c.rng.randint(-9, 9), c.rng.randint(-99, 99) / 8])
                elif st == "invalid":
                    conf[key] = c.rng.choice(["3", None, [1], "fast", {"a": 1}])
            items = list(conf.items())
            c.rng.shuffle(items)
            a = [x if x in ("1", "2", "y", "n") else x for x in s["a"]]
            if a[0] in ("y", "n"):
                a[0] = c.rng.choice(["", "3", "yes", "11", " 1"])
            if a[1] in ("1", "2"):
                a[1] = c.rng.choice(["", "no", "x"])
            t = dict(op="panel", files=files, list=lst, config=dict(items), a=a)
            if c.rng.random() < 0.25:
                t["text"] = TEXT
                t["config"] = {k: v for k, v in conf.items() if k in keys and isinstance(v, (int, float))}
                if lst != "good":
                    t["list"], files[-1] = "good", bad()
            ev.append(t)
            if len(ev) == 8:
                flush("panel")
    flush("panel")
    # every string and value once
    allv = STRINGS + OTHER
    for j in range(0, len(allv), 12):
        conf = {f"k{k}": v for k, v in enumerate(allv[j:j + 12])}
        ev.append(dict(op="panel", files=[h5(), h5()], list="good", config=conf, a=["1", "y"]))
        ch = [["max_speed_x", "float32", 1.5], ["k1", "float64", 0.1], ["new", "int64", 7], ["arr", "array", [1.0, 2.5]],
              ["text", "str", c.rng.choice(STRINGS)], ["n", "int32", -3]]
        ev.append(dict(op="update", config=conf, change=c.rng.sample(ch, c.rng.randint(1, len(ch)))))
    ev.append(dict(op="update", config={}, text=TEXT, change=[["seed", "int64", 5]]))
    flush("values")
    for _ in range(200 if big else 40):
        sign = c.rng.choice([(-200, 200), (3, 90), (-90, -3), (-2, 2)])
        ev.append(dict(op="range", files=[h5(*sign) for _ in range(c.rng.randint(1, 4))]))
        if len(ev) == 10:
            flush("range")
    flush("range")
    rs = c.run_workers("w_speed.py", [dict(tests=tests[i::8]) for i in range(8)])
    traces = [t for r in rs for t in r]

    def canary(t, rng):
        e = rng.choice(t["ev"])
        if e["op"] == "range":
            e["got"][rng.randrange(4)] += rng.choice([-1, 1])
        elif e["op"] == "update":
            e["after"][-1][1] += "x"
        elif e["kind"] == "ok":
            if rng.random() < 0.5:
                e["got"][rng.randrange(4)] = 99998
            else:
                e["after"] = e["after"] + [["more", "1"]]
        else:
            e["kind"] = "ok"
        return t

    c.validate("SpeedToolTrace", traces, canary, label="runs")
