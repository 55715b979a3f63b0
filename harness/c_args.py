"""Checks P33: which arguments are accepted."""

import core
from c_image import gather

MODEL = """SPECIFICATION Spec
CONSTANTS
 N = 4
 Skip = %d
 Early = %s
INVARIANT Sound
PROPERTY Complete
CHECK_DEADLOCK FALSE
"""
BOOLS = ["True", "False", "1", "0", "'yes'", "None", "[]"]
INTS = ["1", "2", "4", "5", "0", "-1", "1.0", "2.5", "'2'", "None", "nan", "[1]"]
FLOATS = ["1", "0.5", "2.0", "1000", "0", "0.0", "-1", "-0.5", "'1'", "None", "[1.0]"]
NUMS = ["0", "0.0", "-1", "2", "0.5", "'1'", "None"]
PAIRS_I = ["(3, 2)", "(1, 1)", "(20, 21)", "(0, 2)", "(2, 0)", "(-1, 2)", "(2.0, 3)", "[3, 2]", "(3,)", "(3, 2, 2)", "3", "None", "()", "('3', 2)"]
PAIRS_N = ["(0, 0)", "(0.0, 1.5)", "(2, 3)", "(-1, 0)", "(0, -0.5)", "[0, 0]", "(0,)", "(0, 0, 0)", "1", "None", "('0', 0)"]
PAIRS_P = ["(1.0, 2)", "(0.5, 0.5)", "(0, 1)", "(1, 0.0)", "(-1, 2)", "[1, 2]", "(1,)", "(1, 2, 3)", "2", "None", "('1', 2)"]
FILES = ["['@a']", "['@a', '@b']", "['@b', '@a', '@b']", "['@dir']", "['@dir', '@a']", "['@empty']", "['@empty', '@a']", "[]",
         "['@none']", "['@a', '@none']", "['@wrong']", "['@a', '@wrong']", "'@a'", "('@a',)", "None", "[1]", "['@a', 2]",
         "['@bare']", "['@a', '@bare']"]
SCHED = ["'@plain'", "'@images'", "'@episodic'", "'@prefetch'", "'@both'", "'@blindepisodic'", "'@blindprefetch'", "'@blindboth'",
         "'@thing'", "None"]
UNITS = ["'pixels'", "'measure units per second'", "'measure units'", "'Pixels'", "''", "None", "1"]
FLOW4 = ["A(1, 4, 5, 2)", "A(3, 1, 1, 2)", "A(2, 4, 5, 3)", "A(4, 5, 2)", "A(1, 2, 4, 5, 2)", "N(1, 4, 5, 2)", "None", "[[1.0]]"]
MASKS = ["None", "A(8, 10)", "A(10, 8)", "A(8, 11)", "A(8, 10, 1)", "A(80)"]
HISTS = ["None", "H(256, 80)", "H(256, 79)", "H(256, 0)", "H(255, 80)", "H(257, 80)", "A(1, 256)"]
# default first
CALLS = {
    "h5": dict(file_list=[x for x in FILES if "bare" not in x], randomize=["False"] + BOOLS, loop=["True"] + BOOLS),
    "npy": dict(file_list=FILES, randomize=["False"] + BOOLS, loop=["False"] + BOOLS, include_images=["False"] + BOOLS),
    "mat": dict(file_list=[x for x in FILES if "bare" not in x], randomize=["False"] + BOOLS, loop=["True"] + BOOLS,
                include_images=["False"] + BOOLS, output_shape=PAIRS_I),
    "episodic": dict(scheduler=["'@plain'", "'@images'", "'@thing'", "None"], batch_size=INTS, episode_length=["2", "3"] + INTS),
    "prefetch": dict(batch_size=INTS, buffer_size=INTS, startup_timeout=FLOATS, steady_state_timeout=FLOATS),
    "real": dict(scheduler=["'@images'"] + SCHED, batch_size=["4"] + INTS),
    "synthetic": dict(
        scheduler=SCHED, batches_per_flow_batch=INTS, flow_fields_per_batch=["1", "3"] + INTS,
        flow_field_size=["(24.0, 26.0)", "(24, 26)", "[24, 26]", "(0, 26)", "(24, -1)", "('24', 26)"],
        resolution=["1.0", "1", "0", "-1", "-0.5", "'1'", "None"],
        velocities_per_pixel=["1", "0.5", "2", "0.125", "0.1", "0", "-1", "'1'", "None"],
        seed=["0", "1", "7", "-1", "1.0", "'1'", "None"], max_speed_x=["1.0", "2", "0", "0.5", "-1", "'1'", "None"],
        max_speed_y=["1.0", "2", "0", "0.5", "-1", "'1'", "None"], min_speed_x=["-1.0", "0", "1", "0.5", "'1'", "None", "1.5"],
        min_speed_y=["-1.0", "0", "1", "0.5", "'1'", "None", "1.5"], output_units=UNITS,
        mask_images=MASKS, histogram=HISTS, device_ids=["None", "[0]", "[]", "[7]", "[0, 0]"]),
    "adapter": dict(
        flow_field=FLOW4, new_flow_field_shape=PAIRS_I, image_shape=PAIRS_I, img_offset=PAIRS_N, resolution=FLOATS, res_x=FLOATS,
        res_y=FLOATS, position_bounds=PAIRS_P, position_bounds_offset=PAIRS_N, batch_size=INTS, output_units=UNITS, dt=FLOATS,
        zero_padding=["(0, 0)", "(1, 2)", "(-1, 0)", "(0.0, 1)", "[0, 0]", "(0,)", "(0, 0, 0)", "0", "None"]),
    "apply": dict(
        particle_positions=["A(5, 2)", "A(1, 3)", "A(0, 2)", "A(5, 4)", "A(5, 1)", "A(2)", "A(1, 5, 2)", "N(5, 2)", "None", "[[1, 2]]"],
        flow_field=["A(4, 5, 2)", "A(4, 5, 3)", "A(4, 5)", "A(4, 5, 1)", "A(1, 4, 5, 2)", "N(4, 5, 2)", "None"],
        dt=["1.0", "0", "-1", "2", "'1'", "None", "[1]"], flow_field_res_x=FLOATS, flow_field_res_y=FLOATS, flow_field_res_z=FLOATS),
    "generate": dict(
        flow_field=FLOW4, position_bounds=["(10, 13)", "(20, 20)", "[10, 13]", "(9, 13)", "(10, 12)", "(10.0, 13)", "(0, 13)", "(10, -1)",
                                           "(10,)", "(10, 13, 1)"],
        flow_field_res_x=FLOATS, flow_field_res_y=FLOATS, mask=MASKS, histogram=HISTS),
}


def plan(rng, big):
    """Every value of every argument alone and with random others; pairs."""
    calls = []
    for fn, args in CALLS.items():
        base = {k: v[0] for k, v in args.items()}
        mine = [dict(base)]
        for k, vs in args.items():
            for v in dict.fromkeys(vs):
                mine.append({**base, k: v})
                if big or rng.random() < 0.5:
                    k2 = rng.choice(sorted(args))
                    mine.append({**base, k2: rng.choice(args[k2]), k: v})
        if fn == "apply":
            for p in args["particle_positions"]:
                for f in args["flow_field"]:
                    mine.append({**base, "particle_positions": p, "flow_field": f})
        for _ in range(120 if big else 12):
            mine.append({k: rng.choice(vs[:3]) for k, vs in args.items()})
        calls += [[fn, a] for a in mine]
    rng.shuffle(calls)
    return calls


def p33(c):
    c.model("Arguments", MODEL % (0, "FALSE"), must_take=["Check", "Build"])
    c.refute("Arguments", MODEL % (2, "FALSE"))
    c.refute("Arguments", MODEL % (0, "TRUE"))
    calls = plan(c.rng, core.THOROUGH)
    tests = [dict(id=f"calls{k}", calls=calls[k::35]) for k in range(35)]
    tr = gather(c, "w_args.py", tests)
    kinds = {}
    for t in tr:
        for e in t["ev"]:
            kinds.setdefault(e["fn"], set()).add(e["kind"] == "ok")
    if any(v != {True, False} for v in kinds.values()):
        raise core.MachineryError(f"calls not diverse: {kinds}")

    def canary(t, rng):
        e = rng.choice(t["ev"])
        e["kind"] = "ValueError" if e["kind"] == "ok" else "ok"
        return t
    c.validate("ArgumentsTrace", tr, canary, label="calls")
