"""Runs the speed tool on scratch configurations with scripted answers."""

import builtins
import os

import numpy as np

import wk

wk.quiet()
import h5py  # noqa: E402
from ruamel.yaml import YAML  # noqa: E402
from synthpix import sanity  # noqa: E402

NONE = 99999
KEYS = ["max_speed_x", "max_speed_y", "min_speed_x", "min_speed_y"]
sanity.tqdm = lambda it, **k: it


def content(v):
    """Type and content of an entry; numbers as their exact text."""
    if isinstance(v, dict):
        return ["dict", sorted([k, content(x)] for k, x in v.items())]
    if isinstance(v, (list, tuple)):
        return ["list", [content(x) for x in v]]
    return [type(v).__name__, repr(v)]


def entries(path):
    with open(path, encoding="utf-8") as f:
        d = YAML(typ="safe", pure=True).load(f)
    return [[str(k), repr(content(v))] for k, v in d.items()], d


def eighths(v):
    if isinstance(v, bool) or not isinstance(v, (int, float, np.floating, np.integer)) or v * 8 != int(v * 8):
        return NONE
    return int(v * 8)


def limits(d):
    return [eighths(d[k]) if isinstance(d.get(k), (int, float)) else NONE for k in KEYS]


def listed(root, f, k):
    p = os.path.join(root, f"f{k}.h5" if f["what"] != "suffix" else f"f{k}.mat")
    if f["what"] in ("good", "suffix"):
        a = np.array(f["data"], dtype=f["dtype"])
        a = (a / 8).astype(f["dtype"]) if f["dtype"].startswith("float") else a // 8
        with h5py.File(p, "w") as g:
            g[f["name"]] = a
            if f["name"] < "u":
                g["zz_other"] = np.full((3, 3), 1e6)
    elif f["what"] == "dir":
        os.makedirs(p)
    elif f["what"] == "number":
        return 3, p
    return p, p


def run_panel(t, root):
    names = [listed(root, f, k) for k, f in enumerate(t["files"])]
    cfg = dict(t["config"])
    if t["list"] == "good":
        cfg["file_list"] = [n for n, _ in names]
    elif t["list"] != "absent":
        cfg["file_list"] = {"empty": [], "string": names[0][1], "null": None}[t["list"]]
    path = os.path.join(root, "config.yaml")
    if t.get("text"):
        # written by hand, the way a person does
        body = t["text"] + "file_list:\n" + "".join(f"- {n}\n" for n, _ in names)
        body += "".join(f"{k}: {v}\n" for k, v in t["config"].items())
        with open(path, "w", encoding="utf-8") as f:
            f.write(body)
    else:
        y = YAML(typ="safe", pure=True)
        with open(path, "w", encoding="utf-8") as f:
            y.dump(cfg, f)
    before, d = entries(path)
    raw = open(path, "rb").read()
    answers, prompts = list(t["a"]), []

    def ask(*a):
        prompts.append(a)
        return answers.pop(0) if answers else "n"

    old, builtins.input = builtins.input, ask
    pr, builtins.print = builtins.print, lambda *a, **k: None
    try:
        kind, got = wk.outcome(lambda: sanity.missing_speeds_panel(path), 30)
    finally:
        builtins.input, builtins.print = old, pr
    after, d2 = entries(path)
    if open(path, "rb").read() == raw:
        after = before
    return dict(op="panel", files=[dict(ok=f["what"] == "good", x=f["x"], y=f["y"]) for f in t["files"]],
                listok=t["list"] == "good" and bool(names), before=before, after=after, limits=limits(d),
                stored=limits(d2), a=t["a"], prompts=len(prompts), kind=kind,
                got=[eighths(v) for v in got] if kind == "ok" else [])


def run_update(t, root):
    path = os.path.join(root, "config.yaml")
    with open(path, "w", encoding="utf-8") as f:
        if t.get("text"):
            f.write(t["text"])
        else:
            YAML(typ="safe", pure=True).dump(t["config"], f)
    before, _ = entries(path)
    change = {k: getattr(np, ty)(v) if ty in ("float32", "float64", "int32", "int64") else np.array(v) if ty == "array" else v
              for k, ty, v in t["change"]}
    plain = {k: v.item() if hasattr(v, "item") and getattr(v, "ndim", 0) == 0 else v.tolist() if hasattr(v, "tolist") else v
             for k, v in change.items()}
    kind, _ = wk.outcome(lambda: sanity.update_config_file(path, change), 30)
    after, _ = entries(path)
    return dict(op="update", before=before, after=after, change=[[k, repr(content(v))] for k, v in plain.items()], kind=kind)


def run_range(t, root):
    names = [listed(root, f, k)[1] for k, f in enumerate(t["files"])]
    kind, got = wk.outcome(lambda: sanity.calculate_min_and_max_speeds(names), 30)
    return dict(op="range", files=[dict(ok=True, x=f["x"], y=f["y"]) for f in t["files"]], kind=kind,
                got=[eighths(got[k]) for k in KEYS] if kind == "ok" else [])


def run(job):
    out = []
    for n, t in enumerate(job["tests"]):
        ev = []
        for k, e in enumerate(t["ev"]):
            root = os.path.join(wk.scratch(), f"t{n}_{k}")
            os.makedirs(root)
            ev.append({"panel": run_panel, "update": run_update, "range": run_range}[e["op"]](e, root))
        out.append(dict(id=t["id"], cfg={}, ev=ev))
    return out


if __name__ == "__main__":
    wk.serve(run)
