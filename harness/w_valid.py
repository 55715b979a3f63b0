"""Histories of value objects: construction, updates, flattening."""

import wk

wk.quiet()
import jax  # noqa: E402
import jax.numpy as jnp  # noqa: E402
import numpy as np  # noqa: E402
from c_make import enc  # noqa: E402
from synthpix import types as T  # noqa: E402

SHAPES = {"images1": (2, 3), "images2": (2, 3), "flow_fields": (2, 2, 2), "done": (2,), "mask": (2,),
          "seeding_densities": (2,), "diameter_ranges": (2, 2), "intensity_ranges": (2, 2), "rho_ranges": (2, 2)}
PARAMS = ("seeding_densities", "diameter_ranges", "intensity_ranges", "rho_ranges")
FIELDS = {"batch": ["images1", "images2", "flow_fields", "done", "mask"],
          "data": ["flow_fields", "images1", "images2", "mask"], "params": list(PARAMS), "spec": None}


def value(text):
    return eval(text, {"nan": float("nan"), "inf": float("inf")})  # noqa: S307 - our own literals


def array(name, label, np_=jnp):
    return None if label == 0 else np_.full(SHAPES[name], float(label))


def label(x):
    if x is None:
        return 0
    v = {float(t) for t in np.asarray(x).ravel()}
    return int(v.pop()) if len(v) == 1 else -1


def params(v):
    # params:k labels are k, k + 1000, ...: four arrays behind one label
    return None if v == 0 else T.ImageGenerationParameters(*[array(n, v + 1000 * k) for k, n in enumerate(PARAMS)])


def params_label(p):
    if p is None:
        return 0
    ls = [label(getattr(p, n)) - 1000 * k for k, n in enumerate(PARAMS)]
    return ls[0] if len(set(ls)) == 1 else -1


def files(v):
    return None if v == 0 else tuple(f"f{v}_{k}" for k in range(2))


def files_label(f):
    if f is None:
        return 0
    return int(f[0][1:].split("_")[0]) if isinstance(f, tuple) and f == files(int(f[0][1:].split("_")[0])) else -1


def make_args(cls, v):
    if cls == "spec":
        return {k: value(t) for k, t in v.items()}
    out = {}
    for k, n in v.items():
        out[k] = params(n) if k == "params" else files(n) if k == "files" else array(k, n, np if cls == "data" else jnp)
    return out


def look(cls, o, names):
    if cls == "spec":
        return {k: enc(getattr(o, k)) for k in names}
    return {k: params_label(o.params) if k == "params" else files_label(o.files) if k == "files" else label(getattr(o, k))
            for k in names}


CLASS = {"spec": T.ImageGenerationSpecification, "batch": T.SynthpixBatch, "data": T.SchedulerData,
         "params": T.ImageGenerationParameters}


def rebuild(o, how, add):
    f = lambda x: x + add
    if how == "map":
        return jax.tree_util.tree_map(f, o)
    if how == "jit":
        return jax.jit(lambda b: jax.tree_util.tree_map(f, b))(o)
    leaves, tree = jax.tree_util.tree_flatten(o)
    return jax.tree_util.tree_unflatten(tree, [f(x) for x in leaves])


def history(t):
    cls, names = t["class"], t["names"]
    objs, ev = [], []
    for a in t["ops"]:
        e = dict(op=a["op"])
        if a["op"] == "new":
            args = make_args(cls, a["v"])
            kind, o = wk.outcome(lambda: CLASS[cls](**args))
            full = dict(t["defaults"], **a["v"])
        else:
            # an earlier accepted object; the same choice whatever was accepted
            if not objs:
                continue
            e["from"] = 1 + a["from"] % len(objs)
            src = objs[e["from"] - 1]
            if a["op"] == "update":
                args = make_args(cls, a["v"])
                kind, o = wk.outcome(lambda: src.update(**args))
                full = a["v"]
            else:
                e["add"] = a["add"]
                kind, o = wk.outcome(lambda: rebuild(src, a["how"], a["add"]))
                full = {}
            e["orig"] = look(cls, src, names)
        e["v"] = {k: enc(value(x)) for k, x in full.items()} if cls == "spec" else full
        e["kind"] = kind
        e["got"] = look(cls, o, names) if kind == "ok" else {}
        if kind == "ok":
            objs.append(o)
        ev.append(e)
    return dict(id=t["id"], cfg={"class": cls}, ev=ev)


def run(job):
    return [history(t) for t in job["tests"]]


if __name__ == "__main__":
    wk.serve(run)
