"""Runs the numeric kernels on inputs that are exact in binary and records exact integers."""

from fractions import Fraction

import numpy as np

import wk

wk.quiet()
import jax  # noqa: E402
import jax.numpy as jnp  # noqa: E402
from synthpix import apply, utils  # noqa: E402


def ints(a, k):
    """Array times k in whole numbers; a sentinel for anything else than a number."""
    a = np.asarray(a, np.float64) * k
    if not np.isfinite(a).all() or np.abs(a).max(initial=0) > 1e8:
        return np.where(np.isfinite(a), np.clip(a, -1e8, 1e8), 1e8).round().astype(int).tolist()
    return a.round().astype(int).tolist()


def f(q):
    return float(Fraction(*q))


def particles(e):
    p = jnp.asarray(np.array(e["p"], np.float32) / e["Q"])
    g = jnp.asarray(np.stack([np.array(c, np.float32) for c in e["g"]], -1))
    x, y, z = (f(r) for r in (e["r"] + [[1, 1]])[:3])
    kw = dict(dt=f(e["dt"]), flow_field_res_x=x, flow_field_res_y=y)
    if e["dim"] == 3:
        kw["flow_field_res_z"] = z
    fn = apply.apply_flow_to_particles
    if e.get("jit"):
        fn = jax.jit(fn)
    return ints(fn(p, g, **kw), e["pow"] * e["rd"] * e["dd"])


def interp(e):
    p = np.array(e["p"], np.float32) / e["Q"]
    cols = [jnp.asarray(p[:, k].reshape(e["rows"], -1)) for k in range(e["dim"])][::-1]
    fn = utils.bilinear_interpolate if e["dim"] == 2 else utils.trilinear_interpolate
    out = [np.asarray(fn(jnp.asarray(np.array(c, np.float32)), *cols)).ravel() for c in e["g"]]
    return ints(np.stack(out, -1), e["pow"])


def warp(e):
    Q, dt = e["Q"], f(e["dt"])
    im = jnp.asarray(np.array(e["im"], np.float32))
    if e["mode"] == "callable":
        def vel(c, t, x, y):
            return (c[0] + c[1] * x + c[2] * y + c[3] * t + c[4] * jnp.where(x > c[5], 1, 0)) / e["vq"]

        fn = lambda t, x, y: (vel(e["cu"], t, x, y), vel(e["cv"], t, x, y))
        kw = {} if e["defaults"] else dict(t=float(e["t"]), dt=dt, forward=bool(e["fwd"]))
        return ints(apply.apply_flow_to_image_callable(im, fn, **kw), Q * Q)
    flow = jnp.asarray(np.stack([np.array(e[k], np.float32) for k in "uv"], -1) / np.float32(Q * dt))
    fn = apply.apply_flow_to_image_forward if e["mode"] == "forward" else apply.apply_flow_to_image_backward
    if e["mode"] == "backward" and dt == 1 and e["defaults"]:
        return ints(fn(im, flow), Q * Q)
    return ints(fn(im, flow, dt), Q * Q)


def histogram(e):
    """e gives pixels in quarters; counts of the target."""
    im = np.array(e["pix"], np.float64) / 4
    im = im.astype(e["dtype"])
    h = np.zeros(256, np.float32 if e["hf"] else np.int32)
    for lv, n in e["tgt"]:
        h[lv] = n
    fn = jax.jit(utils.match_histogram) if e["jit"] else utils.match_histogram
    out = fn(jnp.asarray(im), jnp.asarray(h))
    o = np.asarray(out)
    form = o.shape == im.shape and o.dtype == im.dtype and isinstance(out, jax.Array)
    return *tally(im, o), int(form)


def tally(im, o):
    """Which levels the pixels of each level were given, and the levels of im."""
    pairs, src = {}, {}
    for a, b in zip(np.floor(im).astype(int).ravel().tolist(), o.astype(np.float64).ravel().tolist()):
        src[a] = src.get(a, 0) + 1
        b = int(b) if float(b).is_integer() else 999
        pairs[a, b] = pairs.get((a, b), 0) + 1
    return [[*k, n] for k, n in sorted(pairs.items())], sorted(map(list, src.items()))


def pipeline(e):
    """Images generated with and without a histogram: one event per image."""
    from synthpix.data_generate import generate_images_from_flow
    from synthpix.types import ImageGenerationSpecification

    h, w = e["shape"]
    spec = ImageGenerationSpecification(
        batch_size=e["B"], image_shape=(h, w), img_offset=(4, 4), seeding_density_range=(0.1, 0.1),
        noise_uniform=float(e["noise"]), noise_gaussian_mean=float(e["mean"]), noise_gaussian_std=2.0)
    hist = np.zeros(256, np.float32)
    for lv, n in e["tgt"]:
        hist[lv] = n
    y = np.arange(h * w).reshape(h, w)
    mask = jnp.asarray((y % 3 > 0).astype(np.float32)) if e["mask"] else None
    flow = jnp.ones((1, h + 8, w + 8, 2)) * 1.5

    def gen(hh):
        fn = jax.jit(lambda k, v: generate_images_from_flow(
            k, v, spec, position_bounds=(h + 8, w + 8), mask=mask, histogram=hh)[:2])
        return [np.asarray(x) for x in fn(jax.random.PRNGKey(e["key"]), flow)]

    out = []
    kind, v = wk.outcome(lambda: (gen(None), gen(jnp.asarray(hist))), 120)
    if v is None:
        return [dict(what="histogram", kind=kind, out=[], src=[], tgt=e["tgt"], form=0, whole=0)]
    for a, b in zip(*v):
        for p, q in zip(a, b):
            pairs, src = tally(p, q)
            out.append(dict(what="histogram", kind="ok", out=pairs, src=src, tgt=e["tgt"], whole=0,
                            form=int(p.shape == q.shape and p.dtype == q.dtype)))
    return out


def adapter(e):
    fl = jnp.asarray(np.stack([np.stack([np.array(c, np.float32) for c in x], -1) for x in e["f"]]))
    a = e["args"]
    kw = dict(
        new_flow_field_shape=tuple(a["new"]), image_shape=tuple(a["image"]), img_offset=tuple(f(x) for x in a["ioff"]),
        resolution=f(a["res"]), res_x=f(a["rx"]), res_y=f(a["ry"]), position_bounds=tuple(a["pb"]),
        position_bounds_offset=tuple(f(x) for x in a["pbo"]), batch_size=a["B"], output_units=a["units"],
        dt=f(a["dt"]), zero_padding=tuple(a["pad"]))
    fn = utils.flow_field_adapter
    if e["jit"]:
        fn = jax.jit(lambda v: utils.flow_field_adapter(v, **kw))
        out, box = fn(fl)
    else:
        out, box = fn(fl, **kw)
    tr = lambda v: ints(np.moveaxis(np.asarray(v), -1, 1), e["S"])
    return tr(out), tr(box)


def one(e):
    kind = e["what"]
    if kind == "histogram":
        k, v = wk.outcome(lambda: histogram(e), 120)
        e["kind"] = k
        e["out"], src, e["form"] = v if v else ([], [], 0)
        if v:
            e["src"] = src
        e.pop("pix")
    elif kind == "adapter":
        e["kind"], v = wk.outcome(lambda: adapter(e), 120)
        e["out"], e["bout"] = v if v else ([], [])
    else:
        fn = {"particles": particles, "interp": interp, "warp": warp}[kind]
        e["kind"], v = wk.outcome(lambda: fn(e), 120)
        e["out"] = v if v is not None else []
    return e


def run(job):
    out = []
    for t in job["tests"]:
        ev = []
        for e in t["ev"]:
            ev += pipeline(e) if e["what"] == "pipeline" else [one(e)]
        out.append(dict(id=t["id"], cfg={}, ev=ev))
    return out


if __name__ == "__main__":
    wk.serve(run)
