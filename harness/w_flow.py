"""Flow functions sampled, followed by particles and used in warps, for real."""

import wk

wk.quiet()
import jax.numpy as jnp  # noqa: E402
import numpy as np  # noqa: E402
from synthpix.apply import (  # noqa: E402
    apply_flow_to_image_backward, apply_flow_to_image_callable, apply_flow_to_image_forward, apply_flow_to_particles)
from synthpix.utils import generate_array_flow_field  # noqa: E402


def function(cu, cv):
    def value(c, t, x, y):
        return (c[0] + c[1] * x + c[2] * y + c[3] * t + c[4] * x * y + c[5] * (x > c[6])) / 2

    return lambda t, x, y: (value(cu, t, x, y), value(cv, t, x, y))


def ints(x, f=1):
    """Exact integers, or a value no specification allows."""
    r = np.asarray(x, np.float64) * f
    ok = np.abs(r - np.round(r)) < 1e-3
    return np.where(ok & (np.abs(r) < 1e8), np.round(r), 99999999).astype(int).tolist()


def one(e):
    f = function(e["cu"], e["cv"])
    shape = (e["h"], e["w"])
    a = generate_array_flow_field(f, shape)
    if e["op"] == "sample":
        return dict(out=ints(a, 2))
    if e["op"] == "move":
        p = np.array([[y, x] for y in range(e["h"]) for x in range(e["w"])], np.float32)
        q = np.asarray(apply_flow_to_particles(jnp.asarray(p), a, dt=float(e["dt"])))
        d = ints(q - p, 2)
        return dict(out=[[int(x), int(y), dx, dy] for (y, x), (dy, dx) in zip(p, d)])
    im = jnp.asarray(np.random.default_rng(e["seed"]).integers(0, 200, shape), e["dtype"])
    dt = e["dt"] / 8
    g = (apply_flow_to_image_forward if e["fwd"] else apply_flow_to_image_backward)(im, a, dt)
    h = apply_flow_to_image_callable(im, f, t=1.0, dt=dt, forward=bool(e["fwd"]))
    d = np.abs(np.asarray(g, np.float64) - np.asarray(h, np.float64))
    if e["dtype"] == "float16":  # how much of the computation is done with half floats is left open
        d, same = d / 15, all(jnp.issubdtype(x.dtype, jnp.floating) for x in (g, h))
    else:
        same = g.dtype == h.dtype
    return dict(off=int(min(1e8, 1000 * d.max())) if g.shape == h.shape == shape and same and np.isfinite(d).all() else 10**8)


def run(job):
    out = []
    for t in job["tests"]:
        for e in t["ev"]:
            kind, r = wk.outcome(lambda: one(e), 60)
            e.update(dict(dict(out=[], off=0), **(r or {})), kind=kind)
        out.append(dict(id=t["id"], cfg={}, ev=t["ev"]))
    return out


if __name__ == "__main__":
    wk.serve(run)
