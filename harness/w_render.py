"""Renders given particles with the real code and measures the images."""

import math
import random

import numpy as np

import wk

wk.quiet()
import jax  # noqa: E402
import jax.numpy as jnp  # noqa: E402
from synthpix.data_generate import generate_images_from_flow  # noqa: E402
from synthpix.generate import img_gen_from_data  # noqa: E402
from synthpix.types import ImageGenerationSpecification  # noqa: E402

FAR = 1_000_000_000


def renderer(shape, dmax, clip):
    fn = jax.jit(lambda pos, dx, dy, a, r: img_gen_from_data(
        pos, image_shape=tuple(shape), max_diameter=dmax, diameters_x=dx, diameters_y=dy,
        intensities=a, rho=r, clip=clip))

    def go(ps, shift=(0, 0)):
        cols = zip(*[((p["y"] / 8 + shift[0], p["x"] / 8 + shift[1]), p["dx"] / 4, p["dy"] / 4, p["a"], p["k"] / 5)
                     for p in ps])
        return np.asarray(fn(*[jnp.array(c, jnp.float32) for c in cols]), np.float64)
    return go


def particle(r, c, out=0):
    h, w = c["shape"]
    at = r.choice(["in", "in", "edge", "any"])

    def place(n):
        if at == "in":
            return r.randrange(0, 8 * n)
        if at == "edge":
            return r.choice([r.randrange(-32, 33), 8 * n - 8 + r.randrange(-32, 33)])
        return r.randrange(-80, 8 * n + 80)
    d = lambda: r.randint(c["dmin"], c["dmax"])  # noqa: E731
    dx = d()
    dy = dx if r.random() < 0.2 else d()
    p = dict(y=place(h), x=place(w), dx=dx, dy=dy, k=r.choice([0, 0, 1, 2, 3, 4, -1, -2, -3, -4]),
             a=r.choice([0.5, 1.0, 37.5, 200.0, 255.0]))
    if out:  # nothing of it can be seen
        far = 8 * (2 * c["dmax"] // 4 + 6)
        p[r.choice("xy")] = r.choice([-far - r.randrange(200), 8 * max(h, w) + far + r.randrange(200)])
    return p


def pixels(img, p, dmax):
    out, far = [], 0
    reach = 8 * (math.ceil(1.5 * dmax / 4) + 3)
    for (i, j), v in np.ndenumerate(img):
        x, y = 8 * j - p["x"], 8 * i - p["y"]
        if max(abs(x), abs(y)) > reach:
            far += v != 0
            continue
        q = v / p["a"]
        if v == 0:
            L = -1
        elif not q > 0 or not math.isfinite(q):
            L = FAR
        else:
            L = -2 if q < 1e-6 else int(round(-1000 * math.log(q)))
        out.append([i, j, L])
    if far:
        out.append([0, 0, FAR])
    return out


def off(a, b):
    if a.shape != b.shape or not np.isfinite(a).all():
        return FAR
    top = max(1.0, np.abs(a).max(), np.abs(b).max())
    return int(min(FAR, round(1e6 * np.abs(a - b).max() / top)))


def pipeline(seed, shape, ranges):
    """Batches of pairs drawn with the listed diameter ranges; nothing moves."""
    sp = ImageGenerationSpecification(
        batch_size=8, image_shape=tuple(shape), img_offset=(0, 0), seeding_density_range=(0.01, 0.01),
        p_hide_img1=0.0, p_hide_img2=0.0, diameter_ranges=[(a / 4, b / 4) for a, b in ranges], diameter_var=0.0,
        intensity_ranges=[(100.0, 100.0)], intensity_var=0.0, rho_ranges=[(-0.2, 0.3)], rho_var=0.0)
    a, b, par = generate_images_from_flow(
        jax.random.PRNGKey(seed), jnp.zeros((1, *shape, 2)), sp, position_bounds=tuple(shape))
    return np.asarray(a, np.float64), np.asarray(b, np.float64), np.asarray(par.diameter_ranges, np.float64)


def ranges(t):
    """The samples of the widest range do not depend on the others listed."""
    c, ev = t["cfg"], []
    for lst in c["lists"]:
        top = max(lst, key=lambda q: q[1])

        def go():
            a1, a2, ra = pipeline(c["seed"], c["shape"], lst)
            b1, b2, rb = pipeline(c["seed"], c["shape"], [top] * len(lst))
            same = [k for k in range(8) if (ra[k] * 4 == top).all()]
            if not (rb * 4 == top).all():
                return dict(off=FAR)
            return dict(off=max([0] + [off(x[k], y[k]) for k in same for x, y in ((a1, b1), (a2, b2))]), n=len(same))
        e = dict(op="ranges", kind="ok", shape=1, off=0, n=0, dmax=1, p=0, px=[])
        e["kind"], v = wk.outcome(go, 120)
        e.update(v if e["kind"] == "ok" else {})
        ev.append(e)
    return dict(id=t["id"], cfg={}, ev=ev)


def play(t):
    if "lists" in t["cfg"]:
        return ranges(t)
    c, r = t["cfg"], random.Random(t["cfg"]["seed"])
    shape = c["shape"]
    raw = renderer(shape, c["dmax"] / 4, False)
    clipped = renderer(shape, c["dmax"] / 4, True)
    big = renderer([shape[0] + 32, shape[1] + 32], c["dmax"] / 4, False)
    ev = []

    def event(op, ps, fn):
        e = dict(op=op, kind="ok", shape=1, off=0, dmax=c["dmax"], p=ps[0], px=[])
        e["kind"], v = wk.outcome(fn, 60)
        if e["kind"] == "ok":
            e.update(v)
        e["p"] = {k: v for k, v in e["p"].items() if k != "a"}
        ev.append(e)

    def one():
        img = raw([p])
        if img.shape != tuple(shape):
            return dict(shape=0)
        return dict(px=pixels(img, p, c["dmax"]))
    for _ in range(c["n"]):
        p = particle(r, c)
        event("one", [p], one)
    for _ in range(c["m"]):
        ps = [particle(r, c) for _ in range(c["group"])]
        sh = r.choice([(1, 0), (0, 1), (-2, 3), (4, -1)])
        dark = [dict(p, a=p["a"] * (k % 2)) for k, p in enumerate(ps)]
        far = [particle(r, c, out=1) for _ in ps]
        perm = r.sample(ps, len(ps))
        a, b = max(0, sh[0]), max(0, sh[1])
        h, w = shape[0] - abs(sh[0]), shape[1] - abs(sh[1])

        def cut(img, y, x):
            return img[y: y + max(h, 0), x: x + max(w, 0)]
        event("sum", ps, lambda: dict(off=off(raw(ps), sum(raw([p]) for p in ps))))
        event("order", ps, lambda: dict(off=off(raw(ps), raw(perm))))
        if h > 0 and w > 0:
            event("shift", ps, lambda: dict(
                off=off(cut(raw(ps, sh), a, b), cut(raw(ps), a - sh[0], b - sh[1]))))
        event("outside", ps, lambda: dict(off=off(raw(far), np.zeros(shape))))
        event("dark", ps, lambda: dict(off=off(raw(dark), sum(raw([p]) for p in ps[1::2]))))
        event("part", ps, lambda: dict(
            off=off(raw(ps), big(ps, (16, 16))[16: 16 + shape[0], 16: 16 + shape[1]])))
        event("clip", ps, lambda: dict(off=off(clipped(ps), np.clip(raw(ps), 0, 255))))
    return dict(id=t["id"], cfg={}, ev=ev)


if __name__ == "__main__":
    wk.serve(lambda job: [play(t) for t in job["tests"]])
