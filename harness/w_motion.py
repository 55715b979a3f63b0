"""Measures the motion of single particles in real sampled pairs."""

import math

import numpy as np

import wk

wk.quiet()
from scipy import ndimage  # noqa: E402
from synthpix.sampler import SyntheticImageSampler  # noqa: E402
from synthpix.types import ImageGenerationSpecification  # noqa: E402
from w_image import One, clampi, fit  # noqa: E402


def look(img):
    """(number of separate patterns, the pattern if it is the only one and can be measured)."""
    lab, n = ndimage.label(img > 1e-3, structure=np.ones((3, 3)))
    return n, fit(img) if n == 1 else None


def room(q, shape):
    """How far the centre of a pattern is from the nearest border of the image."""
    return min(q["x"], shape[1] - 1 - q["x"], q["y"], shape[0] - 1 - q["y"])


def same(a, b):
    return (abs(a["dx"] - b["dx"]) < 0.02 and abs(a["dy"] - b["dy"]) < 0.02
            and abs(a["rho"] - b["rho"]) < 0.02 and abs(a["peak"] - b["peak"]) < 0.02 * a["peak"])


def at(f, y, x):
    """Bilinear value of f (h, w, 2) at index position (y, x)."""
    h, w = f.shape[:2]
    y, x = min(max(y, 0.0), h - 1.0), min(max(x, 0.0), w - 1.0)
    y0, x0 = min(int(y), max(h - 2, 0)), min(int(x), max(w - 2, 0))
    y1, x1 = min(y0 + 1, h - 1), min(x0 + 1, w - 1)
    a, b = y - y0, x - x0
    return ((1 - a) * (1 - b) * f[y0, x0] + (1 - a) * b * f[y0, x1]
            + a * (1 - b) * f[y1, x0] + a * b * f[y1, x1])


def field(c):
    """Stored flows: affine in the position, in length units per second."""
    h, w = c["grid"]
    Y, X = np.meshgrid(np.arange(h) / c["g"][1], np.arange(w) / c["g"][0], indexing="ij")
    out = np.zeros((len(c["flows"]), h, w, 2), np.float32)
    for j, f in enumerate(c["flows"]):
        for k, key in enumerate("uv"):
            a, b, d = (x / 1000 for x in f[key])
            out[j, ..., k] = (a + b * X + d * Y) / (c["res"] * c["dt"])
    return out


def build(c):
    res, dt = c["res"], c["dt"]
    flow = field(c)
    hi = [max(0.0, float(flow[..., k].max())) for k in (0, 1)]
    lo = [min(0.0, float(flow[..., k].min())) for k in (0, 1)]
    if c["exact"]:  # margins of whole pixels
        hi = [v / (res * dt) for v in c["top"]]
        lo = [-v for v in hi]
    else:
        hi, lo = [v + 1e-4 for v in hi], [v - 1e-4 for v in lo]
    area = (c["px"][0] + (hi[1] - lo[1]) * dt * res) * (c["px"][1] + (hi[0] - lo[0]) * dt * res)
    spec = ImageGenerationSpecification(
        batch_size=c["B"], image_shape=tuple(c["px"]), img_offset=(c["off"][1] / res, c["off"][0] / res),
        seeding_density_range=(1.5 / area, 1.5 / area * c["spread"]), p_hide_img1=c["hide"], p_hide_img2=0.0,
        diameter_ranges=[(1.6, 2.0)], diameter_var=0.0, intensity_ranges=[(60.0, 200.0)], intensity_var=0.0,
        rho_ranges=[(-0.4, 0.4)], rho_var=0.0, dt=dt)
    return SyntheticImageSampler(
        One(flow), c["calls"], len(c["flows"]), tuple(v / res for v in c["size"]), res, c["vpp"], c["seed"],
        hi[0], hi[1], lo[0], lo[1], c["units"], generation_specification=spec)


def run(job):
    out = []
    for t in job["tests"]:
        c = t["cfg"]
        ev = []
        k, s = wk.outcome(lambda: build(c), 100)
        if k != "ok":
            ev.append(dict(see="", kind=k, k=0, p1=[0, 0], p2=[0, 0], r=[0, 0]))
        for _ in range(c["calls"] if k == "ok" else 0):
            k, b = wk.outcome(lambda: next(s), 200)
            if k != "ok":
                ev.append(dict(see="", kind=k, k=0, p1=[0, 0], p2=[0, 0], r=[0, 0]))
                break
            i1, i2, fl = (np.asarray(x, np.float64) for x in (b.images1, b.images2, b.flow_fields))
            for j in range(len(i1)):
                (m, p), (n, q) = look(i1[j]), look(i2[j])
                e = dict(see="", kind="ok", k=j, p1=[0, 0], p2=[0, 0], r=[0, 0])
                p, q = [x if x and room(x, i1[j].shape) >= c["margin"] else None for x in (p, q)]
                if p:
                    e["p1"] = [clampi(1000 * p["x"]), clampi(1000 * p["y"])]
                    r = at(fl[j], p["y"] * c["vpp"], p["x"] * c["vpp"])
                    e["r"] = [clampi(1000 * r[0]), clampi(1000 * r[1])]
                if q:
                    e["p2"] = [clampi(1000 * q["x"]), clampi(1000 * q["y"])]
                if p and q and same(p, q):
                    e["see"] = "both"
                elif p and q and c["spread"] == 1 and min(room(x, i1[j].shape) for x in (p, q)) >= 3.5:
                    e["see"] = "changed"
                elif p and n == 0:
                    e["see"] = "first"
                elif q and m == 0 and c["hide"] == 0:
                    e["see"] = "second"
                if e["see"]:
                    ev.append(e)
        sn, sd = (c["res"] * c["dt"]).as_integer_ratio() if c["units"] != "pixels" else (1, 1)
        slack = max(1000 * abs(1 / c["vpp"] - 1 / g) for g in c["g"])
        loc = 0 if c["exact"] else 1000
        out.append(dict(id=t["id"], ev=ev, cfg=dict(
            flows=c["flows"], off=[1000 * v for v in c["off"]], sn=sn, sd=sd, slack=math.ceil(slack * 1.1),
            loc=loc, least=c["least"], px=[1000 * c["px"][1], 1000 * c["px"][0]])))
    return out


if __name__ == "__main__":
    wk.serve(run)
