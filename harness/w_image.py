"""Generates real image batches and measures them."""

import math

import numpy as np

import wk

wk.quiet()
import jax  # noqa: E402
import jax.numpy as jnp  # noqa: E402
from synthpix.data_generate import generate_images_from_flow  # noqa: E402
from synthpix.sampler import SyntheticImageSampler  # noqa: E402
from synthpix.types import ImageGenerationSpecification, SchedulerData  # noqa: E402

BIG = 2_000_000_000


def clampi(v):
    v = float(v)
    return BIG if math.isnan(v) or v > BIG else -BIG if v < -BIG else int(round(v))


def fit(img, expect=1):
    """Parameters of the only Gaussian in a noise-free image, or None.

    The logarithm of a Gaussian is a quadratic form, so the fit is exact.
    """
    img = np.asarray(img, np.float64)
    if img.max() <= 0:
        return None
    y0, x0 = np.unravel_index(img.argmax(), img.shape)
    ys, xs = np.nonzero(img > max(img.max() * 2e-3, 1e-3))
    if len(ys) < 7 or ys.max() - ys.min() > 14 or xs.max() - xs.min() > 14:
        return None
    y, x = ys - y0, xs - x0
    v = img[ys, xs]
    A = np.stack([np.ones_like(y), y, x, y * y, x * x, x * y], 1).astype(float)
    co, *_ = np.linalg.lstsq(A * v[:, None], np.log(v) * v, rcond=None)
    if np.abs(np.exp(A @ co) - v).max() > 0.01 * v.max():
        return None
    a, b, c, p, q, r = co
    # exponent = -1/2 * (d - m)' S^-1 (d - m), S^-1 = [[-2q, -r], [-r, -2p]] in (x, y)
    S1 = np.array([[-2 * q, -r], [-r, -2 * p]])
    if np.linalg.det(S1) <= 0:
        return None
    S = np.linalg.inv(S1)
    if S[0, 0] <= 0 or S[1, 1] <= 0:
        return None
    m = S @ np.array([c, b])
    top = a + 0.5 * m @ S1 @ m
    return dict(x=float(x0 + m[0]), y=float(y0 + m[1]), dx=2 * math.sqrt(S[0, 0]),
                dy=2 * math.sqrt(S[1, 1]), rho=S[0, 1] / math.sqrt(S[0, 0] * S[1, 1]),
                peak=math.exp(top))


def flow_of(c):
    h, w = c["grid"]
    f = np.zeros((c["flows"], h, w, 2), np.float32)
    if c["move"]:
        for j in range(c["flows"]):
            f[j, ..., 0], f[j, ..., 1] = 1.5 + j, -1.0 - j
    return f


def spec_of(c):
    return ImageGenerationSpecification(
        batch_size=c["B"], image_shape=tuple(c["shape"]), img_offset=tuple(c["offset"]),
        seeding_density_range=tuple(c["density"]), p_hide_img1=c["hide1"] / 100,
        p_hide_img2=c["hide2"] / 100, diameter_ranges=[tuple(x) for x in c["dia"]],
        diameter_var=c["dvar"], intensity_ranges=[tuple(x) for x in c["int"]],
        intensity_var=c["ivar"], rho_ranges=[tuple(x) for x in c["rho"]], rho_var=c["rvar"],
        dt=c["dt"], noise_uniform=c["nu"], noise_gaussian_mean=c["nm"], noise_gaussian_std=c["ns"],
    )


def mask_of(c):
    if not c["mask"]:
        return None
    m = np.ones(c["shape"], np.float32)
    r = np.random.default_rng(c["mask"])
    m[r.random(m.shape) < 0.3] = 0
    m[: m.shape[0] // 4, : m.shape[1] // 3] = 0
    return m


def hist_of(c):
    if not c["hist"]:
        return None
    n = c["shape"][0] * c["shape"][1]
    h = np.zeros(256, np.float32)
    r = np.random.default_rng(c["hist"])
    if c["hist"] % 2:
        h[:] = n // 256
        h[-1] += n - h.sum()
    else:
        k = r.choice(256, 6, replace=False)
        h[k] = n // 6
        h[k[0]] += n - h.sum()
    return h


def which(row, ranges):
    for k, x in enumerate(ranges):
        if abs(row[0] - x[0]) < 1e-3 and abs(row[1] - x[1]) < 1e-3:
            return k + 1
    return 0


class One:
    """The only flow scheduler needed here."""

    def __init__(self, flow):
        self.flow = flow
        self.file_list = ["x"]

    def get_flow_fields_shape(self):
        return tuple(self.flow.shape[1:])

    def get_batch(self, n):
        return SchedulerData(flow_fields=self.flow[np.arange(n) % len(self.flow)],
                             mask=np.ones(n, bool), files=("x",) * n)

    def reset(self):
        pass

    def shutdown(self):
        pass


def generator(c):
    """A function from a number to (images1, images2, parameters)."""
    spec, m, h = spec_of(c), mask_of(c), hist_of(c)
    m = None if m is None else jnp.array(m)
    h = None if h is None else jnp.array(h)
    flow = flow_of(c)
    if c["via"] == "sampler":
        s = SyntheticImageSampler(
            One(flow), 1, c["flows"], tuple(float(x) for x in c["grid"]), 1.0, 1, c["seed"],
            *[c["speed"]] * 2, *[-c["speed"]] * 2, "pixels", generation_specification=spec, mask_images=m, histogram=h)

        def nxt(_):
            b = next(s)
            return b.images1, b.images2, b.params
        return nxt
    fn = jax.jit(lambda k, f: generate_images_from_flow(
        k, f, spec, position_bounds=tuple(c["bounds"]), mask=m, histogram=h))
    f = jnp.array(flow)
    return lambda i: fn(jax.random.PRNGKey(c["seed"] + i), f)


def particles(img, d, i, r):
    return float(np.asarray(img, np.float64).sum() / (2 * math.pi * (d / 2) ** 2 * i * math.sqrt(1 - r * r)))


def fields():
    return dict(kind="ok", shape=1, finite=1, lo=0, hi=0, masked=0, dens=0, dia=1, int=1, rho=1,
                n1=-1, n2=-1, sum1=0, sum2=0, diff=0, blank1=0, blank2=0, cut1=0, cut2=0, p1=[], p2=[])


def measure(c, n, i1, i2, p):
    """One event per sample of the batch."""
    out = []
    I1, I2 = np.asarray(i1, np.float64), np.asarray(i2, np.float64)
    dens = np.asarray(p.seeding_densities)
    rows = [np.asarray(x) for x in (p.diameter_ranges, p.intensity_ranges, p.rho_ranges)]
    good = I1.shape == I2.shape == (c["B"], *c["shape"]) and len(dens) == c["B"] and all(
        x.shape == (c["B"], 2) for x in rows)
    if not good:
        return [dict(fields(), shape=0)]
    m = mask_of(c)
    for k in range(c["B"]):
        a, b = I1[k], I2[k]
        e = fields()
        e["finite"] = int(np.isfinite(a).all() and np.isfinite(b).all() and bool(np.isfinite(dens[k])))
        e["lo"] = clampi(1000 * min(a.min(), b.min()))
        e["hi"] = clampi(1000 * max(a.max(), b.max()))
        if m is not None:
            e["masked"] = int((a[m == 0] != 0).sum() + (b[m == 0] != 0).sum())
        e["dens"] = clampi(1e6 * dens[k])
        e["dia"], e["int"], e["rho"] = (which(r[k], c[x]) for r, x in zip(rows, ("dia", "int", "rho")))
        e["sum1"], e["sum2"] = clampi(1000 * a.sum()), clampi(1000 * b.sum())
        e["diff"] = clampi(1000 * np.abs(a - b).max())
        e["blank1"], e["blank2"] = int(a.max() == 0), int(b.max() == 0)
        point = all(r[k][0] == r[k][1] for r in rows)
        if c["count"] and point:
            v = (rows[0][k][0], rows[1][k][0], rows[2][k][0])
            e["n1"], e["n2"] = clampi(particles(a, *v)), clampi(particles(b, *v))
        if c["one"]:
            for key, img in (("p1", a), ("p2", b)):
                rim = max(img[0].max(), img[-1].max(), img[:, 0].max(), img[:, -1].max())
                e["cut" + key[1]] = int(rim > 2e-3 * img.max())
                q = fit(img)
                if q is not None:
                    e[key] = [clampi(1000 * q[x]) for x in ("dx", "dy", "peak", "rho", "x", "y")]
        out.append(e)
    return out


def run(job):
    out = []
    for t in job["tests"]:
        c = t["cfg"]
        ev = []

        def build():
            return generator(c)
        k, g = wk.outcome(build, 120)
        if k != "ok":
            ev = [dict(fields(), kind=k)]
        else:
            for i in range(c["calls"]):
                k, r = wk.outcome(lambda: [np.asarray(x) if hasattr(x, "shape") else x for x in g(i)], 120)
                if k != "ok":
                    ev.append(dict(fields(), kind=k))
                    break
                k, e = wk.outcome(lambda: measure(c, i, *r), 120)
                ev += e if k == "ok" else [dict(fields(), kind="malformed")]
        out.append(dict(id=t["id"], cfg=c, ev=ev))
    return out


if __name__ == "__main__":
    wk.serve(run)
