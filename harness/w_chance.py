"""Counts over the random draws of the real generator: noise and particle parameters."""

import itertools
import math

import numpy as np

import wk

wk.quiet()
import jax  # noqa: E402
import jax.numpy as jnp  # noqa: E402
from synthpix.data_generate import generate_images_from_flow  # noqa: E402
from synthpix.generate import add_noise_to_image  # noqa: E402
from synthpix.types import ImageGenerationSpecification  # noqa: E402
from w_image import BIG, clampi, fit  # noqa: E402

# eighths of the normal distribution
OCT = np.array([-1.15034938, -0.67448975, -0.31863936, 0.0, 0.31863936, 0.67448975, 1.15034938])


class Log:
    def __init__(self):
        self.ev = []

    def add(self, op, what, **kw):
        self.ev.append(dict(op=op, what=what, kind="ok", **kw))

    def flat(self, what, cls, k):
        c = np.asarray(cls).ravel()
        self.add("flat", what, s=[int((c == j).sum()) for j in range(k)])

    def table(self, what, a, b, ka, kb):
        a, b = np.asarray(a).ravel(), np.asarray(b).ravel()
        t = np.zeros((ka, kb), int)
        ok = (a >= 0) & (b >= 0)
        np.add.at(t, (a[ok], b[ok]), 1)
        self.add("table", what, t=t.tolist())


def spec_of(c):
    return ImageGenerationSpecification(
        batch_size=c["B"], image_shape=tuple(c["shape"]), img_offset=(0, 0),
        seeding_density_range=tuple(c["density"]), p_hide_img1=c["hide1"] / 100, p_hide_img2=c["hide2"] / 100,
        diameter_ranges=[tuple(x) for x in c["dia"]], diameter_var=c["dvar"],
        intensity_ranges=[tuple(x) for x in c["int"]], intensity_var=c["ivar"],
        rho_ranges=[tuple(x) for x in c["rho"]], rho_var=c["rvar"], dt=1.0,
        noise_uniform=c["nu"], noise_gaussian_mean=c["nm"], noise_gaussian_std=c["ns"])


def batches(c):
    spec = spec_of(c)
    fn = jax.jit(lambda k, f: generate_images_from_flow(k, f, spec, position_bounds=tuple(c["shape"])))
    f = jnp.zeros((1, *c["shape"], 2))
    for i in range(c["calls"]):
        a, b, p = fn(jax.random.PRNGKey(c["seed"] + i), f)
        yield np.asarray(a, np.float64), np.asarray(b, np.float64), p


def classes(v, c):
    """Class of every noise value among equally likely ones, or None."""
    if c["ns"] == 0 and c["nu"] > 0:
        return np.clip(np.floor(8 * (v - c["nm"]) / c["nu"]), 0, 7).astype(int)
    if c["ns"] > 0 and c["nu"] == 0:
        return np.searchsorted(OCT, (v - c["nm"]) / c["ns"])
    return None


def noise_events(log, v, c, who):
    """v: noise values (samples, rows, columns) that were not clipped."""
    n = v.size
    log.add("mean", who, m=clampi(1e4 * v.mean()), want=clampi(1e4 * (c["nm"] + c["nu"] / 2)),
            sd=clampi(1e4 * math.sqrt((c["ns"] ** 2 + c["nu"] ** 2 / 12) / n)) + 1, slack=20)
    sd = math.sqrt(c["ns"] ** 2 + c["nu"] ** 2 / 12)
    # the spread: kurtosis at most 3
    log.add("mean", who + " spread", m=clampi(1e4 * v.std()), want=clampi(1e4 * sd),
            sd=clampi(1e4 * sd / math.sqrt(2 * n)) + 1, slack=20)
    k = classes(v, c)
    if k is None:
        return None
    if c["ns"] == 0:
        log.add("range", who, lo=clampi(1000 * c["nm"]) - 2, hi=clampi(1000 * (c["nm"] + c["nu"])) + 2,
                min=clampi(1000 * v.min()), max=clampi(1000 * v.max()))
    log.flat(who, k.ravel()[:6000], 8)
    log.table(who + " column", k[:, :, :-1].ravel()[:6000], k[:, :, 1:].ravel()[:6000], 8, 8)
    log.table(who + " row", k[:, :-1].ravel()[:6000], k[:, 1:].ravel()[:6000], 8, 8)
    if len(k) > 1:
        log.table(who + " sample", k[:-1].ravel()[:6000], k[1:].ravel()[:6000], 8, 8)
    return k


def noise(c):
    log = Log()
    prev = None
    base = c["base"]
    c = dict(c, hide1=100, hide2=100) if not base else c
    if c["direct"]:
        fn = jax.jit(lambda k, i: add_noise_to_image(k, i, c["nu"], c["nm"], c["ns"]))
        img = np.linspace(80, 120, 60 * 50).reshape(60, 50)
        last = None
        for i in range(c["calls"] * 2):
            v = np.asarray(fn(jax.random.PRNGKey(c["seed"] + i), jnp.array(img, jnp.float32)), np.float64) - img
            k = noise_events(log, v[None], c, "function")
            if k is not None and last is not None:
                log.table("keys", last, k, 8, 8)
            last = k
            if c["nu"] == c["nm"] == c["ns"] == 0:
                log.add("same", "no noise", off=clampi(1e6 * np.abs(v).max()), most=20)
            wild = np.asarray(fn(jax.random.PRNGKey(c["seed"] + i), jnp.array(img * 20 - 900, jnp.float32)), np.float64)
            log.add("range", "clipped", lo=0, hi=255000, min=clampi(1000 * wild.min()), max=clampi(1000 * wild.max()))
            if not c["nu"] and not c["ns"]:
                want = np.clip(img * 20 - 900 + c["nm"], 0, 255)
                log.add("same", "clipped", off=clampi(1e4 * np.abs(wild - want).max()), most=20)
        return log.ev
    clean = list(batches(dict(c, nu=0.0, nm=0.0, ns=0.0))) if base else itertools.repeat(None)
    for (a, b, _), z in zip(batches(c), clean):
        if base:  # where the particles leave enough room
            a, b = a - z[0], b - z[1]
            free = max(z[0].max(), z[1].max()) + c["nm"] + c["nu"] + 6 * c["ns"] <= 255
            if not free:
                continue
        k1, k2 = noise_events(log, a, c, "image1"), noise_events(log, b, c, "image2")
        if k1 is not None:
            log.table("images", k1.ravel()[:6000], k2.ravel()[:6000], 8, 8)
            log.table("images shifted", k1[:-1].ravel()[:6000], k2[1:].ravel()[:6000], 8, 8)
            if prev is not None:
                log.table("batches", prev[0].ravel()[:6000], k1.ravel()[:6000], 8, 8)
                log.table("batches2", prev[1].ravel()[:6000], k2.ravel()[:6000], 8, 8)
            prev = (k1, k2)
    return log.ev


def index(row, ranges):
    return next((k for k, x in enumerate(ranges) if abs(row[0] - x[0]) < 1e-3 and abs(row[1] - x[1]) < 1e-3), -1)


def inside(v, r, k=4):
    return int(min(k - 1, max(0, math.floor(k * (v - r[0]) / (r[1] - r[0])))))


def draws(c):
    """One particle in every image: its parameters are the draws."""
    log = Log()
    Q = {}
    size = dict(density=4, dia=len(c["dia"]), int=len(c["int"]), rho=len(c["rho"]), x=4, y=4, dx=4, dy=2, peak=4, corr=4,
                vdx=2, vdy=2, vcorr=2, vpeak=2, hidden1=2, hidden2=2)
    rows = []
    unfit = seen = 0
    m = 3
    h, w = c["shape"]
    for a, b, p in batches(c):
        R = [np.asarray(x) for x in (p.diameter_ranges, p.intensity_ranges, p.rho_ranges)]
        D = np.asarray(p.seeding_densities)
        for k in range(len(a)):
            q = dict.fromkeys(size, -1)
            q["density"] = inside(D[k], c["density"])
            q["dia"], q["int"], q["rho"] = (index(r[k], c[n]) for r, n in zip(R, ("dia", "int", "rho")))
            if c["hide1"] or c["hide2"]:
                # at the rim a particle may be invisible without being hidden: look inside only
                q["hidden1"], q["hidden2"] = int(a[k].max() <= 0.02), int(b[k].max() <= 0.02)
            f1, f2 = fit(a[k]), fit(b[k])
            f = f1 or f2
            if f and m <= f["x"] < w - m and m <= f["y"] < h - m:
                q["x"], q["y"] = inside(f["x"], (m, w - m)), inside(f["y"], (m, h - m))
            if f1 and q["x"] >= 0 and min(q["dia"], q["int"], q["rho"]) >= 0:
                seen += 1
                q["dx"], q["corr"] = inside(f1["dx"], R[0][k]), inside(f1["rho"], R[2][k])
                q["peak"], q["dy"] = inside(f1["peak"], R[1][k]), int(f1["dy"] > f1["dx"])
                if f2:
                    q["vdx"], q["vcorr"] = int(f2["dx"] > f1["dx"]), int(f2["rho"] > f1["rho"])
                    q["vpeak"] = int(f2["peak"] > f1["peak"])
                    r = R[0][k]
                    if r[0] + 0.01 < f1["dy"] < r[1] - 0.01:
                        q["vdy"] = int(f2["dy"] > f1["dy"])
            # a complete pattern well inside the image must be measurable
            for img, g in ((a[k], f1), (b[k], f2)):
                y, x = np.unravel_index(img.argmax(), img.shape)
                if img.max() > 1 and 6 <= x < w - 6 and 6 <= y < h - 6 and g is None:
                    unfit += 1
            rows.append(q)
    log.add("all", "measured", m=len(rows) - unfit, n=len(rows))
    Q = {n: np.array([q[n] for q in rows]) for n in size}
    for n in ("hidden1", "hidden2"):
        if c["hide1"] or c["hide2"]:
            log.add("share", n, m=int(Q[n].sum()), n=len(rows), p=c["hide" + n[-1]])
    used = [n for n in size if (Q[n] >= 0).any()
            and not (n.startswith("v") and not c[{"vdx": "dvar", "vdy": "dvar", "vcorr": "rvar", "vpeak": "ivar"}[n]])]
    for n in used:
        if not n.startswith("hidden"):
            v = Q[n][Q[n] >= 0]
            log.flat(n, v, size[n])
    for s, t in itertools.combinations(used, 2):
        # dy follows dx by construction, and what is clipped shows in both signs
        if {s, t} in ({"dx", "vdy"}, {"dy", "vdy"}):
            continue
        log.table(f"{s} {t}", Q[s], Q[t], size[s], size[t])
    for n in used:
        log.table(f"{n} next", Q[n][:-1], Q[n][1:], size[n], size[n])
        if c["calls"] > 1:
            log.table(f"{n} batch", Q[n][: -c["B"]], Q[n][c["B"]:], size[n], size[n])
    return log.ev


def crowd(c):
    """Many point-like particles: where they are and how bright altogether."""
    log = Log()
    h, w = c["shape"]
    for a, b, p in batches(c):
        i, d = c["int"][0], c["dia"][0][0]
        unit = 2 * math.pi * (d / 2) ** 2
        for k in range(len(a)):
            dens = float(np.asarray(p.seeding_densities)[k])
            for who, img in (("1", a[k]), ("2", b[k])):
                cells = img.reshape(4, h // 4, 4, w // 4).sum((1, 3))[1:3, 1:3].ravel() / unit
                n = dens * h * w / 16
                m, v = (i[0] + i[1]) / 2, (i[1] - i[0]) ** 2 / 12
                for x in cells:  # a cell holds n particles (binomial) of mean m and variance v
                    log.add("mean", "cell" + who, m=clampi(100 * x), want=clampi(100 * n * m),
                            sd=clampi(100 * math.sqrt(n * (v + m * m))) + 1, slack=clampi(n * m))
                # the brightness of all of them: n particles, each with its own
                N = math.floor(dens * h * w)
                rim = 2 * (h + w) * dens * d * 0.2
                log.add("mean", "total" + who, m=clampi(img.sum() / unit), want=clampi((N - rim) * m),
                        sd=clampi(math.sqrt(N * v + rim * 2 * m * m)) + 1, slack=clampi(0.01 * N * m))
    return log.ev


def play(t):
    c = t["cfg"]
    k, ev = wk.outcome(lambda: dict(noise=noise, draws=draws, crowd=crowd)[c["what"]](c), 300)
    if k != "ok":
        ev = [dict(op="fails", what=c["what"], kind=k)]
    return dict(id=t["id"], cfg={}, ev=ev)


if __name__ == "__main__":
    wk.serve(lambda job: [play(t) for t in job["tests"]])
