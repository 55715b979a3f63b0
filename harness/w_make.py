"""Builds pipelines with make() and describes what came out."""

import hashlib
import os

import numpy as np

import wk

wk.quiet()
import h5py  # noqa: E402
import jax  # noqa: E402
import jax.numpy as jnp  # noqa: E402
import scipy.io  # noqa: E402
from ruamel.yaml import YAML  # noqa: E402
from synthpix import scheduler as S  # noqa: E402
from synthpix.make import make  # noqa: E402
from synthpix.sampler import RealImageSampler, SyntheticImageSampler  # noqa: E402
from synthpix.types import ImageGenerationSpecification  # noqa: E402

H, W = 24, 20  # the stored fields


class Data:
    """A dataset of one file class; resolves the path tokens of configurations."""

    def __init__(self, root, cls, frames, n):
        self.root, self.files = root, []
        os.makedirs(root)
        k = 0
        for s, m in enumerate(frames, 1):
            d = os.path.join(root, f"seq{s}")
            os.makedirs(d)
            for f in range(1, m + 1):
                k += 1
                self.files.append(self.write(d, f, k, cls, n))
        self.other = os.path.join(os.path.dirname(root), os.path.basename(root) + "_other.txt")
        open(self.other, "w").write("nothing")
        self.empty = os.path.join(os.path.dirname(root), os.path.basename(root) + "_empty")
        os.makedirs(self.empty)
        side = os.path.dirname(root)
        y = np.arange(16 * 12).reshape(16, 12)
        self.side = {"mask": (y % 5 > 0).astype(np.int32), "mask_shape": np.ones((16, 13), int), "mask_values": y % 3,
                     "histogram": np.where(np.arange(256) < 192, 1, 0), "hist_sum": np.ones(256), "hist_len": np.full(192, 1.0)}
        self.at = {}
        for name, a in self.side.items():
            self.at[name] = os.path.join(side, f"{os.path.basename(root)}_{name}.npy")
            np.save(self.at[name], a)
        self.id = {os.path.normpath(p): j for j, p in enumerate(self.files, 1)}

    def write(self, d, f, k, cls, n):
        Y, X = np.mgrid[0:H, 0:W]
        v = np.stack([0.4 * k + 0.01 * X, -0.3 * k + 0.02 * Y], -1).astype(np.float32)
        if cls == ".npy":
            p = os.path.join(self.root, f"flow_{k}.npy")  # directories of .npy files are not searched recursively
            np.save(p, v)
        elif cls == ".h5":
            p = os.path.join(d, f"f{f}.h5")
            with h5py.File(p, "w") as g:
                g["u"] = np.stack([v] * n, 1)
        else:
            p = os.path.join(d, f"f{f}.mat")
            im = lambda q: (np.arange(H * W).reshape(H, W) % (5 + q) + k).astype(np.uint8)
            scipy.io.savemat(p, {"V": v, "I0": im(0), "I1": im(1)})
        return p

    def path(self, tok):
        if not isinstance(tok, str):
            return tok
        kind, _, k = tok.partition(":")
        return {"dir": self.root, "emptydir": self.empty, "other": self.other}.get(
            kind, self.files[int(k) - 1] if kind == "file" else os.path.join(self.root, "nowhere" + tok))

    def resolve(self, c):
        c = dict(c)
        if isinstance(c.get("file_list"), list):
            c["file_list"] = [self.path(x) for x in c["file_list"]]
        elif isinstance(c.get("file_list"), str):
            c["file_list"] = self.path(c["file_list"])
        for k in ("mask", "histogram"):
            if isinstance(c.get(k), str):
                c[k] = self.at.get(c[k], os.path.join(self.root, "nowhere.npy"))
        return c


NAMES = [(S.PrefetchingFlowFieldScheduler, "prefetch"), (S.EpisodicFlowFieldScheduler, "episodic"),
         (S.MATFlowFieldScheduler, ".mat"), (S.HDF5FlowFieldScheduler, ".h5"), (S.NumpyFlowFieldScheduler, ".npy")]


def digest(b):
    m = hashlib.sha256()
    for x in jax.tree.leaves((b.images1, b.images2, b.flow_fields, b.params)):
        m.update(np.ascontiguousarray(np.asarray(x)).tobytes())
    return m.hexdigest()[:12]


def describe(b, data):
    done = "none"
    if b.done is not None:
        d = np.asarray(b.done)
        done = "true" if d.all() else "mixed" if d.any() else "false"
    files = list(b.files) if b.files is not None else []
    return dict(
        ishape=list(b.images1.shape) if b.images1.shape == b.images2.shape else [0], fshape=list(b.flow_fields.shape),
        labels=[0 if p == "" else data.id.get(os.path.normpath(p), -1) for p in files],
        mask=[int(x) for x in np.asarray(b.mask)] if b.mask is not None else [],
        done=done, params=int(b.params is not None), digest=digest(b))


def take(s, n, data):
    out = []
    for _ in range(n):
        kind, b = wk.outcome(lambda: next(s), 60)
        t = dict(kind={"StopIteration": "stop", "EpisodeEnd": "episode_end"}.get(kind, kind), ishape=[], fshape=[],
                 labels=[], mask=[], done="none", params=0, digest="")
        if kind == "ok":
            t.update(describe(b, data))
        out.append(t)
        if t["kind"] == "episode_end":
            wk.outcome(s.next_episode, 60)
        elif kind not in ("ok", "StopIteration"):
            break
    return out


def by_hand(c, cls):
    """The first batch of the same pipeline, put together directly."""
    tup = lambda k: tuple(c[k])
    rng = lambda k: [tuple(x) for x in c[k]]
    gs = ImageGenerationSpecification(
        batch_size=c["batch_size"], image_shape=tup("image_shape"), img_offset=tup("img_offset"),
        seeding_density_range=tup("seeding_density_range"), p_hide_img1=c["p_hide_img1"], p_hide_img2=c["p_hide_img2"],
        diameter_ranges=rng("diameter_ranges"), diameter_var=c["diameter_var"], intensity_ranges=rng("intensity_ranges"),
        intensity_var=c["intensity_var"], rho_ranges=rng("rho_ranges"), rho_var=c["rho_var"], dt=c["dt"],
        noise_uniform=c["noise_uniform"], noise_gaussian_mean=c["noise_gaussian_mean"],
        noise_gaussian_std=c["noise_gaussian_std"])
    base = dict(NAMES[k][::-1] for k in (2, 3, 4))[cls]
    files = c["file_list"] if isinstance(c["file_list"], list) else [c["file_list"]]
    kw = {k: c[k] for k in ("batches_per_flow_batch", "flow_fields_per_batch", "resolution", "velocities_per_pixel", "seed",
                            "max_speed_x", "max_speed_y", "min_speed_x", "min_speed_y", "output_units")}
    load = lambda k: jnp.asarray(np.load(c[k])) if c.get(k) else None
    s = SyntheticImageSampler(base(files, loop=True), flow_field_size=tup("flow_field_size"), device_ids=c.get("device_ids"),
                              generation_specification=gs, mask_images=load("mask"), histogram=load("histogram"), **kw)
    return digest(next(s))


def one(e, data, uid):
    c = data.resolve(e.pop("config"))
    arg = c
    if e["src"] == "yaml":
        arg = os.path.join(wk.scratch(), f"c{uid}.yaml")
        with open(arg, "w") as f:
            YAML(typ="safe", pure=True).dump(c, f)
    kind, s = wk.outcome(lambda: make(arg), 60)
    e.update(kind=kind, sampler="", layers=[], buf=0, ep=0, devs=0, takes=[], direct="")
    if s is None:
        return e
    e["sampler"] = {RealImageSampler: "real", SyntheticImageSampler: "synthetic"}.get(type(s), type(s).__name__)
    e["devs"] = getattr(s, "ndevices", 1)
    sch = s.scheduler
    while sch is not None:
        name = next((n for t, n in NAMES if type(sch) is t), type(sch).__name__)
        e["layers"].append(name)
        if name == "prefetch":
            e["buf"] = sch.buffer_size
        if name == "episodic":
            e["ep"] = sch.episode_length
        sch = sch.scheduler if name in ("prefetch", "episodic") else None
    e["takes"] = take(s, e["take"], data)
    wk.outcome(s.shutdown, 20)
    if e["hand"]:
        e["direct"] = wk.outcome(lambda: by_hand(c, c["scheduler_class"]), 60)[1] or "none"
    return e


def run(job):
    out = []
    for k, t in enumerate(job["tests"]):
        data = Data(os.path.join(wk.scratch(), f"data{k}"), t["cls"], t["frames"], t["n"])
        seq = [s for s, m in enumerate(t["frames"], 1) for _ in range(m)]
        ev = []
        for j, e in enumerate(t["ev"]):
            ev.append(one(dict(e, frames=t["frames"], seq=seq, n=t["n"], data=t["id"],
                               ndev=len(jax.devices())), data, f"{k}_{j}"))
        out.append(dict(id=t["id"], cfg={}, ev=ev))
    return out


if __name__ == "__main__":
    wk.serve(run)
