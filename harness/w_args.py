"""Calls real constructors and input checks with given arguments."""

import os
import shutil

import wk

wk.quiet()
import jax.numpy as jnp  # noqa: E402
import numpy as np  # noqa: E402
import files as F  # noqa: E402
from c_make import enc  # noqa: E402
from synthpix import scheduler as S  # noqa: E402
from synthpix.apply import input_check_apply_flow  # noqa: E402
from synthpix.data_generate import input_check_gen_img_from_flow  # noqa: E402
from synthpix.sampler import RealImageSampler, SyntheticImageSampler  # noqa: E402
from synthpix.types import ImageGenerationSpecification  # noqa: E402
from synthpix.utils import input_check_flow_field_adapter  # noqa: E402

SPEC = ImageGenerationSpecification(batch_size=4, image_shape=(8, 10), img_offset=(2, 3), seeding_density_range=(0.1, 0.1))


class Arr:
    """An array argument: shape, total, and whether it is a JAX array."""

    def __init__(self, *shape, total=0, np_=False):
        self.shape, self.total, self.np_ = shape, total, np_

    def make(self):
        x = np.zeros(self.shape, np.float32)
        if x.size:
            x.ravel()[:] = self.total / x.size
        return x if self.np_ else jnp.asarray(x)


NAMES = dict(nan=float("nan"), A=Arr, N=lambda *s: Arr(*s, np_=True), H=lambda n, t: Arr(n, total=t))


def see(v):
    if isinstance(v, Arr):
        return dict(t="ndarray" if v.np_ else "array", items=list(v.shape), sum=v.total)
    return enc(v)


class Place:
    """Files and schedulers behind the tokens, for one kind of file."""

    def __init__(self, root):
        self.paths = {}
        for kind in ("h5", "npy", "mat"):
            d = os.path.join(root, kind)
            st = F.Store(d, {"npy": "npyimg", "mat": "matimg"}.get(kind, kind), [1, 1, 1])
            p = {"@a": st.path(1), "@b": st.path(2), "@dir": d, "@none": os.path.join(root, "missing" + st.EXT[kind])}
            e = os.path.join(root, kind + "_empty")
            os.makedirs(e)
            open(os.path.join(e, "readme.txt"), "w").write("x")
            p["@empty"], p["@wrong"] = e, os.path.join(e, "readme.txt")
            bare = os.path.join(root, kind + "_bare")
            os.makedirs(bare)
            p["@bare"] = shutil.copy(st.path(1), os.path.join(bare, os.path.basename(st.path(1))))
            self.paths[kind] = p
        seq = []
        for q in ("s1", "s2"):
            st = F.Store(os.path.join(root, q), "matimg", [1] * 4)
            seq += [st.path(k) for k in range(1, 5)]
        self.seq = seq

    def file(self, kind, v):
        if isinstance(v, str):
            return self.paths[kind].get(v, v)
        return [self.file(kind, x) for x in v] if isinstance(v, list) else v

    def scheduler(self, v):
        if not isinstance(v, str) or v == "@thing" or v[:1] != "@":
            return object() if v == "@thing" else v
        s = S.MATFlowFieldScheduler(
            list(self.seq), loop=True, include_images=v != "@plain" and not v.startswith("@blind"), output_shape=(24, 26))
        if "episodic" in v or "both" in v:
            s = S.EpisodicFlowFieldScheduler(s, 4, 2)
        return S.PrefetchingFlowFieldScheduler(s, 4) if "prefetch" in v or "both" in v else s


def call(pl, fn, a):
    a = {k: v.make() if isinstance(v, Arr) else v for k, v in a.items()}
    if "file_list" in a:
        a["file_list"] = pl.file(fn, a["file_list"])
    if "scheduler" in a:
        a["scheduler"] = pl.scheduler(a["scheduler"])
    if fn == "h5":
        return S.HDF5FlowFieldScheduler(**a)
    if fn == "npy":
        return S.NumpyFlowFieldScheduler(**a)
    if fn == "mat":
        return S.MATFlowFieldScheduler(**a)
    if fn == "episodic":
        return S.EpisodicFlowFieldScheduler(**a)
    if fn == "prefetch":
        return S.PrefetchingFlowFieldScheduler(pl.scheduler("@plain"), **a)
    if fn == "real":
        return RealImageSampler(**a)
    if fn == "synthetic":
        return SyntheticImageSampler(generation_specification=SPEC, **a)
    if fn == "adapter":
        return input_check_flow_field_adapter(**a)
    if fn == "apply":
        return input_check_apply_flow(**a)
    return input_check_gen_img_from_flow(parameters=SPEC, **a)


def run(job):
    out = []
    for n, t in enumerate(job["tests"]):
        pl = Place(os.path.join(wk.scratch(), f"p{n}"))
        ev = []
        for fn, texts in t["calls"]:
            a = {k: eval(v, dict(NAMES)) for k, v in texts.items()}  # noqa: S307 - our own literals
            kind, _ = wk.outcome(lambda: call(pl, fn, a), 60)
            ev.append(dict(fn=fn, kind=kind, a={k: see(v) for k, v in a.items()}, text=str(texts)))
        out.append(dict(id=t["id"], cfg={}, ev=ev))
    return out


if __name__ == "__main__":
    wk.serve(run)
