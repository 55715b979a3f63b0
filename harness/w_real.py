"""Real-image samplers over files whose images and flows tell where they come from."""

import os

import wk

wk.quiet()
import h5py  # noqa: E402
import numpy as np  # noqa: E402
import scipy.io  # noqa: E402
import jax  # noqa: E402
from PIL import Image  # noqa: E402
from synthpix.sampler import RealImageSampler  # noqa: E402
import synthpix.scheduler as S  # noqa: E402

KIND = {"StopIteration": "stop", "EpisodeEnd": "episode_end"}


def arrays(k, h, w, kind):
    """Flow and image pair of file number k (1, 2, ...); distinct everywhere, never zero."""
    grid = np.arange(h * w).reshape(h, w)
    flow = np.stack([k * 64 + grid + 0.25, -(k * 64 + grid) - 0.5], -1).astype(np.float32)
    lo, hi = (2 * k - 1), 2 * k
    if kind == "u8":
        a, b = (lo * 6 + grid % 5).astype(np.uint8), (hi * 6 + grid % 5).astype(np.uint8)
    elif kind == "u16":
        a, b = (lo * 900 + grid).astype(np.uint16), (hi * 900 + grid).astype(np.uint16)
    else:  # fractional intensities
        a, b = ((x + grid / 128).astype(np.float32) / 64 for x in (lo, hi))
    return flow, a, b


class Files:
    """n files in sequence directories (or one directory) with a table of their contents."""

    def __init__(self, root, t):
        self.h, self.w = t["shape"]
        self.rgb = t["fmt"].startswith("npy")
        self.flow, self.im1, self.im2, self.path, self.listing = {}, {}, {}, {}, []
        k = 0
        for d, frames in enumerate(t["lens"], 1):
            p = os.path.join(root, f"s{d}")
            os.makedirs(p)
            for f in range(1, frames + 1):
                k += 1
                cell = [d, f] if t["L"] else [k, 0]
                v, a, b = arrays(k, self.h, self.w, t["dtype"])
                path = self.write(p, f, t, v, a, b)
                a, b = self.read(p, f, a, b)
                self.flow[v.tobytes()] = cell
                self.im1[a.astype(np.float32).tobytes()] = cell
                self.im2[b.astype(np.float32).tobytes()] = cell
                self.path[os.path.abspath(path)] = cell
                self.listing.append(path)

    def write(self, p, f, t, v, a, b):
        if self.rgb:
            path = os.path.join(p, f"flow_{2 * f}.npy")
            np.save(path, v)
            if t["img"]:
                for q, x in ((2 * f - 1, a), (2 * f, b)):
                    Image.fromarray(x).save(os.path.join(p, f"img_{q}.jpg"), quality=95)
            return path
        path = os.path.join(p, f"f{f:03d}" + (".h5" if t["fmt"] == "h5" else ".mat"))
        if t["fmt"] == "h5":
            with h5py.File(path, "w") as g:
                g["u"] = v[:, None]
        elif t["fmt"] == "mat73":
            with h5py.File(path, "w") as g:
                g["V"], g["I0"], g["I1"] = v, a, b
        else:
            scipy.io.savemat(path, {"V": v, "I0": a, "I1": b})
        return path

    def read(self, p, f, a, b):
        if not self.rgb or not os.path.exists(os.path.join(p, f"img_{2 * f}.jpg")):
            return a, b
        rd = lambda q: np.asarray(Image.open(os.path.join(p, f"img_{q}.jpg")).convert("RGB"))
        return rd(2 * f - 1), rd(2 * f)

    def ids(self, table, xs):
        out = []
        for x in np.asarray(xs):
            x = np.ascontiguousarray(x)
            out.append([0, 0] if not x.any() else table.get(x.tobytes(), [-1, -1]))
        return out


def stack(fs, t):
    """The scheduler stack of a test, and its base scheduler."""
    kw = dict(file_list=list(fs.listing), randomize=False, loop=t["loop"], key=jax.random.PRNGKey(t["key"]))
    if t["fmt"] == "h5":
        s = S.HDF5FlowFieldScheduler(**kw)
    elif fs.rgb:
        s = S.NumpyFlowFieldScheduler(include_images=bool(t["img"]), **kw)
    else:
        s = S.MATFlowFieldScheduler(include_images=bool(t["img"]), output_shape=tuple(t["shape"]), **kw)
    base = s
    if t["L"]:
        s = S.EpisodicFlowFieldScheduler(s, batch_size=t["B"], episode_length=t["L"], key=jax.random.PRNGKey(t["key"]))
    if t["pf"]:
        s = S.PrefetchingFlowFieldScheduler(s, t["B"], buffer_size=t["buf"], steady_state_timeout=4.0)
    return s, base


BLANK = dict(op="", kind="ok", items=[], labels=[], mask=[], im1=[], im2=[], params=0, form=1,
             done="none", downs=0)


def batch(fs, b, t):
    v, a, c = b.flow_fields, b.images1, b.images2
    chan = (3,) if fs.rgb else ()
    form = (
        all(str(x.dtype) == "float32" and isinstance(x, jax.Array) for x in (v, a, c))
        and tuple(v.shape) == (t["B"], fs.h, fs.w, 2)
        and tuple(a.shape) == tuple(c.shape) == (t["B"], fs.h, fs.w, *chan)
    )
    done = "none"
    if b.done is not None:
        d = np.asarray(b.done)
        done = "shape" if d.shape != (t["B"],) else "true" if d.all() else "mixed" if d.any() else "false"
    return dict(
        items=fs.ids(fs.flow, v), im1=fs.ids(fs.im1, a), im2=fs.ids(fs.im2, c),
        labels=[[0, 0] if p == "" else fs.path.get(os.path.abspath(p), [-1, -1]) for p in b.files],
        mask=[int(x) for x in np.asarray(b.mask)], params=int(b.params is not None), form=int(form), done=done,
    )


def one(t, uid):
    fs = Files(os.path.join(wk.scratch(), f"r{uid}"), t)
    sch, base = stack(fs, t)
    if t["route"] == "config":
        kind, s = wk.outcome(lambda: RealImageSampler.from_config(sch, {"batch_size": t["B"]}))
    else:
        kind, s = wk.outcome(lambda: RealImageSampler(sch, t["B"]))
    ev = [dict(BLANK, op="construct", kind=kind)]
    downs = [0]
    if s is not None:
        real = sch.shutdown

        def counted():
            downs[0] += 1
            return real()

        sch.shutdown = counted
        for op in t["ops"]:
            e = dict(BLANK, op=op)
            if op == "next":
                kind, b = wk.outcome(lambda: next(s), 40)
                e["kind"] = KIND.get(kind, kind)
                if kind == "ok":
                    k2, d = wk.outcome(lambda: batch(fs, b, t))
                    e.update(d if k2 == "ok" else dict(kind="malformed"))
            else:
                fn = {"reset": s.reset, "reset_self": lambda: s.reset(scheduler_reset=False),
                      "next_episode": s.next_episode, "shutdown": s.shutdown}[op]
                e["kind"], _ = wk.outcome(fn, 40)
                e["downs"] = downs[0]
            ev.append(e)
            if e["kind"] == "hang":
                break
    wk.outcome(sch.shutdown, 5)
    n = sum(t["lens"])
    return dict(
        id=t["id"],
        cfg=dict(B=t["B"], L=t["L"], pf=t["pf"], img=t["img"], loop=t["loop"], rand=False,
                 lens=t["lens"], list=list(range(1, n + 1)), n=[1] * n, ok=[True] * n),
        ev=ev,
    )


def run(job):
    return [one(t, k) for k, t in enumerate(job["tests"])]


if __name__ == "__main__":
    wk.serve(run)
