"""Flow files with known, distinguishable contents."""

import io
import os

import h5py
import numpy as np
import scipy.io
from PIL import Image


def flow(f, s, h=3, w=2, c=2):
    """Slice s of file f: distinct values everywhere, never zero."""
    base = f * 1000 + s * 50 + 1
    return (base + np.arange(h * w * c)).reshape(h, w, c).astype(np.float32)


def image(k, h=3, w=2):
    """Frame k as a grey image: never zero."""
    return np.full((h, w), 10 + 12 * k, np.uint8)


class Store:
    """Writes files of one format below root and can break / repair them."""

    EXT = {
        "h5": ".h5", "npy": ".npy", "npyimg": ".npy",
        "mat": ".mat", "matimg": ".mat", "mat73": ".mat",
    }

    def __init__(self, root, fmt, n, zero=False):
        self.fmt, self.n, self.root = fmt, list(n), root
        # a resting flow: the last slice of the last file holds nothing but zeros
        self.zero = [len(n), n[-1] - 1] if zero and n and n[-1] else None
        os.makedirs(root, exist_ok=True)
        self.bytes, self.hurt, self.by_path = {}, {}, {}
        self.slices, self.im1, self.im2 = {}, {}, {}
        for f in range(1, len(self.n) + 1):
            p = self.path(f)
            self.by_path[p] = f
            self._write(f, p)

    def flow(self, f, s):
        return flow(f, s) * (0 if self.zero == [f, s] else 1)

    def path(self, f):
        if self.fmt in ("npy", "npyimg"):
            return os.path.join(self.root, f"flow_{2 * f}.npy")
        return os.path.join(self.root, f"f{f}{self.EXT[self.fmt]}")

    def _write(self, f, p):
        n = self.n[f - 1]
        if self.fmt == "h5":
            vol = (
                np.stack([self.flow(f, s) for s in range(n)], axis=1)
                if n
                else np.zeros((3, 0, 2, 2), np.float32)
            )
            with h5py.File(p, "w") as h:
                h["u"] = vol
        elif self.fmt in ("npy", "npyimg"):
            np.save(p, self.flow(f, 0))
            if self.fmt == "npyimg":
                for k in (2 * f - 1, 2 * f):
                    q = os.path.join(self.root, f"img_{k}.jpg")
                    Image.fromarray(image(k)).save(q, quality=95)
                rd = lambda k: np.array(
                    Image.open(os.path.join(self.root, f"img_{k}.jpg")).convert("RGB")
                )
                self.im1[rd(2 * f - 1).tobytes()] = f
                self.im2[rd(2 * f).tobytes()] = f
        elif self.fmt in ("mat", "matimg"):
            scipy.io.savemat(
                p, {"V": self.flow(f, 0), "I0": image(2 * f - 1), "I1": image(2 * f)}
            )
        elif self.fmt == "mat73":
            with h5py.File(p, "w") as h:
                h["V"] = self.flow(f, 0)
                h["I0"] = image(2 * f - 1)
                h["I1"] = image(2 * f)
        if self.fmt in ("matimg", "mat73"):
            self.im1[image(2 * f - 1).tobytes()] = f
            self.im2[image(2 * f).tobytes()] = f
        for s in range(n):
            self.slices[self.flow(f, s).tobytes()] = [f, s]

    def set(self, f, ok, mode=0):
        if self.hurt.get(f):  # repair first
            with open(self.hurt[f], "wb") as h:
                h.write(self.bytes[self.hurt[f]])
            self.hurt[f] = None
        if ok:
            return
        p = self.path(f)
        if self.fmt == "npyimg" and mode % 2:  # its first or second image instead
            p = os.path.join(self.root, f"img_{2 * f - (mode // 2) % 2}.jpg")
        whole = self.bytes.setdefault(p, open(p, "rb").read())
        data = [b"not a data file at all", b"", whole[: max(1, len(whole) // 3)]][mode // 4]
        with open(p, "wb") as h:
            h.write(data)
        self.hurt[f] = p

    def decode(self, table, x):
        """Identify one array: table value, 0 for all zeros, -1 if unknown."""
        x = np.asarray(x)
        if not x.any():
            return 0
        return table.get(np.ascontiguousarray(x).tobytes(), -1)

    def items(self, flows, labels=()):
        """What each entry is; zeros labelled with the file that holds them are its slice."""
        out = []
        for k, x in enumerate(np.asarray(flows, np.float32)):
            d = self.decode(self.slices, x)
            if d == 0 and self.zero and k < len(labels) and labels[k] == self.zero[0]:
                d = list(self.zero)
            out.append([0, 0] if d == 0 else [-1, -1] if d == -1 else d)
        return out

    def images(self, ims, table):
        if ims is None:
            return []
        return [self.decode(table, x) for x in np.asarray(ims)]

    def labels(self, files):
        if files is None:
            return []
        return [
            0 if p == "" else self.by_path.get(os.path.abspath(p), -1) for p in files
        ]


def make_scheduler(fmt, **kw):
    import synthpix.scheduler as S

    if fmt == "h5":
        return S.HDF5FlowFieldScheduler(**kw)
    if fmt in ("npy", "npyimg"):
        return S.NumpyFlowFieldScheduler(include_images=fmt == "npyimg", **kw)
    return S.MATFlowFieldScheduler(
        include_images=fmt in ("matimg", "mat73"), output_shape=(3, 2), **kw
    )


HAS_IMAGES = {"npyimg", "matimg", "mat73"}
