"""Writes flow files with patterned contents and records what the schedulers deliver."""

import os

import wk

wk.quiet()
import h5py  # noqa: E402
import numpy as np  # noqa: E402
import scipy.io  # noqa: E402
from PIL import Image  # noqa: E402
import synthpix.scheduler as S  # noqa: E402

SC = 64


def stored(pat, f, s, h, w):
    y, x, c = np.meshgrid(np.arange(h), np.arange(w), np.arange(2), indexing="ij")
    if pat == "code":
        v = f * 400 + s * 100 + (y * 7 + x) * 2 + c + 1
    elif pat == "const":
        v = np.where(c == 0, 2 + f, 5 + f)
    elif pat == "rows":
        v = 8 * (y + 1) + f
    else:
        v = 8 * (x + 1) + f
    return v


def stored_image(pat, k, h, w):
    y, x = np.meshgrid(np.arange(h), np.arange(w), indexing="ij")
    v = {
        "code": (k * 50 + y * 7 + x) % 256, "const": 10 + 20 * k + 0 * y,
        "rows": 16 * y + k, "cols": 16 * x + k,
    }[pat]
    return v.astype(np.uint8)


def write(t, root):
    fmt, h, w, pat = t["fmt"], t["h"], t["w"], t["pat"]
    paths = []
    for f in range(1, t["nf"] + 1):
        if fmt == "h5":
            p = os.path.join(root, f"vol{f}.h5")
            vol = np.stack([stored(pat, f, s, h, w) for s in range(t["ns"])], axis=1)
            with h5py.File(p, "w") as g:
                g[t["key"]] = vol.astype(t["dtype"])
        elif fmt == "npy":
            p = os.path.join(root, f"flow_{2 * f}.npy")
            np.save(p, stored(pat, f, 0, h, w).astype(t["dtype"]))
            if t["img"]:
                for k in (2 * f - 1, 2 * f):
                    Image.fromarray(stored_image(pat, k, h, w)).save(
                        os.path.join(root, f"img_{k}.jpg"), quality=100
                    )
        else:
            p = os.path.join(root, f"m{f}.mat")
            v = stored(pat, f, 0, h, w).astype(t["dtype"])
            if t["chw"]:
                v = np.transpose(v, (2, 0, 1))
            d = {"V": v}
            if t["img"] or t["extra"]:
                d["I0"] = stored_image(pat, 2 * f - 1, h, w)
                d["I1"] = stored_image(pat, 2 * f, h, w)
            if t["enc"] == "h5":
                with h5py.File(p, "w") as g:
                    for k, a in d.items():
                        g[k] = a
            else:
                scipy.io.savemat(p, d, format="5", do_compression=t["enc"] == "z")
        paths.append(p)
    return paths


def make(t, file_list):
    if t["fmt"] == "h5":
        return S.HDF5FlowFieldScheduler(file_list)
    if t["fmt"] == "npy":
        return S.NumpyFlowFieldScheduler(file_list, include_images=bool(t["img"]))
    return S.MATFlowFieldScheduler(
        file_list, include_images=bool(t["img"]), output_shape=(t["oh"], t["ow"])
    )


def ints(a, scale):
    a = np.asarray(a, np.float64) * scale
    r = np.rint(a)
    return [int(x) for x in r.ravel()]


BLANK = dict(
    op="", kind="ok", f=0, s=0, wf=0, ws=0, fshape=[], flow=[], im1=[], im2=[],
    shape1=[], shape2=[], got=[], want=[],
)


def event(**kw):
    return {**BLANK, **kw}


def one(t, root):
    os.makedirs(root)
    paths = write(t, root)
    ids = {os.path.abspath(p): k + 1 for k, p in enumerate(paths)}
    ev = []
    kind, s = wk.outcome(lambda: make(t, list(paths)))
    if kind != "ok":
        return [event(op="slice", kind=kind)]
    kind, shp = wk.outcome(s.get_flow_fields_shape)
    ev.append(event(op="shape", kind=kind, fshape=[int(x) for x in shp] if kind == "ok" else []))
    ns = t["ns"] if t["fmt"] == "h5" else 1
    want = [(f, k) for f in range(1, t["nf"] + 1) for k in range(ns)]
    i = 0
    while i < len(want):
        b = min(t["batch"], len(want) - i)
        kind, d = wk.outcome(lambda: s.get_batch(b))
        for j in range(b):
            wf, ws = want[i + j]
            if kind != "ok":
                ev.append(event(op="slice", kind=kind, f=wf, s=ws, wf=wf, ws=ws))
                return ev
            try:
                v = np.asarray(d.flow_fields[j])
                a = b_ = None
                if d.images1 is not None:
                    a, b_ = np.asarray(d.images1[j]), np.asarray(d.images2[j])
                ev.append(
                    event(
                        op="slice", wf=wf, ws=ws, s=ws, f=ids.get(os.path.abspath(d.files[j]), -1),
                        fshape=list(v.shape), flow=ints(v, SC),
                        im1=[] if a is None else ints(a, 1), im2=[] if a is None else ints(b_, 1),
                        shape1=[] if a is None else list(a.shape),
                        shape2=[] if a is None else list(b_.shape),
                    )
                )
            except Exception as e:
                ev.append(event(op="slice", kind=type(e).__name__, f=wf, s=ws, wf=wf, ws=ws))
                return ev
        i += b
    kind, _ = wk.outcome(lambda: s.get_batch(1))
    ev.append(event(op="end", kind="stop" if kind == "StopIteration" else kind))
    # directories stand for the matching files in them
    sub = os.path.join(root, "sub")
    os.makedirs(sub)
    t2 = dict(t, nf=2)
    inner = write(t2, sub)
    for junk in ("notes.txt", "other.dat", "img_99.jpg"):
        open(os.path.join(sub, junk), "w").write("x")
    for listing, want in (
        ([sub], inner),
        ([paths[0], sub], [paths[0]] + inner),
        ([sub, paths[-1]], inner + [paths[-1]]),
    ):
        kind, s = wk.outcome(lambda: make(t, listing))
        got = []
        if kind == "ok":
            n = ns * len(want)
            kind, d = wk.outcome(lambda: s.get_batch(n + 1))
            if kind == "ok":
                got = [os.path.relpath(p, root) if p else "" for p in d.files[::ns]]
        want = [os.path.relpath(p, root) for p in want] + [""]
        ev.append(event(op="dir", kind=kind, got=got, want=want))
    return ev


def run(job):
    out = []
    for k, t in enumerate(job["tests"]):
        ev = one(t, os.path.join(wk.scratch(), f"t{k}"))
        cfg = {x: t[x] for x in ("pat", "h", "w", "oh", "ow", "img")}
        cfg["rgb"] = int(t["fmt"] == "npy")
        out.append(dict(id=t["id"], cfg=cfg, ev=ev))
    return out


if __name__ == "__main__":
    wk.serve(run)
