"""Whole pipelines built by make() over real files, from disk to batch."""

import os
import threading
import time

import numpy as np

import wk

wk.quiet()
import h5py  # noqa: E402
import scipy.io  # noqa: E402
from ruamel.yaml import YAML  # noqa: E402
from synthpix.make import make  # noqa: E402
from w_sampler import IMG, SHIFTS, TAG, Lane  # noqa: E402

SIDE = 32  # the stored fields are SIDE x SIDE, one sample per pixel
KIND = {"StopIteration": "stop", "EpisodeEnd": "episode_end"}


class Files:
    """The data set of one test; every slice carries its own constant flow."""

    def __init__(self, root, t):
        self.t, self.path, self.cell, self.paths = t, {}, {0: [0, 0]}, [None]
        self.unit = 1.0 / (t["res"] * t["dt"])
        tag = 0
        for d, names in enumerate(t["dirs"], 1):
            p = os.path.join(root, f"s{d}")
            os.makedirs(p)
            for f in range(1, names + 1):
                fid = len(self.paths)
                tags = list(range(tag + 1, tag + 1 + t["n"][fid - 1]))
                tag += len(tags)
                q = self.write(p, f, tags, t["ok"][fid - 1])
                self.paths.append(q)
                self.path[os.path.abspath(q)] = [d, f] if t["L"] else [fid, 0]
                for j, g in enumerate(tags):
                    self.cell[g] = [d, f] if t["L"] else [fid, j]
        self.root = root

    def flow(self, tag, scale=1.0):
        v = np.zeros((SIDE, SIDE, 2), np.float32)
        v[..., 0], v[..., 1] = (x * self.unit * scale for x in SHIFTS[tag - 1])
        return v

    def write(self, p, f, tags, ok):
        fmt = self.t["fmt"]
        path = os.path.join(p, f"flow_{f:02d}." + {"h5": "h5", "npy": "npy"}.get(fmt, "mat"))
        if not ok:
            with open(path, "wb") as g:
                g.write(b"not a data file")
        elif fmt == "h5":
            with h5py.File(path, "w") as g:
                g["u"] = np.stack([self.flow(x) for x in tags], 1) if tags else np.zeros((SIDE, 0, SIDE, 2), np.float32)
        elif fmt == "npy":
            np.save(path, self.flow(tags[0]))
        elif fmt == "mat":  # delivered with 256 x 256 samples, components scaled alike
            scipy.io.savemat(path, {"V": self.flow(tags[0], SIDE / 256)})
        else:  # images telling their flow
            im = lambda q: (np.arange(SIDE * SIDE).reshape(SIDE, SIDE) % (5 + q) + 4 * tags[0]).astype(np.uint8)
            scipy.io.savemat(path, {"V": self.flow(tags[0]), "I0": im(0), "I1": im(1)})
        return path

    def tag(self, v, scale):
        v = np.asarray(v, np.float64) * scale
        m = v.reshape(-1, 2).mean(0)
        if not np.isfinite(v).all() or np.abs(v - m).max() > 2e-3 or np.abs(m - np.round(m)).max() > 2e-3:
            return -1
        return TAG.get((int(round(m[0])), int(round(m[1]))), -1)

    def cells(self, tags):
        return [self.cell.get(g, [-1, -1]) for g in tags]

    def image_tag(self, a, q):
        a = np.asarray(a)
        if not a.any():
            return 0
        d = a - np.arange(SIDE * SIDE).reshape(SIDE, SIDE) % (5 + q)
        return int(d[0, 0]) // 4 if d.shape == (SIDE, SIDE) and (d == d[0, 0]).all() and d[0, 0] % 4 == 0 else -1


def config(fs, t):
    files = [fs.paths[k] for k in t["list"]]
    if t["how"] == "dirs":
        files = [os.path.join(fs.root, f"s{d}") for d in range(1, len(t["dirs"]) + 1)]
    c = dict(scheduler_class={"h5": ".h5", "npy": ".npy"}.get(t["fmt"], ".mat"), batch_size=t["S"], buffer_size=t["buf"],
             episode_length=t["L"], seed=t["seed"], file_list=files, randomize=t["rand"], loop=t["loop"])
    if not t["syn"]:
        return dict(c, include_images=True, image_shape=[SIDE, SIDE])
    res, top = t["res"], 3 * fs.unit
    off = 5.0 / res
    return dict(
        c, flow_fields_per_batch=t["F"], batches_per_flow_batch=t["K"], image_shape=list(IMG), img_offset=[off, off],
        seeding_density_range=[0.12, 0.12], p_hide_img1=0.0, p_hide_img2=0.0, diameter_ranges=[[0.8, 1.0]],
        diameter_var=0.0, intensity_ranges=[[80.0, 200.0]], intensity_var=0.0, rho_ranges=[[-0.2, 0.2]], rho_var=0.0,
        dt=t["dt"], noise_uniform=0.0, noise_gaussian_mean=0.0, noise_gaussian_std=0.0,
        flow_field_size=[SIDE / res, SIDE / res], resolution=res, velocities_per_pixel=1.0,
        max_speed_x=top, max_speed_y=top, min_speed_x=-top, min_speed_y=-top, output_units=t["units"])


BLANK = dict(op="", kind="ok", cells=[], move=[], labels=[], mask=[], done="none", params=0, late=0, threads=0)


def batch(fs, b, t):
    scale = t["res"] * t["dt"] if t["syn"] and t["units"] != "pixels" else 1.0 if t["syn"] else 1 / fs.unit
    fl, a, c = (np.asarray(x) for x in (b.flow_fields, b.images1, b.images2))
    tags = [fs.tag(v, scale) for v in fl]
    if not len(a) == len(c) == len(fl):
        return dict(kind="malformed")
    if t["syn"]:
        if a.shape[1:] != IMG or c.shape != a.shape:
            return dict(kind="malformed")
        move = [Lane.move_tag(None, x, y) for x, y in zip(a, c)]
    else:
        one, two = [fs.image_tag(x, 0) for x in a], [fs.image_tag(x, 1) for x in c]
        move = [x if x == y else -1 for x, y in zip(one, two)]
    done = "none"
    if b.done is not None:
        d = np.asarray(b.done)
        done = "shape" if d.shape != (len(a),) else "true" if d.all() else "mixed" if d.any() else "false"
    return dict(
        cells=fs.cells(tags), move=fs.cells(move), done=done, params=int(b.params is not None),
        labels=[[0, 0] if p == "" else fs.path.get(os.path.abspath(p), [-1, -1]) for p in b.files],
        mask=[int(x) for x in np.asarray(b.mask)])


def one(t, uid):
    fs = Files(os.path.join(wk.scratch(), f"p{uid}"), t)
    arg = config(fs, t)
    if t["src"] == "yaml":
        p = os.path.join(fs.root, "config.yaml")
        with open(p, "w") as f:
            YAML(typ="safe", pure=True).dump(arg, f)
        arg = p
    before = set(threading.enumerate())
    kind, s = wk.outcome(lambda: make(arg), 120)
    ev = [dict(BLANK, op="construct", kind=kind)]

    def ask(op):
        e = dict(BLANK, op=op)
        fn = {"next": lambda: next(s), "reset": s.reset, "reset_self": lambda: s.reset(scheduler_reset=False),
              "next_episode": s.next_episode, "shutdown": s.shutdown}[op]
        t0 = time.monotonic()
        k, b = wk.outcome(fn, 120)
        e["late"] = int(time.monotonic() - t0 > 0.9)
        e["kind"] = KIND.get(k, k)
        if op == "next" and k == "ok":
            k2, d = wk.outcome(lambda: batch(fs, b, t))
            e.update(d if k2 == "ok" else dict(kind="malformed"))
        if op == "shutdown":
            end = time.monotonic() + 20
            left = lambda: [x for x in threading.enumerate() if x not in before and x.is_alive()]
            while left() and time.monotonic() < end:
                time.sleep(0.02)
            e["threads"] = len(left())
        ev.append(e)
        return e

    if s is not None:
        over = False
        for op in t["ops"]:
            if over and op == "next" and t["pf"] and ev[-1]["late"]:
                continue  # each repeated request after the end takes a whole time-out
            e = ask(op)
            tries = 0
            if op in ("reset", "next_episode"):
                over = False
            if op == "shutdown" or (op == "next" and e["kind"] == "stop" and not e["late"]):
                over = True  # the end was signalled
            # the loader was late, not at its end: ask again
            while t["pf"] and not over and op == "next" and e["kind"] == "stop" and e["late"] and tries < 20:
                e, tries = ask(op), tries + 1
            if e["kind"] == "hang":
                break
        wk.outcome(s.shutdown, 30)
    keep = ("list", "n", "ok", "loop", "rand", "lens", "B", "F", "S", "K", "L", "pf", "syn")
    return dict(id=t["id"], cfg={k: t[k] for k in keep}, ev=ev)


if __name__ == "__main__":
    wk.serve(lambda job: [one(t, k) for k, t in enumerate(job["tests"])])
