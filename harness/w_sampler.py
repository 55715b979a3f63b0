"""Runs real synthetic samplers over tagged flow fields and records what they deliver."""

import hashlib
import os
import time

import numpy as np
import scipy.io

import wk

wk.quiet()
import jax  # noqa: E402
from synthpix.sampler import SyntheticImageSampler  # noqa: E402
from synthpix.scheduler import (  # noqa: E402
    EpisodicFlowFieldScheduler,
    MATFlowFieldScheduler,
    PrefetchingFlowFieldScheduler,
)
from synthpix.scheduler.protocol import EpisodeEnd  # noqa: E402
from synthpix.types import ImageGenerationSpecification, SchedulerData  # noqa: E402

R = 3
SHIFTS = [(dx, dy) for dx in range(-R, R + 1) for dy in range(-R, R + 1) if (dx, dy) != (0, 0)]
TAG = {s: k + 1 for k, s in enumerate(SHIFTS)}
TAG[(0, 0)] = 0
IMG = (16, 20)  # pixels
FIELD = (32, 36)  # pixels


def shift_of(k):
    """Displacement (dx, dy) in pixels carried by flow number k (0: none)."""
    return (0, 0) if k == 0 else SHIFTS[(k - 1) % len(SHIFTS)]


class Stub:
    """A flat scheduler delivering N batches of F tagged constant flows per pass."""

    def __init__(self, c, grid, unit):
        self.c, self.grid, self.unit = c, grid, unit
        self.pos, self.gets, self.downs = 0, 0, 0

    @property
    def file_list(self):
        return ["x"]

    @file_list.setter
    def file_list(self, v):
        pass

    def get_flow_fields_shape(self):
        return (self.grid[0], self.grid[1], 2)

    def shutdown(self):
        self.downs += 1

    def data(self, base, valid, n):
        f = np.zeros((n, *self.grid, 2), np.float32)
        for j in range(valid):
            dx, dy = shift_of(base + j + 1)
            f[j, ..., 0], f[j, ..., 1] = dx * self.unit, dy * self.unit
        return SchedulerData(
            flow_fields=f,
            mask=np.array([j < valid for j in range(n)]),
            files=tuple(f"flow/{(base + j) // self.c['per'] + 1}.x" if j < valid else "" for j in range(n)),
        )

    def get_batch(self, n):
        self.gets += 1
        if self.pos >= self.c["N"]:
            raise StopIteration
        self.pos += 1
        v = self.c["V"] if self.pos == self.c["N"] else n
        return self.data((self.pos - 1) * n, v, n)

    def reset(self):
        self.pos = 0


class EpiStub(Stub):
    """An endless episodic scheduler of tagged constant flows."""

    def __init__(self, *a):
        super().__init__(*a)
        self.ep, self.step = 1, 0

    @property
    def episode_length(self):
        return self.c["L"]

    def steps_remaining(self):
        return self.c["L"] - self.step

    def next_episode(self):
        self.ep, self.step = self.ep + 1, 0

    def get_batch(self, n):
        self.gets += 1
        if self.gets in self.c.get("slow", ()):
            time.sleep(3.3 * self.c["steady"])
        if self.step >= self.c["L"]:
            raise EpisodeEnd
        self.step += 1
        return self.data(((self.ep - 1) * self.c["L"] + self.step - 1) * n, n, n)

    def reset(self):
        self.ep, self.step = 1, 0


def file_scheduler(c, grid, unit, uid):
    """A real episodic scheduler over .mat files whose names tell their tags."""
    root = os.path.join(wk.scratch(), f"ep{uid}")
    files = []
    for q in range(c["seqs"]):
        d = os.path.join(root, f"s{q}")
        os.makedirs(d)
        for t in range(c["frames"]):
            k = q * 16 + t + 1
            f = np.zeros((*grid, 2), np.float32)
            dx, dy = shift_of(k)
            f[..., 0], f[..., 1] = dx * unit, dy * unit
            p = os.path.join(d, f"f_{k:04d}.mat")
            scipy.io.savemat(p, {"V": f})
            files.append(p)
    base = MATFlowFieldScheduler(files, randomize=False, loop=False, output_shape=grid)
    return EpisodicFlowFieldScheduler(base, batch_size=c["F"], episode_length=c["L"], key=jax.random.PRNGKey(uid))


class Lane:
    def __init__(self, c, uid):
        self.c = c
        res, dt = c["res"], c["dt"]
        unit = 1.0 / (res * dt)
        g = c["grid"]
        grid = (int(FIELD[0] * g), int(FIELD[1] * g))
        if c.get("free"):
            sch = file_scheduler(c, grid, unit, uid)
        else:
            sch = (EpiStub if c["L"] else Stub)(c, grid, unit)
        self.stub = self.sch = sch
        if c["pf"]:
            self.sch = PrefetchingFlowFieldScheduler(sch, c["F"], buffer_size=c["buf"], steady_state_timeout=c["steady"])
        plain = not c.get("noisy")
        spec = ImageGenerationSpecification(
            batch_size=c["B"], image_shape=IMG, img_offset=(5.0 / res, 5.0 / res),
            seeding_density_range=(0.12, 0.12) if plain else (0.1, 0.2),
            p_hide_img1=0.0 if plain else 0.1, p_hide_img2=0.0 if plain else 0.2,
            diameter_ranges=[(0.8, 1.0)] if plain else [(0.5, 0.8), (0.8, 1.2)],
            diameter_var=0.0 if plain else 0.5,
            intensity_ranges=[(80.0, 200.0)], intensity_var=0.0 if plain else 2.0,
            rho_ranges=[(-0.2, 0.2)], rho_var=0.0 if plain else 0.1, dt=dt,
            noise_uniform=0.0 if plain else 2.0,
            noise_gaussian_std=0.0 if plain else 1.0,
        )
        top = 4 * unit
        self.s = SyntheticImageSampler(
            self.sch, c["K"], c["F"], (FIELD[0] / res, FIELD[1] / res), res,
            c["vpp"], c["seed"], top, top, -top, -top, c["units"],
            device_ids=c["devices"], generation_specification=spec,
        )
        self.scale = 1.0 if c["units"] == "pixels" else res * dt

    # ------------------------------------------------------------- decoding
    def flow_tag(self, f):
        f = np.asarray(f, np.float64) * self.scale
        m = f.reshape(-1, 2).mean(0)
        if np.abs(f - m).max() > 2e-3 or np.abs(m - np.round(m)).max() > 2e-3:
            return -1
        return TAG.get((int(round(m[0])), int(round(m[1]))), -1)

    def move_tag(self, a, b):
        """The displacement that turns image a into image b (-1: none or several)."""
        h, w = a.shape
        best = []
        inner = b[R:h - R, R:w - R]
        for (dx, dy), t in TAG.items():
            src = a[R - dy:h - R - dy, R - dx:w - R - dx]
            # (a particle whose patch is cut differently by rounding may differ)
            if (np.abs(inner - src) > 4.0).sum() <= 4:
                best.append(t)
        return best[0] if len(best) == 1 else -1

    def number(self, name):
        if name == "":
            return 0
        base = os.path.basename(name)
        return int("".join(ch for ch in base if ch.isdigit()))

    def event(self, op, lane):
        c = self.c
        e = dict(op=op, lane=lane, kind="ok", n=0, flow=[], move=[], mask=[], files=[],
                 done="none", gets=0, d1=[], d2=[], dev=1)
        fn = {
            "next": lambda: next(self.s), "reset": lambda: self.s.reset(),
            "reset_self": lambda: self.s.reset(scheduler_reset=False),
            "next_episode": lambda: self.s.next_episode(),
            "shutdown": lambda: self.s.shutdown(),
        }[op]
        g0, d0 = getattr(self.stub, "gets", 0), getattr(self.stub, "downs", 0)
        k, b = wk.outcome(fn, 60)
        e["kind"] = {"StopIteration": "stop", "EpisodeEnd": "episode_end"}.get(k, k)
        e["gets"] = getattr(self.stub, "gets", 0) - g0
        if op == "shutdown":
            e["gets"] = getattr(self.stub, "downs", 0) - d0
            if c["pf"] or c.get("free"):
                e["gets"] = 0 if (c["pf"] and self.sch.is_running()) else 1
        if op != "next" or k != "ok":
            return e
        try:
            i1, i2 = np.asarray(b.images1), np.asarray(b.images2)
            fl = np.asarray(b.flow_fields)
            e["n"] = len(i1)
            if i1.shape[1:] != IMG or i2.shape != i1.shape:
                e["n"] = -1
            e["flow"] = [self.flow_tag(f) for f in fl]
            noisy = c.get("noisy")
            e["move"] = [
                t if noisy else self.move_tag(x, y) for t, x, y in zip(e["flow"], i1, i2)
            ]
            e["mask"] = [int(v) for v in np.asarray(b.mask)] if b.mask is not None else [-1]
            e["files"] = [self.number(f) for f in b.files] if b.files is not None else [-1]
            if b.done is not None:
                d = np.asarray(b.done)
                e["done"] = "true" if d.all() else "false" if not d.any() else "mixed"
                if d.shape != (len(i1),) or d.dtype != bool:
                    e["done"] = "malformed"
            if c["dig"]:
                e["d1"] = [hashlib.sha1(x.tobytes()).hexdigest()[:16] for x in i1]
                e["d2"] = [hashlib.sha1(x.tobytes()).hexdigest()[:16] for x in i2]
            if c.get("expect_devices") is not None:
                ids = sorted(d.id for d in b.images1.devices())
                e["dev"] = int(ids == sorted(c["expect_devices"]))
        except Exception as ex:  # noqa: BLE001 - a batch that cannot be read
            e["kind"] = "malformed:" + type(ex).__name__
        return e


def run(job):
    out = []
    uid = 0
    for t in job["tests"]:
        ev, lanes = [], []
        for i, c in enumerate(t["lanes"], 1):
            uid += 1
            k, l = wk.outcome(lambda: Lane(c, uid), 120)
            lanes.append(l)
            ev.append(dict(op="construct", lane=i, kind=k, n=0, flow=[], move=[], mask=[], files=[],
                           done="none", gets=0, d1=[], d2=[], dev=1))
        for i, op in t["ops"]:
            if lanes[i - 1] is not None:
                ev.append(lanes[i - 1].event(op, i))
                t0 = time.time()
                # a slow loader: nothing available yet, ask again
                while t["lanes"][i - 1].get("lag") and ev[-1]["kind"] == "stop" and time.time() - t0 < 60:
                    ev.append(lanes[i - 1].event(op, i))
        for l in lanes:
            if l is not None:
                wk.outcome(l.s.shutdown, 20)
        out.append(dict(id=t["id"], cfg=dict(lanes=t["lanes"]), ev=ev))
    return out


if __name__ == "__main__":
    wk.serve(run)
