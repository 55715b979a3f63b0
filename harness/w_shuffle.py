"""Runs lanes of shuffled schedulers and records the order of every pass."""

import os

import wk

wk.quiet()
import numpy as np  # noqa: E402
import jax  # noqa: E402
import files as F  # noqa: E402


def slices_to_files(items, n, cut):
    """File order of a sequence of slices; -1 marks a split or shuffled file."""
    order, i = [], 0
    while i < len(items):
        f = items[i][0]
        want = [[f, s] for s in range(n[f - 1])] if f > 0 else None
        got = items[i : i + len(want)] if want else None
        if want is None or got != want[: len(got)]:
            return order + [-1]
        if len(got) < len(want) and not cut:
            return order + [-1]
        order.append(f)
        i += len(want)
    return order


def lane_direct(store, lane, n):
    """Slices delivered, split by pass.  ops: list of 'get' (one slice) / 'reset'."""
    s = F.make_scheduler(
        store.fmt,
        file_list=[store.path(f) for f in range(1, len(n) + 1)],
        randomize=True, loop=lane["loop"], key=jax.random.PRNGKey(lane["key"]),
    )
    total = sum(n)
    passes, cur, p = [], [], 1
    for op, a in lane["ops"]:
        if op == "reset":
            passes.append((p, cur, len(cur) == total))
            kind, _ = wk.outcome(s.reset)
            if kind != "ok":
                return passes, kind
            p, cur = p + 1, []
        else:
            left = a if lane["loop"] else min(a, total - len(cur))
            kind, b = wk.outcome(lambda: s.get_batch(a), 5)
            if left == 0:
                if kind != "StopIteration":
                    return passes, "no-end"
                continue
            if kind != "ok":
                return passes, kind
            for x in store.items(b.flow_fields)[:left]:
                if len(cur) == total:
                    passes.append((p, cur, True))
                    p, cur = p + 1, []
                cur.append(x)
    passes.append((p, cur, len(cur) == total))
    return passes, "ok"


def lane_make(store, lane, n):
    from synthpix.make import make

    img = store.fmt in ("matimg", "mat73")
    cfg = dict(
        scheduler_class=F.Store.EXT[store.fmt], batch_size=1,
        file_list=[store.path(f) for f in range(1, len(n) + 1)],
        randomize=True, loop=lane["loop"], seed=lane["seed"], include_images=img,
        flow_fields_per_batch=1, buffer_size=lane.get("buffer", 0),
    )
    if img:
        cfg["image_shape"] = (3, 2)
    else:
        cfg.update(
            batches_per_flow_batch=1, image_shape=(3, 2), flow_field_size=(3, 2),
            flow_field_res_x=1.0, flow_field_res_y=1.0, resolution=1.0, dt=1.0,
            velocities_per_pixel=1.0, img_offset=(0.0, 0.0),
            min_speed_x=0.0, max_speed_x=0.0, min_speed_y=0.0, max_speed_y=0.0,
            output_units="pixels", seeding_density_range=(0.3, 0.4), p_hide_img1=0.0,
            p_hide_img2=0.0, diameter_ranges=[[1.0, 1.1]], diameter_var=0.0,
            intensity_ranges=[[80.0, 90.0]], intensity_var=0.0, rho_ranges=[[-0.1, 0.1]],
            rho_var=0.0, noise_uniform=0.0, noise_gaussian_mean=0.0, noise_gaussian_std=0.0,
            device_ids=[0], mask=None, histogram=None,
        )
    sampler = make(cfg)
    passes = []
    for p in range(1, lane["passes"] + 1):
        cur = []
        for _ in range(len(n)):
            kind, b = wk.outcome(lambda: next(sampler), 120)
            if kind != "ok":
                return passes, kind
            cur.append([store.labels(b.files)[0], 0])
        passes.append((p, cur, True))
        if p < lane["passes"] and not lane["loop"]:
            kind, _ = wk.outcome(sampler.reset)
            if kind != "ok":
                return passes, kind
    sampler.shutdown()
    return passes, "ok"


def run(job):
    traces, stores = [], {}
    for t in job["traces"]:
        fmt, n = t["fmt"], t["n"]
        k = (fmt, tuple(n))
        if k not in stores:
            stores[k] = F.Store(os.path.join(wk.scratch(), f"s{len(stores)}"), fmt, n)
        store = stores[k]
        ev = []
        for lane in t["lanes"]:
            fn = lane_make if "seed" in lane else lane_direct
            try:
                passes, kind = fn(store, lane, n)
            except Exception as e:
                passes, kind = [], type(e).__name__
            for p, items, whole in passes:
                ev.append(
                    dict(
                        op="pass", group=lane["group"], **{"pass": p}, kind="ok",
                        order=slices_to_files(items, n, not whole), whole=int(whole),
                    )
                )
            if kind != "ok":
                ev.append(
                    dict(op="pass", group=lane["group"], **{"pass": 0}, kind=kind, order=[], whole=0)
                )
        ev.append(dict(op="end", group="", **{"pass": 0}, kind="ok", order=[], whole=0))
        traces.append(dict(id=t["id"], cfg=dict(files=len(n)), ev=ev))
    return traces


if __name__ == "__main__":
    wk.serve(run)
