"""Replays request histories on real flow-field schedulers."""

import os

import wk

wk.quiet()
import numpy as np  # noqa: E402
import jax  # noqa: E402
import files as F  # noqa: E402


def batch_event(store, b, n):
    m = b.mask
    return dict(
        items=store.items(b.flow_fields, store.labels(b.files)),
        labels=store.labels(b.files),
        mask=[] if m is None else [int(x) for x in np.asarray(m)],
        im1=store.images(b.images1, store.im1),
        im2=store.images(b.images2, store.im2),
    )


EMPTY = dict(items=[], labels=[], mask=[], im1=[], im2=[])
KIND = {"ok": "ok", "StopIteration": "stop", "hang": "hang"}


def run(job):
    stores, traces, hangs = {}, [], 0
    for sc in job["scenarios"]:
        if hangs >= 3:
            break
        fmt, n = sc["fmt"], sc["n"]
        k = (fmt, tuple(n), sc.get("zero", False))
        if k not in stores:
            stores[k] = F.Store(os.path.join(wk.scratch(), f"s{len(stores)}"), fmt, n, sc.get("zero", False))
        store = stores[k]
        for f in range(1, len(n) + 1):
            store.set(f, bool(sc["ok0"][f - 1]), sc["mode"])
        kw = dict(
            file_list=[store.path(f) for f in sc["list"]],
            randomize=sc["rand"],
            loop=sc["loop"],
            key=jax.random.PRNGKey(sc["key"]),
        )
        kind, s = wk.outcome(lambda: F.make_scheduler(fmt, **kw))
        ev = []
        if kind != "ok":
            ev.append(dict(op="construct", n=0, kind=kind, **EMPTY))
        for op, a in sc["ops"] if s is not None else []:
            e = dict(op=op, n=a, kind="ok", **EMPTY)
            if op == "get":
                kind, b = wk.outcome(lambda: s.get_batch(a), 4)
                e["kind"] = KIND.get(kind, "error")
                if kind == "ok":
                    k2, d = wk.outcome(lambda: batch_event(store, b, a))
                    if k2 == "ok":
                        e.update(d)
                    else:
                        e["kind"] = "malformed"
            elif op == "reset":
                kind, _ = wk.outcome(s.reset)
                e["kind"] = kind
            else:
                store.set(a, op == "repair", sc["mode"])
            ev.append(e)
            if kind == "hang":
                hangs += 1
                break
        traces.append(
            dict(
                id=sc["id"],
                cfg=dict(
                    list=sc["list"], n=n, loop=sc["loop"], rand=sc["rand"],
                    ok=[bool(x) for x in sc["ok0"]], img=int(fmt in F.HAS_IMAGES),
                ),
                ev=ev,
            )
        )
    return traces


if __name__ == "__main__":
    wk.serve(run)
