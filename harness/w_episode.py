"""Real episodic schedulers over generated directory layouts."""

import os

import wk

wk.quiet()
import numpy as np  # noqa: E402
import scipy.io  # noqa: E402
import jax  # noqa: E402
from synthpix.scheduler import MATFlowFieldScheduler, EpisodicFlowFieldScheduler  # noqa: E402

KIND = {"ok": "ok", "EpisodeEnd": "episode_end", "StopIteration": "stop", "hang": "hang"}


class Layout:
    """Sequence directories with some files unlisted, decoys and non-leaf parents.

    spec: list of dicts {name, frames, skip: [unlisted frames], as_dir: bool}."""

    def __init__(self, root, dirs, decoy_parent, order):
        self.cell, self.value, self.listing = {}, {}, []
        self.lens = []
        os.makedirs(root, exist_ok=True)
        per_dir = []
        for d, s in enumerate(dirs, 1):
            p = os.path.join(root, s["name"])
            os.makedirs(p, exist_ok=True)
            k = 0
            mine = []
            for f in range(s["frames"]):
                path = os.path.join(p, f"{f:04d}.mat")
                v = d * 100 + f + 1
                flow = np.full((3, 2, 2), v, np.float32)
                flow[..., 1] = -v
                scipy.io.savemat(path, {"V": flow})
                if f in s.get("broken", []):
                    open(path, "w").write("not a data file")
                if f in s["skip"]:
                    continue
                k += 1
                self.cell[os.path.normpath(path)] = [d, k]
                self.value[v] = [d, k]
                mine.append(path)
            self.lens.append(k)
            open(os.path.join(p, "readme.txt"), "w").write("x")
            per_dir.append([p] if s["as_dir"] else mine)
        flat = [x for ds in per_dir for x in ds]
        if decoy_parent:
            # a listed file beside a sequence directory: its directory is no leaf
            q = os.path.join(os.path.dirname(os.path.join(root, dirs[0]["name"])), "stray.mat")
            scipy.io.savemat(q, {"V": np.full((3, 2, 2), 9999, np.float32)})
            flat.append(q)
        if order == "reversed":
            flat.reverse()
        elif order == "mixed":
            flat = flat[1::2] + flat[0::2]
        self.listing = flat

    def decode(self, x):
        x = np.asarray(x)
        v = int(round(float(x.flat[0])))
        if not (x[..., 0] == v).all() or not (x[..., 1] == -v).all():
            return [-1, -1]
        return self.value.get(v, [-1, -1])


def build(lay, t):
    base = MATFlowFieldScheduler(
        list(lay.listing), randomize=t["rand"], loop=t["loop"], output_shape=(3, 2),
        key=jax.random.PRNGKey(t["key"] + 1),
    )
    return EpisodicFlowFieldScheduler(
        base, batch_size=t["B"], episode_length=t["L"], key=jax.random.PRNGKey(t["key"])
    )


def observe(lay, B, e):
    def get():
        b = e.get_batch(B)
        return dict(
            cells=[lay.decode(x) for x in b.flow_fields],
            labels=[lay.cell.get(os.path.normpath(p), [-1, -1]) for p in b.files],
            mask=[int(x) for x in b.mask],
        )

    kind, d = wk.outcome(get, 5)
    d = d or dict(cells=[], labels=[], mask=[])
    return dict(kind=KIND.get(kind, "error"), **d)


BLANK = dict(op="", kind="ok", cells=[], labels=[], mask=[], v=0, group="", no=0, all=0)


def run(job):
    out = []
    for k, t in enumerate(job["tests"]):
        lay = Layout(os.path.join(wk.scratch(), f"t{k}"), t["dirs"], t["decoy"], t["order"])
        kind, e = wk.outcome(lambda: build(lay, t))
        ev = [dict(BLANK, op="construct", kind=kind)]
        if kind == "ok":
            for op in t["ops"]:
                r = dict(BLANK, op=op)
                if op == "get":
                    r.update(observe(lay, t["B"], e))
                elif op == "draw":
                    r.update(observe(lay, t["B"], e), group=t["group"], no=len(ev))
                    wk.outcome(e.next_episode)
                elif op == "next":
                    r["kind"] = wk.outcome(e.next_episode)[0]
                elif op == "reset":
                    r["kind"] = wk.outcome(e.reset)[0]
                elif op == "rem":
                    kind, v = wk.outcome(e.steps_remaining)
                    r.update(kind=kind, v=int(v) if kind == "ok" else 0)
                elif op == "len":
                    kind, v = wk.outcome(lambda: e.episode_length)
                    r.update(kind=kind, v=int(v) if kind == "ok" else 0)
                ev.append(r)
                if r["kind"] == "hang":
                    break
        out.append(dict(id=t["id"], cfg=dict(lens=lay.lens, B=t["B"], L=t["L"]), ev=ev))
    return out


if __name__ == "__main__":
    wk.serve(run)
