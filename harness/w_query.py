"""Real stacks of schedulers and samplers: one is asked questions, its twin is not."""

import hashlib
import os

import wk

wk.quiet()
import numpy as np  # noqa: E402
import scipy.io  # noqa: E402
import jax  # noqa: E402
import files as F  # noqa: E402
from synthpix.sampler import RealImageSampler, SyntheticImageSampler  # noqa: E402
from synthpix.scheduler import EpisodicFlowFieldScheduler, MATFlowFieldScheduler, PrefetchingFlowFieldScheduler  # noqa: E402
from synthpix.types import ImageGenerationSpecification  # noqa: E402


def write(root, c):
    """All files of a dataset."""
    if c["fmt"] != "mat":
        st = F.Store(root, c["fmt"], [c["slices"]] * c["n"])
        out = [st.path(f) for f in range(1, c["n"] + 1)]
        return out[1::2] + out[::2]
    out = []
    for d in range(c["dirs"]):
        os.makedirs(os.path.join(root, f"s{d}"), exist_ok=True)
        for k in range(c["n"] // c["dirs"]):
            p = os.path.join(root, f"s{d}", f"{k:04d}.mat")
            v = 0.01 * (10 * d + k + 1)
            scipy.io.savemat(p, {"V": np.full((*c["shape"][:2], 2), v, np.float32),
                                 "I0": np.full(c["shape"][:2], 10 * d + k + 1, np.uint8),
                                 "I1": np.full(c["shape"][:2], 100 + 10 * d + k, np.uint8)})
            out.append(p)
    return out


def stack(c, paths):
    """The layers, outermost first."""
    kw = dict(randomize=c["rand"], loop=c["loop"], key=jax.random.PRNGKey(c["seed"]))
    if c["fmt"] == "mat":
        s = MATFlowFieldScheduler(list(paths), include_images=True, output_shape=tuple(c["shape"][:2]), **kw)
    else:
        s = F.make_scheduler(c["fmt"], file_list=list(paths), **kw)
    layers = [s]
    if c["L"]:
        layers.insert(0, EpisodicFlowFieldScheduler(layers[0], c["B"], c["L"], key=jax.random.PRNGKey(c["seed"] + 1)))
    if c["prefetch"]:
        layers.insert(0, PrefetchingFlowFieldScheduler(layers[0], c["B"], buffer_size=c["prefetch"], steady_state_timeout=20.0))
    if c["top"] == "real":
        layers.insert(0, RealImageSampler(layers[0], c["B"]))
    elif c["top"] == "synthetic":
        spec = ImageGenerationSpecification(batch_size=c["B"], image_shape=(16, 16), img_offset=(2, 2))
        layers.insert(0, SyntheticImageSampler(
            layers[0], c["bpf"], c["B"], (24.0, 24.0), 1.0, 1, c["seed"], 1.0, 1.0, -1.0, -1.0, "pixels",
            generation_specification=spec))
    return layers


def digest(b):
    h = hashlib.sha1()
    for x in (b.images1, b.images2, b.flow_fields, b.mask, getattr(b, "done", None)):
        h.update(repr(None if x is None else (np.asarray(x).shape, str(np.asarray(x).dtype))).encode())
        h.update(b"" if x is None else np.ascontiguousarray(np.asarray(x)).tobytes())
    h.update(repr(b.files).encode())
    return h.hexdigest()


def request(layers, op, c):
    top = layers[0]

    def do():
        if op == "get":
            return digest(next(top) if c["top"] else top.get_batch(c["B"]))
        if op == "next":
            return top.next_episode()
        return top.reset()
    return wk.outcome(do, 60)


def question(layers, c, q, k, paths):
    """The answer of layer k, as integers."""
    scheds = layers[1:] if c["top"] else layers
    s = scheds[k % len(scheds)]
    inner = s is not scheds[0] and bool(c["prefetch"])  # its state runs ahead of what was delivered

    def ask():
        if q == "shape":
            return [int(v) for v in s.get_flow_fields_shape()]
        if q == "len":
            return [len(scheds[-1])] if not c["L"] else [len(next(x for x in scheds if isinstance(x, EpisodicFlowFieldScheduler)))]
        if q == "remaining":
            return [int(scheds[0].steps_remaining())]
        if q == "length":
            return [int(scheds[0].episode_length)]
        if q == "running":
            return [int(scheds[0].is_running())]
        if q == "files":
            got = [os.path.normpath(p) for p in s.file_list]
            if c["L"]:
                return [int(len(got) == c["B"] * c["L"] and set(got) <= set(paths))]
            return [int(sorted(got) == sorted(paths) if c["rand"] else got == paths)]
        x = layers[0] if c["top"] else s
        try:
            return [int(iter(x) is x)]
        except TypeError:
            return [0]
    del inner
    return wk.outcome(ask, 20)


def play(t, root):
    c = t["cfg"]
    paths = [os.path.normpath(p) for p in write(root, c)]
    k, pair = wk.outcome(lambda: (stack(c, paths), stack(c, paths)), 100)
    blank = dict(op="", kind="ok", kind2="ok", same=1, q="", v=[])
    ev = [dict(blank, op="construct", kind=k)]
    if k == "ok":
        A, B = pair
        for op, arg in t["ops"]:
            e = dict(blank, op=op)
            if op == "ask":
                e["q"] = arg[0]
                e["kind"], v = question(A, c, arg[0], arg[1], paths)
                e["v"] = v if v is not None else []
            else:
                e["kind"], a = request(A, op, c)
                e["kind2"], b = request(B, op, c)
                e["same"] = int(a == b)
            ev.append(e)
            if "hang" in (e["kind"], e["kind2"]) or (op == "get" and e["kind"] == "StopIteration"):
                break
        for x in (A[0], B[0]):
            wk.outcome(getattr(x, "shutdown", lambda: None), 20)
    return dict(id=t["id"], cfg=dict(L=c["L"], n=c["n"], shape=c["shape"]), ev=ev)


if __name__ == "__main__":
    wk.serve(lambda job: [play(t, os.path.join(wk.scratch(), f"q{k}")) for k, t in enumerate(job["tests"])])
