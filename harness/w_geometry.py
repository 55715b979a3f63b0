"""Offers placements to the real synthetic sampler and records its decision."""

import numpy as np

import wk

wk.quiet()
from synthpix.sampler import SyntheticImageSampler  # noqa: E402
from synthpix.types import ImageGenerationSpecification  # noqa: E402
from w_image import One  # noqa: E402

U = 64  # lengths are given in 1/64


def build(p):
    spec = ImageGenerationSpecification(
        batch_size=p["n"], image_shape=tuple(p["px"]), img_offset=tuple(v / U for v in p["off"]),
        seeding_density_range=tuple(p["density"]), p_hide_img1=p["hide"][0], p_hide_img2=p["hide"][1],
        diameter_ranges=[tuple(d) for d in p["dia"]], intensity_ranges=[(50.0, 200.0)], dt=p["dt"])
    flow = np.zeros((1, *p["grid"], 2), np.float32)
    flow[..., 0] += p["hi"][1] / U
    flow[..., 1] += p["lo"][0] / U
    conv = (lambda v: int(v)) if p["ints"] else float
    num = [v / U for v in (p["hi"][1], p["hi"][0], p["lo"][1], p["lo"][0])]
    if p["ints"]:
        num = [conv(v) if v == int(v) else v for v in num]
    return SyntheticImageSampler(
        One(flow), 1, 1, tuple(v / U for v in p["size"]), p["res"], p["vnum"] / p["vden"], 3, *num,
        p["units"], generation_specification=spec)


def run(job):
    out = []
    for t in job["tests"]:
        ev = []
        for p in t["points"]:
            d = p["dt"]
            axis = [dict(off=p["off"][k], img=int(p["px"][k] * U / p["res"]), size=p["size"][k],
                         lo=int(p["lo"][k] * d), hi=int(p["hi"][k] * d)) for k in (0, 1)]
            e = dict(y=axis[0], x=axis[1], px=p["px"], n=p["n"], vnum=p["vnum"], vden=p["vden"],
                     run="", s1=[], s2=[], sf=[], finite=1)
            k, s = wk.outcome(lambda: build(p), 60)
            e["kind"] = {"ok": "accepted", "ValueError": "refused"}.get(k, k)
            if k == "ok" and p["run"]:
                k, b = wk.outcome(lambda: next(s), 200)
                e["run"] = k
                if k == "ok":
                    e["s1"], e["s2"], e["sf"] = (list(x.shape) for x in (b.images1, b.images2, b.flow_fields))
                    e["finite"] = int(all(np.isfinite(np.asarray(x)).all() for x in (b.images1, b.images2, b.flow_fields)))
            e["desc"] = {k: str(v) for k, v in p.items()}
            ev.append(e)
        out.append(dict(id=t["id"], cfg={}, ev=ev))
    return out


if __name__ == "__main__":
    wk.serve(run)
