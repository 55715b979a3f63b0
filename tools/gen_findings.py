"""Writes known_findings.json: defects repaired in /repo (and none left open)."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout
H = {l.split(" ", 1)[1]: l.split(" ", 1)[0] for l in log.splitlines()}
F = [
 ("P01", "deliver a file listed twice", "a file listed twice in a row was delivered once: the cache kept the exhausted file"),
 ("P03", "do not loop forever", "a looping scheduler none of whose files can be loaded never returned"),
 ("P02", "pad the last batch of colour images", "get_batch raised on a partial batch with RGB images"),
 ("P05", "accept directories of .h5 files", "a directory of .h5 files was refused as having no files"),
 ("P05", "resize .mat images", ".mat images were resized to (width, height)"),
 ("P08", "do not drop a prefetched batch", "with a full buffer the end-of-stream signal displaced the oldest undelivered batch"),
 ("P11", "stop the prefetching thread", "shutdown left the loader thread blocked on a full queue"),
("P11", "stopping prefetch thread does not wait", "a loader reaching the end of data during a shutdown lingered for two seconds on the refilled queue"),
 ("P09", "drop late batches of a skipped episode", "batches of a skipped episode arriving after the flush timeout were delivered in the next one"),
 ("P08", "start the prefetching thread once", "two consumers racing for the first batch started two loaders"),
 ("P06", "keep episodes intact over a shuffling", "the wrapped scheduler's reset reshuffled the interleaved episode order"),
 ("P07", "discover leaf directories", "episode draws depended on the hash seed through set order"),
 ("P06", "build episodes from the listed files only", "episodes included unlisted files lying in the same directory"),
 ("P04", "let the configured seed reach", "the configured seed never reached the schedulers' shuffling"),
 ("P26", "wrap schedulers with the batch size", "the episodic/prefetching layers were built with batch_size though the sampler requests flow_fields_per_batch"),
 ("P26", "accept the documented configuration", "documented configurations for real images were refused (string file_list, missing flow_fields_per_batch)"),
 ("P19", "do not lose image rows", "int() truncation lost a row or column of the position bounds"),
 ("P16", "do not serve old flow fields", "after the end of data a synthetic sampler served the previous flow batch again"),
 ("P14", "use one batch per flow batch", "prefetched episodic schedulers were not recognised as episodic: batches_per_flow_batch > 1 was kept"),
 ("P17", "spread any number of flow fields", "with several devices a flow batch not divisible by their number was refused at the first batch"),
 ("P20", "move particles by the flow also", "displacements were off by up to one grid step in the region's length when the particle region is not a whole number of grid steps (image 36x30, resolution 4, grid 0.5 steps per pixel: 2.8 %)"),
 ("P20", "keep the image at its offset", "with padding rounded up to whole grid steps, image and flow were taken up to one grid step off the configured offset"),
 ("P26", "refuse repeated device IDs", "device_ids with a repeated ID was accepted and failed at the first batch"),
 ("P26", "refuse a velocities_per_pixel", "a velocities_per_pixel below one sample per image was accepted and produced empty flow fields"),
 ("P27", "refuse NaN for dt", "NaN was accepted for dt and noise_gaussian_std"),
 ("P01", "skip .npy entries whose images", "an .npy entry with an unreadable image made every further request fail instead of being skipped"),
 ("P32", "keep the step counter", "iter() in the middle of an episode rewound the step counter but not the file cursor"),
 ("P34", "sample flow functions", "flow functions were sampled with x and y swapped and with a time of shape (1,)"),
 ("P29", "draw particles at the border", "particles near or beyond the border of the region were drawn shifted inward"),
 ("P29", "center the patch", "patches were not centred on the nearest pixel; particles with diameters below 2/3 could be drawn without their nearest pixel"),
 ("P28", "keep every configuration value", "rewriting the configuration changed the type or value of unrelated entries"),
]
out = []
for p, pre, what in F:
    c = [h for s, h in H.items() if s.startswith("fix: " + pre)]
    assert len(c) == 1, (pre, c)
    out.append(dict(property=p, status="fixed", commit=c[0], what=what,
                    text=f"fixed: property={p} {c[0]} {what}"))
out.append(dict(
    property="P06", status="known", match=r"^unreadable-frame\d\|not-contiguous$",
    what="a frame of an episode that cannot be loaded is skipped by the wrapped scheduler, "
    "so from there on every lane delivers frames of another step or lane (history: a sequence of 4 "
    "frames, the second unreadable, episode length 4, second get_batch)"))
json.dump(dict(findings=out), open(os.path.join(V, "known_findings.json"), "w"), indent=1)
