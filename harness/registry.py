"""Which module decides which property, and how."""

WHERE = {"c_sched": ["P01", "P02", "P03", "P04", "P05"], "c_episode": ["P06", "P07"],
         "c_prefetch": ["P08", "P09", "P10", "P11", "P12"],
         "c_sampler": ["P13", "P14", "P15", "P16", "P17"],
         "c_image": ["P18", "P19", "P20"], "c_real": ["P21"],
         "c_numeric": ["P22", "P23", "P24", "P25"],
         "c_make": ["P26", "P27", "P28"],
         "c_draw": ["P29", "P30", "P31"], "c_query": ["P32"], "c_args": ["P33"],
         "c_flow": ["P34"], "c_pipeline": ["P35"]}

_T = "TLA+ model checked with TLC; behaviours replayed on the real code; traces validated by TLC"
_S = (
    "The cursor model is checked exhaustively for small lists (<=3 entries, batches <=3, faults "
    "between requests); the code is bound to it by replaying model-generated histories over six "
    "file formats and judging every recorded batch with the abstract specification. Trusts TLC, "
    "the trace recorder and the small scope."
)
_E = (
    "Episode model (shared cursor, interleaved lists, shuffled base) checked exhaustively for up to "
    "3 sequences; model histories replayed on random directory layouts and judged by a monitor that "
    "decodes every delivered slice."
)
_A = (
    "The sampler's state machine (flow cache, batch counter, key chain, episodes, device split) is "
    "checked exhaustively at small constants. Real samplers replay model histories over schedulers "
    "whose constant flows carry tags; the tag of the returned field and of the motion found in the "
    "images, masks, labels, done flags, scheduler requests and image digests are judged by TLC. "
    "Several devices are simulated CPU devices."
)
_P = (
    "TLA+ model of consumers, loader thread and queue checked with TLC (safety and liveness); "
    "controlled-interleaving executions of the real code validated by TLC"
)
_Q = (
    "The model is exhaustive for small buffers, streams and operation counts, including liveness under "
    "fairness. The code runs over stand-ins for threading/time/queue with a virtual clock: every "
    "synchronisation point (and, in part of the runs, every line) may switch threads; schedules are "
    "sampled at random, not enumerated."
)
_M = "TLA+ specification used as oracle and model checked with TLC; measurements of real runs validated by TLC"
NOTES = {
    "P01": (_T, _S),
    "P02": (_T, _S),
    "P03": (_T, _S),
    "P04": (_T, "Model of the draw chain and of the shuffled cursor checked exhaustively at small "
            "size; real passes (direct and through make()) recorded over reset/wrap histories and "
            "judged by TLC. 'Varies' is decided on fixed seeds."),
    "P05": ("TLA+ trace specification computing expected contents; real files written, delivered "
            "data validated by TLC", "Expected values are computed in the specification from the "
            "stored pattern; interpolated resizing is judged by ratio, constancy and monotonicity "
            "rather than by exact interpolation weights."),
    "P06": (_T, _E),
    "P07": (_T, _E + " Coverage of every admissible start is judged from a bounded number of draws "
            "(about 30 per start), reproducibility across four processes with different hash seeds."),
    **{p: (_P, _Q) for p in ("P08", "P09", "P10", "P11", "P12")},
    "P18": (_M, "A one-row image model (place, hide, deposit, clip, mask) is checked exhaustively at small "
            "size. Real images are measured: particle counts from total intensity, every parameter of "
            "single particles from an exact log-quadratic fit, extremes, masks; the specification's "
            "Judge decides each sample. Hiding with probability strictly between 0 and 1 and counts in a window are judged "
            "statistically (6 standard deviations)."),
    "P19": (_M, "The admission rule is proved sound and tight against particle motion for all small "
            "placements (TLC, one axis, both signs of speed); about 2000 placements at, just inside and just outside "
            "the limits (exact binary fractions) are offered to the real sampler, and batches are "
            "generated for some accepted ones. Decimal placements only away from the limits."),
    "P20": (_M, "The pixel/grid/crop/padding pipeline is checked exhaustively on one axis in whole pixels; "
            "single particles are recognised in both images of real pairs over affine fields to about "
            "a hundredth of a pixel and judged against the stored and the returned field. Fields whose "
            "samples do not coincide with pixels are judged to one pixel or grid step times the slope; the image "
            "offset is honoured to the pixel (a deliberate truncation in the code)."),
    "P21": (_T, "Model of the sampler over plain, episodic and prefetching stacks checked exhaustively; "
            "model histories replayed over real image files of three encodings and three value types, "
            "every delivered array identified exactly and judged by the scheduler and episode "
            "specifications."),
    **{p: (_M, x + " The specification computes the expected result in exact integers; inputs are "
           "exact in binary, so the real result must agree to one unit of the last place used.")
       for p, x in (
           ("P22", "A particle wandering over every small grid (stored values, range, continuity, edges) is "
            "model checked. Velocities are compared at every position of a lattice over and around small "
            "random grids, 2D and 3D."),
           ("P23", "A machine depositing pixels in any order is model checked against the closed form, with "
            "conservation. Real warps of random images and displacements (all shapes, fractional, leaving "
            "the image, negative time steps, callables) are compared pixel by pixel."),
           ("P24", "The level map is model checked over all small histograms (monotone, fixed point, closest). "
            "Real matchings of random images, and of generated image pairs, are compared level by level."),
           ("P25", "One axis of crop, padding and sampling is model checked. Both results of real calls with "
            "random rational regions, resolutions and paddings are compared sample by sample."))},
    "P26": (_T, "The factory machine is checked exhaustively over all layer combinations; its configurations are "
            "built for real (dictionary and YAML), the layers, sizes and the delivered files, episodes and "
            "repetitions judged by TLC, and the first batch compared bit by bit with a pipeline assembled by "
            "hand. About 250 invalid configurations (each documented constraint, alone and in pairs) must be "
            "refused."),
    "P27": (_T, "Construction and update histories are checked exhaustively for 3 fields; on the real classes every "
            "field meets values at and around its boundaries, alone, in pairs and through updates; the field "
            "constraints are written in TLA+ and decide each event. Booleans, infinities and NumPy integers are not "
            "used as values."),
    "P28": (_T, "The dialogue and the running extremes are checked exhaustively at small size; every model outcome is "
            "replayed with scripted answers on real files and configurations with awkward YAML values; entries are "
            "compared by key, type and content as a YAML reader sees them."),
    "P29": (_M, "A machine depositing particles in any order at any place on and off a one-row image is model "
            "checked against the sum. Real drawings of one and many particles (positions in eighths of a pixel, in, "
            "on and beyond the border; diameters in quarters; small and oblong images) are compared pixel by pixel "
            "with the logarithm of the Gaussian computed in integers, to about one percent of a decade."),
    **{p: (_M, "The derivation of keys is a TLA+ machine over which TLC shows that no two draws share a key; counts "
            "of real draws (single, in pairs, between particles, samples, images and batches) are judged by TLC to "
            "six standard deviations, with sizes at which a shared or skewed draw is far outside.")
       for p in ("P30", "P31")},
    "P32": (_T, "Twin stacks (every layer combination) replay model histories; one of them is asked questions in "
            "between. TLC compares deliveries and judges the answers against the history. Where a prefetched stack "
            "shuffles, resets are left out (how far the loader got is a matter of time)."),
    "P33": (_T, "Admissible calls are defined in TLA+ per callable; every argument takes values at and around its "
            "limits, alone and in random pairs, on real files and schedulers (about 1000 calls), and TLC decides each. "
            "Booleans and NumPy scalars given as numbers are not used."),
    "P34": (_M, "A machine sampling a function cell by cell and moving a particle by it is model checked; real samplings of "
            "random polynomial and discontinuous functions over eight grid shapes, particles at every grid point and warps "
            "by function and by samples are compared exactly."),
    "P35": (_T, "A machine of files, episodes, read-ahead, flow cache and user is checked exhaustively at small constants. "
            "About 40 pipelines built by make() from dictionaries and YAML over files whose slices carry distinct flows "
            "replay model histories; the flow returned, the motion in the images, labels, masks, done flags and the "
            "threads left after a shutdown are judged by TLC. Real threads and time: schedules are not controlled here."),
    **{p: (_T, _A) for p in ("P13", "P14", "P15", "P16", "P17")},
}
NOT_APPLICABLE = {}
