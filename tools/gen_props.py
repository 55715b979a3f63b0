import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=["src/synthpix/"+f for f in files],
        state=[dict(name=a,meaning=b,where="src/synthpix/"+c) for a,b,c in (state or [])],
        mechanism=[dict(name=a,where="src/synthpix/"+b) for a,b in mech],
        observe_at=observe or [],hook_needed=None)))

p("P01","One pass delivers every readable slice exactly once, in file order",
  "A non-shuffled, non-looping flow-field scheduler delivers, over one pass, every slice of every readable file exactly once, files in list order and slices in stored order, however the pass is split into batches of varying sizes. A file that cannot be loaded is skipped without losing, repeating or reordering any slice of the other files, and a file listed several times is delivered once per listing.",
  ["inputs","histories","fault_sequences"],"all file lists (sizes, duplicates, unreadable members), all slice counts, all sequences of batch sizes",
  "Tests iterate a handful of identical healthy files with one batch size; duplicates, unreadable files in the middle and changing batch sizes across file boundaries are not combined.",
  ["scheduler/base.py","scheduler/hdf5.py","scheduler/mat.py","scheduler/numpy.py"],
  [("cursor loop over files and slices","scheduler/base.py:_get_next"),("end-of-file signal","scheduler/hdf5.py:get_next_slice")],
  [("index/_slice_idx/_cached_file","cursor into the list and the cached file","scheduler/base.py")],["get_batch()"])
p("P02","Batches have the requested size; padding, mask and file labels are exact",
  "Every batch a scheduler returns has exactly the requested number of entries: the real slices first, each labelled with the file it came from, then all-zero entries with an empty label, and a mask that is true exactly on the real entries; images, when present, follow the same layout. A non-looping scheduler signals the end exactly when no slice is left, and keeps signalling it until it is reset.",
  ["inputs","histories"],"all file lists, batch-size sequences, file formats, with and without images",
  "Tests check a single partial batch for one format; padding of image batches and repeated calls after exhaustion are not exercised.",
  ["scheduler/base.py"],[("padding, mask and label assembly","scheduler/base.py:get_batch")],None,["get_batch().mask","get_batch().files"])
p("P03","Looping wraps seamlessly, reset restarts, and an unreadable set terminates",
  "A looping scheduler never signals the end: it delivers full, all-valid batches whose slices are the full pass repeated in order, also when a batch spans a wrap. Resetting any scheduler at any point makes the next slice the first one of a full pass. If none of the listed files can be read, a request ends with an error or end-of-data signal instead of running forever.",
  ["histories","inputs","fault_sequences"],"all histories of batch requests and resets on looping and non-looping schedulers, any subset of files unreadable",
  "Tests wrap once with one file; they cannot wait for a call that never returns, nor enumerate reset points inside a file.",
  ["scheduler/base.py"],[("wrap-around","scheduler/base.py:_get_next"),("reset","scheduler/base.py:reset")],None,["get_batch()","reset()"])
p("P04","Shuffling permutes whole files and is reproducible from the seed",
  "With shuffling on, every pass (the first, and each one after a reset or wrap) is a permutation of the whole file list in which each file's slices stay contiguous and in order, so nothing is lost or repeated. The order of every pass is a function of the key (or configured seed) and the number of passes so far, and it does vary between passes and between seeds.",
  ["histories","inputs","configurations"],"all keys/seeds, file lists and histories of resets and wraps",
  "Tests compare two orders for one key and mock the permutation; they do not check that passes after several resets and wraps stay permutations, nor that the configured seed reaches the shuffle.",
  ["scheduler/base.py","scheduler/hdf5.py","scheduler/mat.py","scheduler/numpy.py","make.py"],
  [("permutation on construction and reset","scheduler/base.py:__init__, reset"),("seed plumbing","make.py:make, from_config")],[("key","PRNG state","scheduler/base.py")],["file_list","get_batch()"])
p("P05","File contents reach the caller unchanged in every supported format",
  "Each delivered slice equals what the file stores: y-slices of an .h5 volume in order, the array of an .npy file together with the images of frames t-1 and t, and the flow and image pair of a .mat file in either the legacy or the HDF5-based encoding and in either channel order. When a .mat file is resized to the configured output shape, flow and images have exactly that (height, width) with rows staying rows, and each flow component is scaled by its own axis' ratio. A directory given in place of files stands for the matching files in it, and the advertised flow shape is the delivered one.",
  ["inputs","configurations"],"all formats, encodings, shapes (square or not), channel orders, directories and list mixes",
  "Tests use square shapes and one encoding each; transposed or swapped axes are invisible on square data and constant fields.",
  ["scheduler/hdf5.py","scheduler/mat.py","scheduler/numpy.py","scheduler/base.py"],
  [("format loaders","scheduler/*.py:load_file"),("resize and rescale","scheduler/mat.py:load_file")],None,["get_batch()","get_flow_fields_shape()"])
p("P06","Episodes are contiguous runs of one sequence, delivered in lockstep",
  "Between two episode starts, entry k of successive batches of an episodic scheduler steps through consecutive files, in temporal order, of one single sequence directory, using only files the user listed, and every episode has exactly the configured length. The step counter falls by one per batch, the end-of-episode signal is raised exactly when it is zero and repeatedly until the next episode, and starting the next episode at any point (early, late or twice) yields a fresh complete episode.",
  ["histories","inputs"],"all directory layouts and listings, batch sizes, episode lengths, sampled starts (also equal ones), histories of get/next/reset, shuffled or not underlying scheduler",
  "Tests check one layout with one seed; coincident starts, partial listings and a shuffling base scheduler depend on random draws and configurations the tests do not sample.",
  ["scheduler/episodic.py","utils.py"],[("interleaved file order","scheduler/episodic.py:_sample_new_episodes"),("start enumeration","scheduler/episodic.py:_calculate_starts")],
  [("_t","step in episode","scheduler/episodic.py")],["get_batch()","steps_remaining()"])
p("P07","Episode sampling is reproducible and can reach every admissible start",
  "The sequence of episodes drawn is a function of the key and the file list only: two processes given the same key and files draw the same episodes. Every start that leaves room for a full episode inside its sequence can be drawn and no other start ever is, and a listing with a sequence shorter than the episode length is rejected at construction.",
  ["inputs","configurations","histories"],"all keys, file lists, layouts, interpreter hash seeds",
  "Tests run in one process with one hash seed and draw few episodes; order dependence on hashing and unreachable last starts are not visible.",
  ["scheduler/episodic.py","utils.py"],[("start enumeration and draw","scheduler/episodic.py:_calculate_starts, _sample_new_episodes"),("leaf discovery","utils.py:discover_leaf_dirs")],None,["file_list after construction and next_episode()"])
p("P08","Prefetching neither loses, repeats nor reorders batches",
  "Under every interleaving of the background loader with the consumer, the batches obtained through a prefetching scheduler are exactly those of the wrapped scheduler, in the same order, each once, also when several consumer threads share it. The end-of-data signal is given only after every batch produced by the wrapped scheduler has been delivered, and is repeated afterwards.",
  ["schedules","histories"],"all thread interleavings, buffer sizes, stream lengths, slow/fast loaders and consumers, several consumers",
  "Tests run one wall-clock interleaving per case; the losing interleavings (full buffer at end of stream, consumer pausing) are not scheduled.",
  ["scheduler/prefetch.py"],[("bounded queue and end sentinel","scheduler/prefetch.py:_worker, get_batch")],[("_queue","prefetched batches","scheduler/prefetch.py")],["get_batch()"])
p("P09","Prefetched episodes never mix, even when skipped or loaded slowly",
  "When the wrapped scheduler is episodic, the prefetching scheduler delivers at most the episode length of batches per episode, all of them from one episode in step order, then the end-of-episode signal until the next episode is requested; the remaining-steps count matches what is still deliverable. After the next episode is requested, at any step and however slow the loader is, the next batch delivered is the first step of the following episode.",
  ["schedules","histories","fault_sequences"],"all interleavings, episode lengths, buffer sizes, skip points, loader delays beyond the flush deadline",
  "Tests skip once with an idle fast loader; a flush that times out leaves stale batches only under particular timing.",
  ["scheduler/prefetch.py"],[("episode flush","scheduler/prefetch.py:next_episode"),("step counter","scheduler/prefetch.py:get_batch")],[("_t","steps delivered in the current episode","scheduler/prefetch.py")],["get_batch()","steps_remaining()","next_episode()"])
p("P10","Resetting a prefetching scheduler yields only fresh batches from one loader",
  "After a reset of a prefetching scheduler returns, no batch loaded before the reset is ever delivered and the stream restarts with the first batch of the reset wrapped scheduler; this holds at any point: before the first batch, with the loader blocked, after the end of data, or after a shutdown. Reset always returns (if the wrapped scheduler's calls do), and at no time do two background loaders run or call the wrapped scheduler concurrently with each other or with its reset.",
  ["schedules","histories"],"all interleavings of loader and consumer around reset, repeated resets",
  "Tests reset at one moment of one interleaving; a stale batch or second loader needs the loader to be mid-load or mid-insert.",
  ["scheduler/prefetch.py"],[("stop, join, drain, restart","scheduler/prefetch.py:reset")],None,["reset()","get_batch()","wrapped scheduler calls"])
p("P11","Shutdown ends the background loader; read-ahead stays bounded",
  "Shutting down a prefetching scheduler (also twice, before the first batch, or after the end of data) returns promptly, releases a blocked consumer, and leaves no background loader running once the wrapped scheduler's current call returns, even if the loader was blocked on a full buffer. At any time the loader has fetched at most the buffer size plus one batches beyond those handed out or discarded.",
  ["schedules","histories"],"all interleavings, buffer sizes, shutdown points",
  "Tests shut down idle or quickly finishing loaders and do not look for a leaked thread in the interleaving where the freed slot is taken by the wake-up marker.",
  ["scheduler/prefetch.py"],[("stop event, slot freeing, join","scheduler/prefetch.py:shutdown"),("bounded queue","scheduler/prefetch.py:__init__")],None,["shutdown()","is_running()","thread liveness"])
p("P12","A slow or failing loader delays batches but never corrupts the stream",
  "A prefetched request gives up only after its full timeout (the start-up one until a first batch has been delivered, the steady one afterwards) has elapsed with nothing available, and giving up loses nothing: later requests continue with the next batch in order. A loader that fails never makes a request hang or deliver wrong data, every batch loaded before the failure is still delivered, and a reset recovers.",
  ["schedules","fault_sequences","histories"],"all loader delays relative to the timeouts, failures at any batch, all interleavings",
  "Tests use real clocks with a few delays; they cannot place the arrival of a batch exactly around a deadline or inject failures at each point.",
  ["scheduler/prefetch.py"],[("timed queue read","scheduler/prefetch.py:get_batch")],[("startup","no batch delivered yet","scheduler/prefetch.py")],["get_batch()"])
p("P13","Each flow batch serves its configured number of image batches, correctly paired",
  "A synthetic sampler draws one flow batch from its scheduler per configured number of image batches, in scheduler order and never more often; sample i of every image batch is generated from, and returned together with, flow i modulo the flows per batch, and the mask and file labels of the batch are those of that same flow batch.",
  ["histories","configurations"],"all values of batch size, flows per batch, batches per flow batch, and histories of next/reset",
  "Tests check shapes and a flow switch for one configuration; mismatched labels or pairing are invisible with identical flows.",
  ["sampler/synthetic.py","data_generate.py","utils.py"],[("reuse counter","sampler/synthetic.py:_get_next"),("round-robin over flows","data_generate.py:generate_images_from_flow; utils.py:flow_field_adapter")],
  [("_batches_generated","batches made from the current flows","sampler/synthetic.py")],["next(sampler)"])
p("P14","Episode end is signalled on the last batch and never leaks across episodes",
  "For an episodic scheduler, prefetched or not, the done flags of a sampler's batches are all true exactly on the last step of an episode and all false before; after it the sampler raises the end-of-episode signal on every request until the next episode is started. Every batch is generated from the episode and step it is delivered for, also after starting the next episode early, and without an episodic scheduler done is absent (or all false when prefetched) and next-episode is refused.",
  ["histories","configurations","schedules"],"all histories of next/next_episode/reset, episode lengths, prefetched or direct, real or synthetic sampler, any reuse setting",
  "Tests walk one episode of one composition; stale data after an early switch needs a specific history and a reuse count above one.",
  ["sampler/base.py","sampler/synthetic.py","sampler/real.py","scheduler/episodic.py","scheduler/prefetch.py"],[("done flag","sampler/base.py:_make_done, __next__"),("episodic reuse override","sampler/synthetic.py:__init__")],None,["next(sampler).done"])
p("P15","Synthetic data is a deterministic function of seed and data",
  "Two synthetic samplers with equal configuration, seed and flow data produce identical streams, with or without prefetching, and resetting a sampler (with its scheduler) replays its stream from the beginning exactly; a reset that leaves the scheduler alone restarts the random stream but continues with the scheduler's next flow batch. Successive image batches from the same flows, the samples within one batch, and streams with different seeds use different particles.",
  ["histories","configurations","schedules"],"all histories of next/reset, seeds, compositions",
  "Tests compare single batches; they do not check the whole stream after resets at every point or that randomness is fresh for each batch, sample and device.",
  ["sampler/synthetic.py","sampler/base.py","data_generate.py"],[("key splitting","sampler/synthetic.py:_get_next, _reset"),("per-sample fold-in","data_generate.py:scan_body")],[("_rng","PRNG state","sampler/synthetic.py")],["next(sampler)"])
p("P16","A sampler's stream ends with its scheduler's and stays ended",
  "A sampler yields exactly the batches its scheduler's data allows (the flow batches available times the batches per flow batch, or one per scheduler batch for real images), a final partial flow batch being delivered with its mask, and then signals the end on every further request without ever re-delivering old data. After a reset including the scheduler the whole stream is available again; a reset without it does not revive exhausted data; shutting a sampler down shuts its scheduler down.",
  ["histories","configurations"],"all stream lengths, reuse counts, request histories past the end",
  "Tests stop at the first end signal; the request after it is what re-delivers stale data.",
  ["sampler/base.py","sampler/synthetic.py","sampler/real.py"],[("switching flow batches","sampler/synthetic.py:_get_next"),("shutdown","sampler/base.py:shutdown")],None,["next(sampler)","shutdown()"])
p("P17","Sharding over devices keeps batch size, pairing and randomness intact",
  "With several devices the batch size is rounded up to a multiple of the device count and every batch has exactly that many samples; each sample's images show the motion of the very flow field returned at its index, every flow of the flow batch is used by at least one sample whenever the batch is large enough, and no two samples (also on different devices) share particles. Selecting devices restricts the work to existing listed ones and refuses an empty selection.",
  ["configurations","inputs"],"device counts, device selections, batch sizes and flow counts divisible by the device count",
  "Tests run almost entirely on one device; the multi-device cases check only the batch size.",
  ["sampler/synthetic.py"],[("mesh sharding","sampler/synthetic.py:__init__"),("per-device keys","sampler/synthetic.py:_get_next")],None,["next(sampler)"])
p("P18","Generated images honour the image specification",
  "Every generated image has the requested shape and finite values within [0, 255]; masked pixels are exactly zero (when no histogram is imposed); the reported density and the diameter, intensity and correlation ranges of each sample are among the requested ones. The number of particles visible follows the sample's density, a hiding probability of one blanks exactly that image and zero hides nothing, and with no noise, no variance and zero flow both images are identical.",
  ["inputs","configurations"],"all valid image specifications, seeds, masks, noise levels",
  "Tests check ranges for a few fixed specifications; parameter mix-ups between the two images or between properties survive shape and range checks.",
  ["data_generate.py","generate.py"],[("scan over samples","data_generate.py:scan_body"),("rendering","generate.py:img_gen_from_data"),("noise and clipping","generate.py:add_noise_to_image")],None,["generate_images_from_flow()","next(sampler)"])
p("P19","Geometry is admitted exactly when image and motion fit in the flow field",
  "A synthetic sampler is accepted exactly when the image at its offset, enlarged on each side by the distance particles arriving from there can travel in one time step at the configured extreme speeds, lies inside the flow field, and is refused otherwise. Every accepted geometry yields images of exactly the configured shape and flow fields of the image shape times the velocities per pixel.",
  ["configurations","inputs"],"all image shapes, offsets, resolutions, flow sizes, extreme speeds, time steps, hiding and density settings",
  "Tests try a few generous geometries; the exact boundary, asymmetric axes and non-representable resolutions are not covered.",
  ["sampler/synthetic.py"],[("position bounds arithmetic","sampler/synthetic.py:__init__")],[("position_bounds","area where particles live","sampler/synthetic.py")],["SyntheticImageSampler()","next(sampler).images1.shape"])
p("P20","Image motion agrees with the returned flow field",
  "In every sampled pair, the pattern found at a pixel of the first image reappears in the second image displaced by the flow field returned for that pixel (x component along columns, y along rows, in pixels over one time step), for any offset, resolution, time step, flow-grid resolution and spatially varying flow (up to the spacing of the field's samples where these do not coincide with pixels). In physical output units the returned field is that displacement divided by resolution and time step.",
  ["configurations","inputs"],"geometries, offsets, grid resolutions, time steps, spatially varying flows, extra particle margins and zero padding",
  "Tests check images and flow fields separately; agreement between the two needs position-dependent, axis-asymmetric flows through the whole pipeline.",
  ["sampler/synthetic.py","data_generate.py","utils.py","apply.py"],[("particle advection","apply.py:apply_flow_to_particles"),("crop","utils.py:flow_field_adapter; data_generate.py")],None,["next(sampler)"])
p("P21","Real-image batches pass through the scheduler's data unchanged",
  "A real-image sampler returns, for every scheduler batch and in the same order, exactly the images, flow fields, mask and file labels of that batch with nothing swapped or rescaled, and no generation parameters; each image pair stays with the flow field of its own file. It is refused for schedulers that do not provide images, however they are wrapped.",
  ["inputs","configurations","histories"],"batch sizes, partial batches, wrappings (episodic, prefetched, both), file contents",
  "Tests check shapes on constant images; swapped images or mixed-up labels are invisible.",
  ["sampler/real.py","scheduler/mat.py"],[("conversion","sampler/real.py:_get_next"),("wrapper inspection","sampler/real.py:__init__")],None,["next(sampler)"])
p("P22","Particles move by exactly the interpolated velocity",
  "A particle at any position moves, per axis, by the velocity interpolated at its position times the time step and that axis' grid resolution; the interpolated value is the stored one at grid points, the (bi/tri)linear blend of the neighbouring grid values between them, and that of the nearest edge outside the grid in 2D. Particles are independent of each other and of their order.",
  ["inputs"],"all positions (grid points, edges, outside), fields, resolutions, time steps, 2D and 3D",
  "Tests use constant or linear fields where neighbour and weight mix-ups cancel.",
  ["apply.py","utils.py"],[("interpolation","utils.py:bilinear_interpolate, trilinear_interpolate"),("advection","apply.py:apply_flow_to_particles")],None,["apply_flow_to_particles()","bilinear_interpolate()","trilinear_interpolate()"])
p("P23","Image warps implement the documented forward and backward mappings",
  "The backward warp gives each pixel the bilinearly interpolated value of the image at the pixel minus its displacement, with coordinates clamped to the image; the forward warp deposits each pixel at its displaced position by bilinear splatting, dropping only what falls outside, so intensity is conserved while everything stays inside. Warping by a function equals warping by its values on the pixel grid at the given time, in the direction asked for.",
  ["inputs"],"all images, displacement fields (integer, fractional, leaving the image), time steps, non-square shapes",
  "Tests use a few displacements on square images; axis swaps and boundary handling at fractional positions are not separated.",
  ["apply.py","utils.py"],[("splatting","apply.py:apply_flow_to_image_forward"),("sampling","apply.py:apply_flow_to_image_backward")],None,["apply_flow_to_image_forward()","apply_flow_to_image_backward()","apply_flow_to_image_callable()"])
p("P24","Histogram matching is the monotone CDF mapping onto the target levels",
  "Matching an image to a histogram maps each intensity level to the lowest level whose target cumulative share reaches the level's own cumulative share: equal pixels stay equal, order is never reversed, only levels 0-255 are produced, and an image of whole levels that already has the target histogram is unchanged. The cumulative counts of the result therefore match the target as closely as whole levels allow, and shape and type are preserved.",
  ["inputs"],"all images with values in [0, 255] and all target histograms",
  "Tests compare a few images with loose tolerances.",
  ["utils.py"],[("CDF lookup","utils.py:match_histogram")],None,["match_histogram()"])
p("P25","The flow adapter crops, resamples and rescales exactly",
  "The adapted field holds, on an even grid of the requested shape, the interpolated flow of exactly the image region, and the second result that of the particle region, after edge replication of the requested padding at top and left; batch entry j of the adapted field comes from flow j modulo the number of flows. In pixel units both components are multiplied by resolution and time step, otherwise left unscaled, and the particle-region field is never rescaled.",
  ["inputs","configurations"],"all flow fields, offsets, paddings, resolutions, shapes, batch sizes, units",
  "Tests check shapes and constant fields; offset, axis and scaling errors cancel on constant data.",
  ["utils.py"],[("two crops","utils.py:flow_field_adapter")],None,["flow_field_adapter()"])
p("P26","The factory builds the pipeline the configuration describes, or refuses it",
  "Building from a configuration (a dictionary or the same content in a YAML file) yields the sampler kind, file format, episodic layer and prefetching outermost layer exactly as the configuration asks, with the configured sizes, seed and options in force, and every configuration it accepts can deliver its first batch. Missing required keys, wrong types, out-of-range values and unsupported combinations are refused with an error before any data is produced.",
  ["configurations"],"all combinations of sampler kind, file format, buffering, episodes, sizes, and each single defect",
  "Tests exercise a few combinations mostly with mocked schedulers; interactions (episodes with fewer flows than samples, prefetching with images) are not built for real.",
  ["make.py","sampler/synthetic.py","scheduler/*.py"],[("composition","make.py:make")],None,["make()"])
p("P27","Invalid image specifications and arguments are refused; updates keep the rest",
  "An image specification is accepted exactly when every field satisfies its documented constraint, and a violated constraint on any field, alone or with others, at construction or through an update, is refused. An update changes exactly the named fields and leaves the original untouched; batches and their generation parameters survive flattening and rebuilding unchanged.",
  ["inputs","configurations"],"all fields at and around each boundary, pairs of fields, all update subsets",
  "Tests reject single hand-picked bad values; boundaries, every element of multi-range fields and update paths are not enumerated.",
  ["types.py"],[("validation","types.py:ImageGenerationSpecification.__post_init__"),("update","types.py:update methods"),("pytree","types.py:tree_flatten")],None,["ImageGenerationSpecification()","update()"])
p("P28","The speed tool computes true extremes and never damages the configuration",
  "For missing or invalid speed entries the sanity tool offers to compute them; if accepted, the values are the exact minimum and maximum of each component over all listed files, they are written to the configuration file and returned when the user continues, and otherwise the tool stops. Every other entry of the configuration file keeps its key, value and type, nothing is written when the tool declines or all speeds are present, and bad file lists are refused first.",
  ["inputs","histories","configurations"],"all subsets of missing or invalid entries, user answers, file contents and configuration values",
  "Tests mock the answers for one configuration and look at a few keys; quoting of strings, other value types and multi-file extremes are not covered.",
  ["sanity.py"],[("panel","sanity.py:missing_speeds_panel"),("extremes","sanity.py:calculate_min_and_max_speeds"),("rewrite","sanity.py:update_config_file")],None,["missing_speeds_panel()","the YAML file"])
p("P29","Each particle is drawn as its rotated Gaussian, and particles add up",
  "An image drawn from a list of particles is the sum over the particles of the peak intensity times a Gaussian of the particle's own two diameters and correlation, centred on its exact sub-pixel position, cut off no nearer than about one and a half times the largest diameter. The part of a particle outside the image is missing and nothing is moved or wrapped to make up for it; the order of the particles does not matter, and values are limited to 0-255 only at the end and only where asked.",
  ["inputs"],"all positions (inside, on and beyond the border), diameters, correlations, intensities, image shapes and orders",
  "Tests draw a particle in the middle of a large image and look at its peak or sum; borders, small diameters, rotated shapes and small images are not compared pixel by pixel.",
  ["generate.py"],[("patch placement and scatter","generate.py:img_gen_from_data"),("Gaussian","generate.py:gaussian_2d_correlated")],None,["img_gen_from_data()","add_noise_to_image()"])
p("P30","Noise has the configured distribution and is fresh for every image",
  "The noise added to an image follows the configured uniform and Gaussian parts, is independent between pixels, between the two images of a pair, between the samples of a batch and between batches, is added before values are limited to 0-255, and is absent when its parameters are zero.",
  ["inputs","configurations","histories"],"all noise parameters, seeds, pixels, samples and batches",
  "Tests look at one image's mean; shared or reused keys between images, samples and batches give images that look right one at a time.",
  ["generate.py","data_generate.py"],[("noise","generate.py:add_noise_to_image"),("key derivation","data_generate.py:generate_images_from_flow")],None,["SyntheticImageSampler batches"])
p("P31","Random draws are uniform over their ranges and mutually independent",
  "Particle positions are uniform over the position bounds, and each particle's diameters, correlation and intensity are uniform within the sample's range; a sample's own range, density and the like are chosen uniformly among the configured ones; particles vanish from each image independently with the configured probability. All of these are independent of each other, between particles, samples and batches.",
  ["inputs","configurations","histories"],"all configured ranges, seeds, samples, batches and image pairs",
  "Tests check bounds only; a key used twice correlates two quantities or repeats a sample without leaving the range.",
  ["generate.py","data_generate.py"],[("key derivation and draws","data_generate.py:generate_images_from_flow")],None,["generate_images_from_flow()","SyntheticImageSampler batches"])
p("P32","Asking a question never changes what is delivered next",
  "Asking a scheduler or sampler for its shape, length, file list, remaining steps, episode length, state or iterator, any number of times and at any moment, changes nothing in what it delivers, when it ends or what it answers later. The answers themselves agree with the history: the remaining steps fall by one with every batch since the episode began, the shape is that of the delivered slices, and the length and files are those given.",
  ["histories","configurations"],"all stacks of layers and all interleavings of questions with requests, resets and episode starts",
  "Tests ask right after construction; a question in the middle of a file, an episode or a prefetch has side effects only later.",
  ["scheduler/base.py","scheduler/episodic.py","scheduler/prefetch.py","sampler/base.py"],
  [("shape of the first file","scheduler/base.py:get_flow_fields_shape"),("iterator and counters","scheduler/episodic.py"),("forwarding","scheduler/prefetch.py:__getattr__")],None,["get_batch()","shape","episode_length","steps_remaining()"])
p("P33","Constructors and input checks accept exactly the documented arguments",
  "Every scheduler, sampler and input check accepts a call exactly when each argument has the documented type, range and consistency with the others, including lists of files that must exist and be of the right kind, arrays of the right rank and shape, and layers that support each other. A refused call raises an error before anything is delivered, and whichever other arguments are valid makes no difference.",
  ["inputs","configurations"],"all arguments of every constructor and input check, at and around each limit, alone and in pairs",
  "Tests reject hand-picked bad values of some arguments; the limits themselves, every element of tuples and the accepted side are not enumerated.",
  ["scheduler/base.py","scheduler/hdf5.py","scheduler/mat.py","scheduler/numpy.py","scheduler/episodic.py","scheduler/prefetch.py","sampler/synthetic.py","sampler/real.py","utils.py","apply.py","data_generate.py"],
  [("argument checks","scheduler/*.py:__init__"),("argument checks","sampler/synthetic.py:__init__"),("input checks","utils.py, apply.py, data_generate.py")],None,["constructors","input_check_*()"])
p("P34","A flow given as a function means the same wherever it is used",
  "A flow function f(t, x, y) sampled on a grid gives, in row y and column x, the two components of f at time 1 and place (x, y), for every grid shape, square or not. Particles and images moved by the sampled field move as by the function itself: a warp by the function equals the warp by its samples, forward and backward.",
  ["inputs"],"all flow functions (depending on time, x, y, both or none), grid shapes and time steps",
  "Tests sample constant flows, for which swapped axes and times are invisible.",
  ["utils.py","apply.py"],[("sampling","utils.py:generate_array_flow_field"),("evaluation per pixel","apply.py:apply_flow_to_image_callable")],None,["generate_array_flow_field()","apply_flow_to_image_callable()"])
p("P35","A whole pipeline carries stored data to its batches and stops cleanly",
  "A pipeline built from a configuration over files, with any combination of format, episodes, read-ahead, looping and shuffling, synthetic or with real images, delivers with each batch the stored flow due at that point of the pass or episode, with the right padding, mask, labels and done flags and images that belong to that flow, each flow batch as often as configured; unreadable files are skipped. Resetting everything restarts it at any point, also after a shutdown, and after a shutdown no background work is left.",
  ["histories","configurations","schedules"],"all configurations the factory accepts, contents of the files and histories of requests, resets, new episodes and shutdowns",
  "Tests exercise one layer at a time over mocked neighbours; what the layers make of each other's sizes, ends and resets is not tested.",
  ["make.py","sampler/base.py","sampler/synthetic.py","sampler/real.py","scheduler/base.py","scheduler/episodic.py","scheduler/prefetch.py"],
  [("layers and sizes","make.py:make"),("flow cache and counter","sampler/synthetic.py:_get_next"),("shutdown and reset","sampler/base.py")],None,["make()","next()","reset()","next_episode()","shutdown()"])
with open("/verif/properties.jsonl","w") as f:
    for r in P: f.write(json.dumps(r)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for r in P:
    jsonschema.validate(r,s); assert len(r["title"])<=80,r["title"]
print(len(P))
