"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
S = "src/synthpix/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=[S + f for f in files],
                          mechanism=[dict(name=n, where=S + w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=S + w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)

# ------------------------------------------------------------------ A: applying flow fields
prop("A01", "2-D interpolation equals the clamped bilinear reference everywhere",
 "Sampling a 2-D field at any real (x, y) coordinate returns the bilinear blend of the four grid values around that coordinate after clamping it to the field; grid points are reproduced exactly, x always indexes columns and y rows, and the value never leaves the range of the values blended.",
 ["inputs"], "every field content and every pair of real coordinates, inside, on the border of and outside the field",
 "The tests sample a handful of fields and points; axis swaps, border clamping and weight errors that only show off-grid, outside the field or on non-square fields need all coordinates.",
 ["utils.py"], [("clamp, floor, four-neighbour blend", "utils.py: bilinear_interpolate")],
 ["return value of the public 2-D interpolation function"])
prop("A02", "Particles move by exactly the local velocity times resolution and dt",
 "Advecting particles through a 2-D or 3-D flow field moves each particle, independently of all others, by its interpolated local velocity times the grid resolution of the matching axis times dt, with velocity component 0 acting on x, 1 on y and 2 on z. In a uniform field every particle is translated by exactly velocity x resolution x dt, and outside the field the border velocity applies.",
 ["inputs"], "every flow field content, particle position (inside or outside the field), dt and per-axis resolution, 2-D and 3-D",
 "Tests use unit resolutions or symmetric fields and few particles; swapped components or axes, resolution applied to the wrong axis and border errors hide there.",
 ["apply.py", "utils.py"], [("per-particle update, 2-D and 3-D", "apply.py: apply_flow_to_particles"), ("interpolation", "utils.py: bilinear_interpolate, trilinear_interpolate")],
 ["returned particle positions", "returned value of 3-D interpolation"])
prop("A03", "Backward warping samples the source at p - flow*dt",
 "Backward-warping an image yields at every pixel the border-clamped bilinear sample of the source image at that pixel's position minus flow*dt (component 0 along columns, component 1 along rows). Hence zero flow returns the image unchanged and no output value leaves the input's value range.",
 ["inputs"], "every image, every flow field, every dt; flow given as an array or as a function of time and position",
 "Tests check a few translations on small images; the guarantee is over all images, sub-pixel flows and border cases.",
 ["apply.py", "utils.py"], [("backward sampling", "apply.py: apply_flow_to_image_backward"), ("callable flow", "apply.py: apply_flow_to_image_callable")],
 ["returned image"])
prop("A04", "Forward warping deposits each pixel bilinearly and conserves intensity",
 "Forward-warping an image adds each source pixel's value to the four pixels around its displaced position (position + flow*dt) with bilinear weights, dropping only the shares that fall outside the image. Hence total intensity is conserved when all displaced positions stay inside, zero flow is the identity, and a non-negative image never gains intensity.",
 ["inputs"], "every image, every flow field and dt, including displacements that leave the image and pixels that land on top of each other",
 "Tests check integer shifts of a few images; accumulation, weights and border handling need arbitrary sub-pixel flows.",
 ["apply.py"], [("bilinear splatting loop", "apply.py: apply_flow_to_image_forward"), ("callable flow", "apply.py: apply_flow_to_image_callable")],
 ["returned image"])
prop("A05", "Output flow is the input flow resampled over the image region, in stated units",
 "The flow delivered with the images is the input flow (edge-padded on top/left as configured) sampled bilinearly on a uniform grid spanning the image region, components kept in order, and multiplied by image resolution x dt exactly when pixel units are requested. Batch item i carries input flow i modulo the number of flows, for any requested batch size and output shape, and the companion field used for particle motion is the same flow sampled over the particle region in physical units.",
 ["inputs", "configurations"], "every flow content; image/particle regions, offsets, resolutions, paddings, batch sizes and output shapes within the stated bounds",
 "Tests use few configurations, mostly square with equal resolutions; axis mix-ups, offset and unit errors need asymmetric configurations and arbitrary flow values.",
 ["utils.py"], [("resampling, unit conversion and tiling", "utils.py: flow_field_adapter")],
 ["returned flow batch", "returned particle-region flow"])
prop("A06", "Evaluating a flow function on a grid keeps axes and components",
 "Building an array flow field from a flow function yields, at row y and column x, exactly the components returned by the function for that grid position, in order, for any grid shape. Image warping driven by a flow function evaluates it as function(t, x, y) at every pixel with x the column and y the row, and is equal to warping with the array of those values.",
 ["inputs", "configurations"], "every (uninterpreted) flow function and grid shape within bounds, every image, time and dt",
 "Tests plug in a few analytic flows, most of them symmetric in x and y or constant.",
 ["utils.py", "apply.py"], [("grid evaluation", "utils.py: generate_array_flow_field"), ("callable warping", "apply.py: apply_flow_to_image_callable")],
 ["returned flow array", "returned image"])

# ------------------------------------------------------------------ G: generation
prop("G01", "Particle rendering is the sum of localized Gaussian spots",
 "A rendered image is the sum over particles of a correlated Gaussian spot with the given peak intensity, diameters and correlation, centred at the particle's position (kept within the image by the patch radius) and confined to the patch around it; clipping, when requested, limits pixels to [0, 255]. A particle with zero intensity changes no pixel, non-negative intensities give non-negative pixels, and a particle on a pixel centre contributes exactly its peak intensity there.",
 ["inputs"], "every particle position, diameter pair, correlation and intensity; image shapes and particle counts within bounds",
 "Tests check a few particle placements with loose tolerances; position clipping at borders, sub-pixel offset sign, sigma/diameter and axis mix-ups need arbitrary real positions.",
 ["generate.py"], [("patch scatter", "generate.py: img_gen_from_data"), ("Gaussian", "generate.py: gaussian_2d_correlated")],
 ["returned image", "returned Gaussian values"])
prop("G02", "Noise injection stays in [0,255] and follows its parameters",
 "Adding noise returns, per pixel, the input plus a uniform draw in [0, amplitude), plus the Gaussian mean, plus the Gaussian std times an independent standard normal draw, clipped to [0, 255]. Zero noise parameters leave an in-range image unchanged, and every pixel uses its own draws from independent keys.",
 ["inputs"], "every image, every noise parameter setting, every outcome of the random draws",
 "Tests draw one or two seeds and check statistics; range and formula must hold for all draws.",
 ["generate.py"], [("noise model", "generate.py: add_noise_to_image")], ["returned image"])
prop("G03", "Generated pixels are always in [0,255] and masked pixels are zero",
 "Every pixel of both generated images lies in [0, 255] for every configuration, flow and random outcome. With an image mask (and no histogram matching) exactly the masked pixels are forced to zero in both images and all other pixels equal those generated without the mask; with a target histogram every pixel is an integer level in [0, 255]. Images always have the configured size, cropped from the particle region at the configured offset, with the per-image noise applied.",
 ["inputs", "configurations"], "all random outcomes, flow values, masks and noise settings; image shapes, offsets and batch sizes within bounds",
 "Tests fix a seed; a missing clip, a mask applied to one image or before the noise, or a swapped crop only shows for particular values and shapes.",
 ["data_generate.py", "generate.py"], [("crop, noise, mask, histogram", "data_generate.py: generate_images_from_flow")], ["returned images"])
prop("G04", "Image 2 shows image 1's particles displaced by their own flow",
 "In every generated pair the two images render the same particle set: second-image positions are the first-image positions, converted between pixels and flow grid steps, displaced by the pair's own flow field, and pair i uses flow i modulo the number of flows. With zero flow, no parameter variance, no hidden particles and no noise the two images are identical.",
 ["inputs", "configurations"], "all random outcomes, flow values, dt, resolutions; particle counts, flow shapes, particle regions and batch sizes within bounds",
 "Tests look at fixed seeds and coarse image statistics; a swapped axis scale, stale flow index or redrawn positions still gives plausible images.",
 ["data_generate.py", "apply.py"], [("scan body: positions, advection, rescaling", "data_generate.py: generate_images_from_flow")], ["particle data handed to the renderer", "returned images"])
prop("G05", "Every particle parameter stays inside the range chosen for its pair",
 "For each pair one diameter, intensity and correlation range is chosen among the configured ones, and every particle's diameters, intensity and correlation in both images lies inside the chosen range for every random outcome and any variance; every configured range can be chosen, and rendering patches are sized by the largest configured diameter on the particle region. The parameters reported with the batch are, per pair, the ranges actually used and the seeding density actually used, the latter inside the configured density range.",
 ["inputs", "configurations"], "all random outcomes (unbounded normal draws included), all range lists and variances; numbers of ranges, particles and pairs within bounds",
 "A fixed-seed test cannot reach tail draws that escape the range, nor prove that reported and used ranges coincide for all index choices.",
 ["data_generate.py"], [("range choice, jitter and clipping, reporting", "data_generate.py: generate_images_from_flow")], ["particle data handed to the renderer", "returned generation parameters"])
prop("G06", "Seeding density and hiding probability control which particles are visible",
 "In each pair exactly floor(particle-region area x drawn density) particles are visible candidates, never more than the capacity implied by the maximum density, and the same candidates appear in both images. Particles are placed anywhere in the particle region and nowhere else. A candidate is dropped from image 1 or image 2 independently with that image's own hiding probability: probability 0 never drops and probability 1 always drops, and a dropped particle contributes no intensity.",
 ["inputs", "configurations"], "all random outcomes, densities and hiding probabilities; region areas and batch sizes within bounds",
 "Tests inspect mean intensities for a few seeds; an off-by-one candidate count, swapped hide probabilities or per-image candidate sets are statistically invisible.",
 ["data_generate.py"], [("visibility masks", "data_generate.py: generate_images_from_flow")], ["particle intensities handed to the renderer"])
prop("G07", "All random draws of a batch are independent and determined by the key",
 "Within one generated batch no random key is consumed twice: every pair and every quantity (positions, sizes, intensities, correlations, jitter, hiding of each image, noise of each image, range choices, densities) draws from its own key derived from the caller's key. Two different pairs of a batch never share a key, and the result depends on no randomness other than that key.",
 ["inputs", "configurations"], "all keys; all batch sizes and image configurations within bounds",
 "Key reuse produces valid-looking images; no test compares all draws for all keys.",
 ["data_generate.py", "generate.py"], [("split/fold_in discipline", "data_generate.py: generate_images_from_flow"), ("noise keys", "generate.py: add_noise_to_image")], ["keys consumed by the random primitives"])
prop("G08", "Histogram matching is a monotone level map onto the target's levels",
 "Matching an image to a 256-bin target histogram maps each pixel to the smallest level whose cumulative target share reaches the pixel's cumulative image share. Hence equal grey levels stay equal, order is preserved, all outputs are integer levels in [0, 255] carrying target mass, and matching an integer-valued image to its own histogram returns it unchanged.",
 ["inputs"], "every image with values in [0, 255] and every target histogram, for image sizes and numbers of occupied levels within bounds",
 "Tests use a few fixed images/histograms; off-by-one levels at 0, 255, ties and fractional values need all values.",
 ["utils.py"], [("CDF matching", "utils.py: match_histogram")], ["returned image"])

# ------------------------------------------------------------------ S: samplers
prop("S01", "The particle region always covers the image and everything that can enter it",
 "For every accepted sampler configuration the image lies inside the particle region at a non-negative offset, and the region extends beyond the image by at least the largest displacement (speed bound x dt) on each matching side, up to one pixel of rounding, so particles entering the image between the two exposures are simulated. A flow area too small for the image plus those displacements, an offset too small for the maximum speed, or inverted speed bounds are rejected. Generation and flow resampling are given this same region, and the resampled flow window is the region's physical window, padded where it starts before the data.",
 ["configurations"], "all real-valued offsets, speed bounds, dt, resolutions, flow-area sizes and particle diameters; image and flow shapes within bounds",
 "Tests construct a few round-number configurations; margins that vanish through rounding, swapped axes or sign errors need all values.",
 ["sampler/synthetic.py"], [("region, offset and padding computation", "sampler/synthetic.py: SyntheticImageSampler.__init__")], ["region, offset and padding handed to the generator"])
prop("S02", "Each flow batch serves exactly the configured number of image batches",
 "A synthetic sampler fetches a new flow batch exactly when the previous one has served the configured number of image batches (one per batch for an episodic source), requests the configured number of flows, and returns with every batch the images, resampled flows, validity mask and file names belonging to that same fetched flow batch. End of data reported by the source surfaces as end of iteration and no batch is invented or dropped.",
 ["histories"], "all call histories up to the bound, all configured counts, all source lengths, with and without mask and file names",
 "Tests iterate one or two configurations; counter off-by-ones after reset, exhaustion or episode changes and stale flows/masks need arbitrary histories.",
 ["sampler/synthetic.py", "sampler/base.py"], [("batch counter and flow cache", "sampler/synthetic.py: SyntheticImageSampler._get_next, _reset")], ["batches returned by iteration", "calls received by the scheduler"])
prop("S03", "Same seed replays the same batches; every batch uses fresh randomness",
 "Two samplers with the same seed and source, or one sampler before and after a reset, hand the generator the same sequence of keys and therefore produce the same batches, regardless of how many batches were drawn before the reset. Within one run no two batches, and no two devices within a batch, are generated from the same key or from keys derived from one another, and different seeds start from different keys.",
 ["histories", "configurations"], "all call histories up to the bound (batches, resets with and without source reset, episode switches), all seeds",
 "Tests compare two fixed runs; a key not advanced, advanced twice or not restored shows only for particular histories.",
 ["sampler/synthetic.py", "sampler/base.py"], [("key state and reset", "sampler/synthetic.py: SyntheticImageSampler._reset, _get_next")], ["keys handed to the generator", "reset() on sampler and scheduler"])
prop("S04", "Episode end is flagged on the last step and enforced afterwards",
 "With an episodic source every returned batch carries a done flag of batch length that is true for exactly the last step of the episode and false before it; asking for a batch beyond it raises the end-of-episode signal without consuming data, until the next episode or a reset is requested. Without an episodic source no done flag is produced, advancing the episode is refused, and shutdown and reset reach the source exactly once (a prefetcher counts as episodic).",
 ["histories"], "all call histories up to the bound and all episode lengths, for real and synthetic samplers",
 "Tests walk one episode of fixed length; off-by-one done flags, steps consumed at the end or state surviving an episode switch need arbitrary histories.",
 ["sampler/base.py", "sampler/real.py", "scheduler/episodic.py"], [("done flag and episode guard", "sampler/base.py: Sampler.__next__, _make_done, next_episode"), ("step counter", "scheduler/episodic.py: get_batch, steps_remaining")], ["batches and exceptions of iteration"])
prop("S05", "Real-image sampling passes source data through unchanged and paired",
 "A real-image sampler returns exactly the images, flows, mask and file names of one source batch of the configured size, first and second image in order, as numeric arrays. It refuses a source that does not deliver images, looking through any stack of episodic and prefetching wrappers.",
 ["inputs", "configurations", "histories"], "all source contents (arbitrary pixel and flow values), batch sizes and wrapper stacks within bounds",
 "Tests use one dummy source; swapped images or a dropped mask go unnoticed with symmetric data.",
 ["sampler/real.py"], [("pass-through", "sampler/real.py: RealImageSampler._get_next, __init__")], ["returned batch", "constructor outcome"])

# ------------------------------------------------------------------ D: data schedulers
prop("D01", "A pass over the data delivers every slice once, in order, correctly labelled",
 "Without looping, repeated batch requests deliver every flow slice of every readable file exactly once, in file order and slice order (files listed several times once per listing), images and file name staying with their flow. A short final batch is zero-padded at its end with the validity mask marking exactly the real items and empty file names for padding; afterwards every request signals end of data.",
 ["inputs", "histories", "fault_sequences"], "all numbers of slices per file (including none), all patterns of unreadable files, repeated files and batch sizes within bounds",
 "Tests use a couple of files of equal length; boundaries between files, empty or unreadable files at awkward places and mixed batch sizes need the product of all of them.",
 ["scheduler/base.py"], [("cursor, cache, batch assembly and padding", "scheduler/base.py: BaseFlowFieldScheduler._get_next, get_batch")], ["returned batches, masks, file names, StopIteration"],
 [("index/_slice_idx", "cursor over files and slices", "scheduler/base.py")])
prop("D02", "Looping and reset replay the whole dataset; shuffling is a seeded permutation",
 "With looping, batches are always full and continue with a new complete pass over the data whenever one ends; a reset at any time restarts a complete pass from the beginning. With randomization each pass visits every file exactly once in an order that is a permutation drawn from a fresh key derived from the given key, so the same key gives the same orders; without it the given order is kept.",
 ["histories", "inputs"], "all slice counts, batch sizes, reset points and permutations within bounds",
 "Tests check one loop-around of a tiny dataset; state left over from the previous pass and biased or repeated orders need all histories.",
 ["scheduler/base.py"], [("reset and reshuffle", "scheduler/base.py: reset, __init__, _get_next")], ["returned batches", "file order"])
prop("D03", "Constructor accepts exactly valid file lists and expands directories in order",
 "A scheduler accepts a list of path strings, expands each directory in place to its matching files in sorted order, keeps given files in given order, and refuses an empty result, missing files, files of the wrong type, non-lists and non-boolean flags. A directory containing only matching files is accepted wherever a list of those files is.",
 ["inputs", "configurations"], "all lists of files/directories/missing paths up to the bound, all kinds, for each file format",
 "Tests try a few lists per format; acceptance must be an exact predicate over all of them.",
 ["scheduler/base.py", "scheduler/hdf5.py", "scheduler/mat.py", "scheduler/numpy.py"], [("path expansion and validation", "scheduler/base.py: BaseFlowFieldScheduler.__init__"), ("extension checks", "scheduler/hdf5.py, scheduler/mat.py, scheduler/numpy.py: __init__")], ["constructor outcome", "file list"])
prop("D04", "HDF5 source yields the y-slices of each volume in order with all components",
 "From an HDF5 file with one (X, Y, Z, C) volume the source yields exactly Y flow slices, slice k being the volume at y = k with its components unchanged, and reports the slice shape (X, Z, 2) without reading data. A file whose first entry is not a dataset is skipped and never yields data.",
 ["inputs"], "all volume contents and all shapes within bounds",
 "Tests use constant or random volumes of one shape; wrong axis or off-by-one slices can hide when axes have equal length.",
 ["scheduler/hdf5.py"], [("slice extraction", "scheduler/hdf5.py: load_file, get_next_slice, get_flow_fields_shape")], ["returned slices", "reported shape"])
prop("D05", "MAT source yields flow in (H,W,2) order, rescaled together with its images",
 "A MAT file's flow is delivered as (height, width, 2) whichever of the two supported channel layouts it is stored in; when the stored size differs from the requested one, flow and images are resampled to exactly the requested (height, width) and each flow component is scaled by the size ratio of its own axis. Image 1 and 2 are the file's previous and current image, delivered only when requested; files lacking a required entry are never delivered.",
 ["inputs", "configurations"], "all flow values, stored sizes, layouts, requested sizes and sets of present entries within bounds",
 "Tests use square sizes, where swapped height/width or swapped scale factors cannot be seen.",
 ["scheduler/mat.py"], [("load, transpose, resize", "scheduler/mat.py: load_file, get_next_slice")], ["delivered batches"])
prop("D06", "NPY source pairs flow t with images t-1 and t of the same folder",
 "The NPY source yields one flow per file, and when images are enabled accompanies flow t with image t-1 as first and image t as second image from the same folder. With images enabled construction fails unless every listed flow file is properly named and both of its images exist.",
 ["inputs", "configurations"], "all frame numbers, folder assignments and presence patterns of image files within bounds",
 "Tests use frame 1 in one folder; pairing errors need arbitrary indices, zero-padding and missing files.",
 ["scheduler/numpy.py"], [("name parsing and pairing", "scheduler/numpy.py: __init__, get_next_slice")], ["delivered batches", "constructor outcome"])
prop("D07", "Episodes are contiguous same-folder sequences, time-aligned across the batch",
 "Step t of every batch item is the t-th frame of that item's own episode: a run of consecutive frames (sorted order) of one leaf folder, of exactly the episode length, whatever starting points are drawn, whether or not they coincide, and whether or not the wrapped source shuffles. Every admissible start can be drawn, starts are drawn from a fresh key per episode, folders shorter than the episode are rejected.",
 ["inputs", "histories", "configurations"], "all drawn starts (including coinciding ones), folder sizes, batch sizes, episode lengths and call histories within bounds",
 "Tests use one or two folders and fixed seeds; coinciding starts, starts at the last admissible frame and a shuffling source need all draws.",
 ["scheduler/episodic.py", "scheduler/base.py", "utils.py"], [("start enumeration and interleaving", "scheduler/episodic.py: _calculate_starts, _sample_new_episodes"), ("duplicate handling in cursor", "scheduler/base.py: _get_next")], ["file order of the wrapped source", "delivered file names"])
prop("D08", "Leaf-folder discovery is exact and independent of hash order",
 "Given any list of file paths, leaf discovery returns each containing folder that exists and has no sub-folder exactly once and no other folder, in an order that depends only on the paths given (so that a fixed key selects the same episodes in every process). Unreadable or vanished folders are skipped; symlinked sub-folders count only when symlinks are followed.",
 ["inputs", "fault_sequences", "configurations"], "all directory contents, fault patterns and path lists within bounds, both symlink settings, all set iteration orders",
 "Tests run in one process with one hash seed; they cannot see order dependence, and sample few directory trees.",
 ["utils.py", "scheduler/episodic.py"], [("leaf discovery", "utils.py: discover_leaf_dirs")], ["returned list"])

# ------------------------------------------------------------------ P: prefetching
prop("P01", "Prefetching delivers the source's batches in order, none lost or repeated",
 "Under every interleaving of producer and consumer, the batches returned through the prefetcher are exactly the source's batches in source order, none lost, repeated or reordered, followed by end-of-iteration once the source is exhausted, provided no waiting limit expires. A request with a different batch size is refused without disturbing the stream, and at most the configured number of batches is buffered.",
 ["schedules", "histories"], "all interleavings of producer and consumer, all source lengths and buffer sizes within bounds",
 "Tests run one OS schedule with sleeps; a race between end-of-stream and a full buffer cannot be sampled reliably.",
 ["scheduler/prefetch.py"], [("worker, bounded queue, end-of-stream sentinel", "scheduler/prefetch.py: _worker, get_batch")], ["batches returned", "StopIteration"],
 [("queue", "bounded FIFO of batches", "scheduler/prefetch.py"), ("stop event", "asks the worker to end", "scheduler/prefetch.py")])
prop("P02", "Prefetcher reset and shutdown always terminate and leave no worker behind",
 "From every reachable state and under every interleaving, reset and shutdown return; after either of them the previous background worker has ended or ends by itself without further help (it is never left blocked for good) and takes no more data from the source once the new run starts. After a reset the stream starts again from the source's first batch with nothing left over from before.",
 ["schedules", "histories"], "all interleavings, all moments at which reset/shutdown is called, all source lengths and buffer sizes within bounds",
 "A lost wake-up needs one particular interleaving of worker and caller; the tests' sleeps never hit it.",
 ["scheduler/prefetch.py"], [("stop handshake", "scheduler/prefetch.py: reset, shutdown, _worker")], ["thread liveness", "batches after reset"])
prop("P03", "Switching episodes through the prefetcher never leaks or loses steps",
 "With an episodic source behind the prefetcher, every episode served consists of the source's steps of one and the same episode in order; requesting the next episode at any step serves the following episode from its first step, and requesting a batch beyond the episode length raises the end-of-episode signal without consuming data, under every interleaving in which no waiting limit expires. The number of steps remaining always equals the episode length minus the steps served since the episode began.",
 ["schedules", "histories"], "all interleavings, all moments of switching, episode lengths, buffer sizes within bounds",
 "Tests switch episodes at one moment with one schedule; stale prefetched steps depend on how far the worker ran ahead.",
 ["scheduler/prefetch.py", "scheduler/episodic.py"], [("discarding prefetched steps", "scheduler/prefetch.py: next_episode, get_batch, _worker")], ["batches returned", "steps remaining", "EpisodeEnd"])

# ------------------------------------------------------------------ C: configuration and data types
prop("C01", "Generation settings are accepted exactly when they are valid",
 "Generation settings are accepted if and only if sizes are positive integers, offsets, densities, variances and noise levels are non-negative, the density range is ordered, hiding probabilities lie in [0, 1], dt is positive, and every diameter, intensity and correlation range is an ordered pair with diameters and intensities positive and correlations strictly between -1 and 1. Accepted settings are stored unchanged.",
 ["configurations"], "all real and integer values of all numeric settings, all list lengths within bounds",
 "Tests try one bad value per field; a comparison relaxed or tightened at its boundary needs every value.",
 ["types.py"], [("validation", "types.py: ImageGenerationSpecification.__post_init__")], ["constructor outcome"])
prop("C02", "Updating or flattening a record preserves every other field",
 "Updating any subset of fields of a batch, source record or generation settings returns a new record in which exactly those fields have the new values and all others are unchanged, leaving the original untouched (updated settings being re-validated). Batches and their parameter records survive being flattened and rebuilt as JAX trees, and mapped leaf-wise, with every field in its place.",
 ["inputs"], "all subsets of updated fields and all field values (absent ones included)",
 "Tests update one or two fields; a swapped or dropped field in one of dozens of copies goes unnoticed.",
 ["types.py"], [("update and pytree functions", "types.py: SynthpixBatch, SchedulerData, ImageGenerationSpecification, ImageGenerationParameters")], ["returned records"])
prop("C03", "The factory builds the pipeline its configuration describes",
 "The factory accepts exactly valid top-level settings and builds source, optional episodic wrapper, optional prefetcher and sampler in this order, each receiving the configured batch size, episode length, buffer size, file list, looping and shuffling flags, with independent keys derived from the configured seed reaching every randomized part. The wrappers serve exactly the batch size the sampler requests, so a valid configuration always yields a sampler whose first batch can be drawn.",
 ["configurations"], "all combinations of numeric settings, flags and file kinds within bounds",
 "Tests build a dozen configurations, with stand-in classes that ignore most arguments; a dropped seed or mismatched batch size only appears for particular combinations.",
 ["make.py", "scheduler/hdf5.py", "scheduler/mat.py", "scheduler/numpy.py", "scheduler/episodic.py", "scheduler/prefetch.py"], [("wiring", "make.py: make"), ("per-format construction", "scheduler/*.py: from_config")], ["constructed objects and their arguments", "first batch"])
prop("C04", "Computed speed bounds are exactly the extremes of the data",
 "The speed bounds computed for a list of flow files are exactly the minimum and maximum of component 0 (x) and component 1 (y) over all files and positions: no value lies outside them and each is attained. Files with an unsupported layout are refused rather than mis-measured.",
 ["inputs"], "all data values (any sign, any order), both supported layouts, numbers of files and sizes within bounds",
 "Tests use one or two files with simple values; an initial value of zero, a swapped component or per-file overwrite shows only for particular signs and orders.",
 ["sanity.py"], [("running extremes", "sanity.py: calculate_min_and_max_speeds")], ["returned bounds"])
prop("C05", "Generation input checks accept exactly what the generator supports",
 "The debug input checks of particle advection, image generation and flow resampling accept an input if and only if shapes, dimensionality, positivity and value ranges are as documented: positive scales, positive integer bounds at least as large as image plus offset, masks of the image's shape, and 256-bin histograms summing to the pixel count.",
 ["configurations"], "all numeric values and all array ranks/shapes within bounds",
 "Tests try one bad value per argument; boundaries and missing conjuncts need every value.",
 ["apply.py", "data_generate.py", "utils.py"], [("input checks", "apply.py: input_check_apply_flow; data_generate.py: input_check_gen_img_from_flow; utils.py: input_check_flow_field_adapter")], ["raised or not"])
prop("C06", "Rewriting a configuration file keeps all other settings",
 "Writing computed values back into a YAML configuration keeps every other setting readable with an equal value and stores exactly the new values, for every configuration that can be loaded.",
 ["inputs"], "all YAML configurations",
 "Tests rewrite one small file; quoting, null and nested values are not covered.",
 ["sanity.py"], [("line-wise writer", "sanity.py: update_config_file")], ["configuration re-read from disk"])
prop("C07", "Sharded generation over several devices equals per-device generation",
 "When several devices are used, the batch size is rounded up to a multiple of the device count, each device generates its share from its own key and its own share of the flows, and the concatenated batch keeps images, flows and parameters aligned.",
 ["configurations"], "all device counts and batch sizes",
 "Tests run on a single CPU device.",
 ["sampler/synthetic.py"], [("mesh and shard_map", "sampler/synthetic.py: __init__, _get_next")], ["returned batch"])
prop("C08", "Results hold in 32-bit floating point, not only in exact arithmetic",
 "All numerical guarantees above hold for 32-bit floating-point evaluation as compiled by XLA up to a small relative error, with no overflow, NaN or loss of a pixel at region borders.",
 ["inputs"], "all 32-bit float inputs",
 "Tests sample a few inputs.",
 ["utils.py", "apply.py", "generate.py", "data_generate.py"], [("XLA float32 kernels", "generate.py: img_gen_from_data")], ["returned arrays"])

here = os.path.dirname(os.path.abspath(__file__))
with open(os.path.join(here, "..", "properties.jsonl"), "w") as f:
    for d in P:
        f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
