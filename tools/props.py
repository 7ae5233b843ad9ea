"""writes /verif/properties.jsonl"""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": list(over), "text": text}, "why_tests_cant": why,
              "anchors": {"files": list(files), "mechanism": [{"name": n, "where": w} for n, w in mech],
                          "observe_at": list(observe), "state": list(state)}})


CORE, NB, MT, NORM = "cddm/core.py", "cddm/_core_nb.py", "cddm/multitau.py", "cddm/norm.py"

p("C01", "Cross-correlation is the sum over all frame pairs at each delay",
  "For two equally shaped sequences of complex frames, the computed cross-correlation at delay k is, at every pixel, the sum of conj(first)*second over all pairs of frames whose times differ by k: the real part over delays of either sign by default, the complex value per signed delay (negative delays wrapped to the end of a length 2n-1 axis) when complex output is asked for. "
  "The result has the delay as its last axis, is added to a supplied output array, and does not depend on which axis is time, on whether times are left out (frames at 0,1,2,...) or given, on the memory layout, or on the alignment option; the inputs are not modified.",
  ("inputs", "configurations"),
  "every data length, delay count n>=1, integer time arrays (irregular, repeated, offset), rank and time axis, memory layout, real/complex output, given or new output array",
  "Tests compare the code paths with each other on one or two fixed-size arrays with time along the first axes and n up to the full length; no independent definition is used and irregular times with n larger or smaller than the span, negative axes and complex output into existing arrays are not reached.",
  (CORE, NB),
  [("argument inspection and time shift", CORE + ":_inspect_cross_arguments"), ("kernel choice", CORE + ":cross_correlate"),
   ("pair loops", NB + ":_cross_corr, _cross_corr_vec, _cross_corr_regular and complex variants")], ("cddm.core.cross_correlate",))
p("C02", "Auto-correlation counts every frame pair exactly once",
  "The computed auto-correlation at delay k is, at every pixel, the sum of conj(earlier)*later over the unordered pairs of frames (a frame with itself included) whose times differ by k, its real part unless complex output is asked for. "
  "It is added to a supplied output array and does not depend on the time axis, on the layout or alignment, or on whether regular times are given explicitly; the input is not modified.",
  ("inputs", "configurations"),
  "every data length, delay count n>=1, integer times, rank and axis, layout, real/complex, given or new output",
  "Tests compare implementations among themselves on a few small arrays with sorted times; unsorted times, complex output and n beyond the data are not sampled.",
  (CORE, NB), [("argument inspection", CORE + ":_inspect_auto_arguments"), ("kernel choice", CORE + ":auto_correlate"), ("pair loops", NB + ":_auto_corr*")],
  ("cddm.core.auto_correlate",))
p("C03", "Difference functions sum the squared frame differences at each delay",
  "The cross-difference at delay k is, at every pixel, the sum of |second-first|^2 over all pairs of one frame of each sequence whose times differ by k in either direction; the auto-difference is the same sum over the unordered pairs of one sequence. "
  "Both are added to a supplied output array, leave the inputs unmodified, and do not depend on time axis, layout, alignment or on whether regular times are given explicitly.",
  ("inputs", "configurations"), "every data length, n>=1, integer times, rank and axis, layout, given or new output",
  "Tests check a handful of arrays between implementations; regularly timed data on other axes and irregular unsorted times are not covered.",
  (CORE, NB), [("kernel choice", CORE + ":cross_difference, auto_difference"), ("pair loops", NB + ":_cross_diff*, _auto_diff*")],
  ("cddm.core.cross_difference", "cddm.core.auto_difference"))
p("C04", "The FFT method gives the same numbers as the direct method",
  "For the same data, times, axis and delay count, the transform-based correlation, delay sums and five-part results equal the directly computed ones up to rounding, for cross and auto, real and complex output, regular and irregular times; for auto-correlation of irregular data the times are distinct. "
  "In particular circular wrap-around never contributes, also when n is smaller or larger than the time span.",
  ("inputs", "configurations"), "every data length, n>=1, integer times (offset, irregular, repeated for cross), rank and axis, real/complex",
  "Equality is tested on a few sizes where the padding happens to suffice; the padding argument must hold for every span, n and time pattern.",
  (CORE, NB), [("padding length", CORE + ":cross_correlate_fft, auto_correlate_fft, cross_sum_fft, auto_sum_fft"),
               ("scatter and transform", NB + ":_fill_data, _cross_corr_fft*, _auto_corr_fft*, _cross_sum_fft*")],
  ("cddm.core.cross_correlate_fft", "cddm.core.auto_correlate_fft", "cddm.core.cross_sum_fft", "cddm.core.auto_sum_fft"))
p("C05", "Pair counts equal the number of frame pairs at each delay",
  "The cross-count at delay k is the number of pairs, one time from each sequence, differing by k (in either direction, or per signed delay when complex), and the auto-count is the number of unordered pairs of one sequence, a frame with itself included. "
  "Counts are exact integers, are added to a supplied count array, and an integer argument m stands for times 0..m-1.",
  ("inputs", "configurations"), "every pair of integer time arrays (any length, order, repetition, offset), n>=1, given or new output",
  "Tests use a few regular and one irregular time array; normalization divides by these counts for every dataset.",
  (CORE, NB), [("counting loops", NB + ":_add_count_cross, _add_count_cross_complex, _add_count_auto"), ("defaults", CORE + ":_default_count")],
  ("cddm.core.cross_count", "cddm.core.auto_count"))
p("C06", "Delay-dependent sums add each frame once per partner at that delay",
  "The cross delay-sum at delay k is the sum, over all pairs of a data time and a partner time differing by k (in either direction, or per signed delay when complex, with the sign reversed under time inversion), of the data frame of that pair. "
  "The auto delay-sum, for distinct times, is the sum of the mean of the two frames over unordered pairs, a frame with itself included; both are added to a supplied output and do not depend on axis, layout, alignment, or on whether regular times are given explicitly.",
  ("inputs", "configurations"), "every data length, n>=1, integer times (distinct for the auto variant), real or complex data, rank and axis, complex and time-inverted variants, given or new output",
  "The regular variants use a running recurrence that the tests exercise for a few n; the irregular complex and time-inverted variants are only sampled through full results.",
  (CORE, NB), [("kernel choice, time inversion, halving", CORE + ":cross_sum, auto_sum"), ("sum loops and recurrences", NB + ":_cross_sum*, _add_vec")],
  ("cddm.core.cross_sum", "cddm.core.auto_sum"))
p("C07", "Correlation results carry mutually consistent correlation, count and sums",
  "A correlation call returns the correlation or difference, the pair count, the delay-sum of squared moduli and the delay-sums of the signals exactly as defined for the separate functions on the same data, times, delays and method, with each of the optional parts present if and only if the requested normalization needs it. "
  "Supplied precomputed squares are used in place of the moduli, a supplied output tuple is accumulated into, and the default method and normalization are those documented.",
  ("inputs", "configurations"), "every method, normalization, axis, delay count, real/complex output, times given or not, precomputed squares given or not, output tuple given or not",
  "The tests check normalised results for a few norm values; which pair of frames each optional part refers to must be right for every configuration.",
  (CORE,), [("assembly", CORE + ":ccorr, acorr"), ("defaults", CORE + ":_default_method, _default_norm")], ("cddm.core.ccorr", "cddm.core.acorr"))
p("C08", "Normalised data is the pair-average of background-corrected products",
  "Normalising correlation data (real part, or complex for complex data) gives, at every selected pixel and delay with at least one pair, the average over those pairs of conj(first)*second of background-subtracted frames (subtracted), of frames less their own averages over the pairs of that delay (compensated only), or the average product less conj(bg1)*bg2 (neither); structured normalization gives instead the mean of the two variances minus half the average squared difference of frames so corrected (with neither, plus half the squared difference of the backgrounds). "
  "Difference data give the average squared difference of background-subtracted frames, or without subtraction the average squared difference less |bg2-bg1|^2. Auto data keep one mean for both frames of a pair and are corrected with it, exactly in the real part. Data of several levels are treated level by level, nothing else enters the result, and the input data are not modified.",
  ("inputs", "configurations"), "every frame sequence, background, variance, count > 0, normalization flag combination, real and complex data, with and without mask, auto and cross, single and multiple levels",
  "Tests compare a few flag combinations on one dataset; the algebra must hold for all data and all flags.",
  (NORM, NB), [("formula choice", NORM + ":normalize, normalize_multi"), ("formulas", NB + ":_normalize_*")], ("cddm.norm.normalize", "cddm.multitau.normalize_multi"))
p("C09", "Correlation and difference representations and scaling are interchangeable",
  "For the same data and normalization, the difference representation equals twice the variance offset minus twice the correlation representation, and scaled output equals the unscaled output divided by the mean of the two variances. "
  "This holds whether the data was computed as correlation or as difference, and the input data arrays are left unmodified.",
  ("inputs", "configurations"), "every data tuple of either kind, normalization flags, variance as one array or a pair, masks, scale and mode settings",
  "Only a few mode/scale combinations are exercised by tests, with single values of variance.",
  (NORM,), [("conversion", NORM + ":_diff2corr, _corr2diff, _variance2offset"), ("scaling", NORM + ":normalize, scale_factor")], ("cddm.norm.normalize",))
p("C10", "Normalization flags select exactly the valid modes",
  "Flag construction from booleans and from text gives the same documented bits; a normalization is accepted for a result exactly when the parts it needs are present in that result, and the default is the richest one available. "
  "Invalid text, unsupported flags for a method, and flags whose data is missing are rejected with a value error and never silently replaced.",
  ("inputs", "configurations"), "every flag integer, boolean combination, flag text, method, and presence pattern of the optional parts",
  "Tests try a few flags and strings; the accept/reject table is only right if it is right for all flag and data patterns.",
  (NORM, CORE), [("flags", NORM + ":norm_flags, norm_from_string"), ("availability", NORM + ":_norm_from_ccorr_data, _norm_from_cdiff_data"), ("request", CORE + ":_default_norm")],
  ("cddm.norm.norm_flags", "cddm.norm.norm_from_string", "cddm.norm.normalize"))
p("C11", "Weighted normalization uses the variance-minimising weight",
  "The weight functions return, for every correlation (or difference) value, noise asymmetry and pair of backgrounds at which the documented error is convex in the weight, the weight with the smallest error; the companion error functions report the documented error, hence that minimum at that weight, and for complex values the imaginary part of the weight does the same for the imaginary part. "
  "Weighted normalization returns weight*structured + (1-weight)*standard, real and imaginary part each with its own, into the output array if one is given; the weight is the given one or else that minimiser at the denoised estimate (first the standard one, then the weighted ones) with the noise asymmetry (v2-v1)/(v1+v2), and scaled and unscaled output use the same weights.",
  ("inputs", "configurations"), "every real or complex correlation value, asymmetry, pair of backgrounds, weight, mode (correlation or difference), mask and scaling; at least three delays",
  "Tests compare a handful of numbers; optimality is a statement over all weights.",
  (NORM, NB), [("weights", NB + ":weight_from_g, weight_prime_from_g, weight_from_d, weight_prime_from_d"), ("errors", NB + ":sigma_weighted, sigma_prime_weighted"),
               ("combination", NB + ":weighted_sum; " + NORM + ":normalize, weight_from_data")], ("cddm.norm.weight_from_data", "cddm._core_nb.weighted_sum"))
p("C12", "Folding and phase alignment combine exactly the two signs of each delay",
  "Folding a complex two-sided result of length 2n-1 gives, at delay k, the mean of the value at +k and the conjugated value at -k (zero delay unchanged), or the value of the one requested side. "
  "Equalisation gives opposite delays conjugate values whose square is the product of the value at +k and the conjugated value at -k, phase alignment keeps every modulus and gives the delays +k and -k opposite phases, at +k the mean phase of the value at +k and of the conjugated value at -k (so that a phase common to both is removed); both make the zero delay its modulus; the input is never modified, real input and invalid modes are rejected with a value error, and taking masked data keeps exactly the selected pixels of every part but the count.",
  ("inputs", "configurations"), "every n>=1, rank, fold mode, mask, and results with absent optional parts",
  "Tests do not use mode variants and larger ranks; the index arithmetic must be right for every n.",
  (NORM,), [("delay reversal", NORM + ":fold_data, equalize_data, shift_data"), ("masking", NORM + ":take_data")], ("cddm.norm.fold_data", "cddm.norm.equalize_data", "cddm.norm.shift_data"))
p("M01", "Multi-tau levels equal correlations of the binned data",
  "The in-memory multi-tau result consists of the plain result at full rate for the first period*level_size delays, and for level i of the plain result, at level_size delays, of the data binned i+1 times by two along time with the selected binning: the mean of each pair, its first frame (of an odd number of frames also the last one), or, chosen at random per level but alike for both signals and their squares, one frame of each pair. "
  "The squared moduli are binned in the same way, and times given explicitly apply to the full rate only. "
  "The number of levels is the number of halvings for which at least level_size frames remain unless given, and the layout of the result does not depend on axis, alignment, thread divisor or mask.",
  ("inputs", "configurations"), "every number of frames, level size > 4, period, level count, method, normalization, binning, axis, thread divisor, mask",
  "Tests compare two or three parameter sets; level bookkeeping depends on the length and parameters.",
  (MT,), [("levels", MT + ":_compute_multi, _determine_lengths"), ("binning", MT + ":mean_data_parallel, slice_data, choose_data")], ("cddm.multitau.ccorr_multi", "cddm.multitau.acorr_multi"))
p("M02", "Chunked processing equals in-memory processing",
  "Processing a video frame by frame in chunks gives the same correlation, counts and delay-sums as the in-memory computation on the whole data with the same parameters, together with the mean and variance of all frames, for every chunk size. "
  "For times given explicitly this covers time arrays in which pairs within the delay range lie in the same or in adjacent chunks.",
  ("inputs", "histories", "configurations"), "every number of frames that is a multiple of half the chunk size, chunk size >= 2x delays, method, normalization, real or complex output, auto or cross, binning, levels, mask and thread divisor",
  "Tests use one chunk size per function; the ring buffers and the cross-chunk terms depend on all of these together.",
  (MT, CORE), [("chunk loop and ring buffers", MT + ":_compute_multi_iter, _add_data1, _add_data2"), ("linear wrappers", CORE + ":iccorr, iacorr")],
  ("cddm.multitau.iccorr_multi", "cddm.multitau.iacorr_multi", "cddm.core.iccorr", "cddm.core.iacorr"))
p("M03", "Log averaging and merging place every value at its true delay",
  "Merging multi-level data returns strictly increasing delays in which each level contributes exactly its upper half at delays multiplied by its bin width, and each returned value is the value of that level at that delay; merging linear and multi-level data continues the linear delays with the slower levels. "
  "Log averaging assigns to each coarse delay the average of the surrounding finer values (weights 1/4,1/2,1/4 per halving, ends replicated as documented), or the values themselves for non-averaging binning, and the averaging never mixes pixels.",
  ("inputs", "configurations"), "every even level size, number of levels, data length, rank, period, binning",
  "Tests check the shape of one example; delays and values must correspond for every size.",
  (MT, NB), [("levels", MT + ":multilevel"), ("merge", MT + ":merge_multilevel, log_merge, log_average"), ("kernel", NB + ":convolve")],
  ("cddm.multitau.log_average", "cddm.multitau.log_merge", "cddm.multitau.merge_multilevel"))
p("M05", "Reshaping for threading and masking is a lossless relabelling",
  "Splitting frames for threading and restoring the result shape returns every element to the pixel it came from; with a mask the selected pixels return to their positions and all others become NaN. "
  "Incompatible divisors and masks on another axis are rejected with a value error.",
  ("inputs", "configurations"), "every shape, axis, thread divisor, mask, and result tuple with any number of levels",
  "Tests use one divisor and one mask; element placement is a statement about all indices.",
  (CORE,), [("reshape", CORE + ":reshape_input, reshape_output, reshape_frame, thread_frame_shape")], ("cddm.core.reshape_input", "cddm.core.reshape_output"))
p("F01", "Cropping a transform keeps exactly the requested wave vectors",
  "Cropping a half or full two-dimensional transform to given wave-vector limits returns, for every wave vector within the limits, the value the uncropped transform has at that wave vector, in standard transform order, and nothing else. "
  "Limits that do not fit the frame are rejected with a value error, and missing limits keep the full axis.",
  ("inputs", "configurations"), "every frame size (odd and even), number of leading axes, limits including zero and the maximum, half and full transforms",
  "Tests crop a few even frames; the index arithmetic differs for odd sizes, zero and maximal limits.",
  ("cddm/fft.py",), [("index ranges", "cddm/fft.py:_determine_cutoff_indices"), ("copy", "cddm/fft.py:rfft2_crop, fft2_crop")], ("cddm.fft.rfft2_crop", "cddm.fft.fft2_crop"))
p("F02", "Half-plane and full-plane transform data convert without loss",
  "Expanding half-plane data of a real image to the full plane reproduces the full two-dimensional transform, and taking half-plane data or its conjugate partner from full-plane data returns the values at +k and at -k respectively. "
  "This holds for any pair of axes and for cropped data, with the full shape inferred or given.",
  ("inputs", "configurations"), "every frame height and width of either parity, extra axes, axes choice, crops compatible with the shape",
  "Tests use one or two sizes; parity and cropping change the index arithmetic.",
  ("cddm/map.py",), [("conversion", "cddm/map.py:from_rfft2_data, as_rfft2_data, as_rfft2_conj, as_rfft2_mask, as_fft2_shape")], ("cddm.map.from_rfft2_data", "cddm.map.as_rfft2_conj"))
p("F03", "Wave-vector grids and sector maps label every pixel correctly",
  "Grids give each transform pixel its signed wave-vector indices scaled so that one unit is the larger frame dimension's step, and the modulus and angle maps are the modulus and the counter-clockwise angle of that vector. "
  "A sector index map gives a pixel the nearest step number of its modulus when its direction lies inside the angular sector (modulo full turns), -1 otherwise, and 0 at the origin; invalid angles and sectors are rejected with a value error.",
  ("inputs", "configurations"), "every size, frame shape, crop, angle in [-180,180], sector in (0,180], step, away from the exact sector boundary",
  "Tests compare one map with a stored picture; wrap-around sectors and odd sizes need all inputs.",
  ("cddm/map.py",), [("grid", "cddm/map.py:_grid_half, _grid_full, _get_steps_size_half"), ("angle", "cddm/map.py:_kangle"), ("sector", "cddm/map.py:fft2_sector_indexmap")],
  ("cddm.map.fft2_grid", "cddm.map.fft2_kangle", "cddm.map.fft2_sector_indexmap"))
p("F04", "Wave-vector selection averages exactly the pixels of the sector",
  "For each wave number, selection returns the mean modulus and the mean of the data over exactly the pixels of the full transform plane labelled with that number, half-plane data standing also for its conjugate partners and masked-out pixels not entering. "
  "Wave numbers without pixels are omitted, and masked or one-dimensional masked data gives the same result as full data with the mask applied.",
  ("inputs", "configurations"), "every frame shape, angle, sector, step, mask, half or full plane mode, real and complex data, one wave number or a list",
  "Tests select a few wave numbers on one frame shape.",
  ("cddm/map.py",), [("selection", "cddm/map.py:k_select, _k_select_real, _k_select_complex")], ("cddm.map.k_select",))
p("V01", "Video filters act frame by frame, in order, with nothing lost",
  "Each video filter (crop, mask, add, subtract, multiply, normalise, transform and its cropped or normalised variants) yields exactly one output tuple per input tuple, in order, every element being the stated operation applied to the frame at that position alone. "
  "Unless in-place operation is requested the input frames are not modified, and frame tuples of different lengths are rejected with a value error.",
  ("inputs", "histories", "configurations"), "every number of frames and cameras, frame shape and dtype, region of interest, mask, background, kimax/kjmax",
  "Tests run a few frames; position independence and order are statements about any stream.",
  ("cddm/video.py", "cddm/fft.py"), [("generators", "cddm/video.py:crop, mask, subtract, add, multiply, normalize_video"), ("transforms", "cddm/fft.py:rfft2_video, fft2_video, normalize_fft")],
  ("cddm.video.crop", "cddm.video.subtract", "cddm.fft.rfft2_video"))
p("V02", "Loading and queueing a video preserves every frame",
  "Converting a video to arrays, to memory-mapped files, through loading, or through a background reading queue yields exactly the frames of the source in order, for each camera, bit for bit. "
  "Converting arrays back to a video gives the frames of all arrays at the same index together.",
  ("inputs", "schedules"), "every number of frames, cameras, dtype and shape, queue size, and interleaving of the reader and the consumer",
  "Tests convert one small video; the threaded queue is exercised with a single schedule.",
  ("cddm/video.py",), [("copy loops", "cddm/video.py:asarrays, asmemmaps, load, fromarrays"), ("queue", "cddm/video.py:threaded")], ("cddm.video.asarrays", "cddm.video.threaded"))
p("S01", "Simulated particles never leave the box and move by the stated law",
  "Every simulated coordinate lies in the half-open simulation box, and boundary handling changes a coordinate only by a whole number of box lengths, leaving coordinates already inside untouched. "
  "A Brownian walk yields exactly the requested number of frames, the (boxed) initial coordinates first, and each following frame is the previous one plus velocity*dt plus a normal increment times delta*sqrt(dt), brought back into the box.",
  ("inputs", "histories"), "every finite coordinate, box size > 0, velocity and delta (constant, per particle or callable), step count and random draw",
  "Tests check a seeded example; the bounds must hold for every coordinate and draw.",
  ("cddm/_sim_nb.py", "cddm/sim.py"), [("boundary", "cddm/_sim_nb.py:mirror, numba_brownian_particles"), ("walk", "cddm/sim.py:brownian_walk, brownian_particles")], ("cddm._sim_nb.mirror",))
p("S02", "Generated dual-camera triggers respect the frame period",
  "Random trigger generation for two cameras returns, for each of the requested number of cycles of length 2n, one integer time per camera inside that cycle, with an offset below n for the first camera and of exactly 0 or n (or equal to the first camera's) for the second, so that consecutive triggers of one camera are at least n apart. "
  "Single-camera random triggering returns one integer time per period of length n, consecutive times at least the requested minimum spacing apart.",
  ("inputs", "configurations"), "every number of frames, period n>=1, minimum spacing up to n, and every outcome of the random draws",
  "Tests look at one draw; the spacing guarantee must hold for every random outcome.",
  ("cddm/sim.py",), [("schedule", "cddm/sim.py:create_random_times1, create_random_times2, create_random_time")], ("cddm.sim.create_random_times1",))
p("S03", "Triggered simulation emits one frame per trigger, in trigger order",
  "A triggered simulation yields, for each trigger number, the frame (for two cameras the pair of frames) drawn from the particle coordinates at exactly the triggered time steps of that number, offset and rotation applying to the first camera only. "
  "Selecting frames of any stream by index yields exactly the elements at the distinct requested indices, in increasing order.",
  ("inputs", "histories"), "every coordinate stream, every index list, and every increasing trigger arrays for which each trigger number is complete for both cameras before the next begins",
  "Tests use one trigger pattern.",
  ("cddm/sim.py",), [("pairing", "cddm/sim.py:data_trigger, particles_video"), ("drawing", "cddm/_sim_nb.py:draw_points, draw_psf; cddm/sim.py:coordinate_transform")], ("cddm.sim.data_trigger",))
p("S04", "Simulated sensor readout is clamped and monotone",
  "Analog-to-digital conversion maps every intensity to an integer between zero and the full-scale count, is non-decreasing in the intensity, and is, below saturation and without noise, the integer part of (intensity-black level)/saturation times the full-scale count. "
  "The full-scale count is one less than the power of two of the bit depth, and unknown noise models are rejected with a value error.",
  ("inputs", "configurations"), "every finite intensity, saturation > 0, bit depth from 1 to 16 and black level",
  "Tests do not cover saturation edges.",
  ("cddm/sim.py",), [("conversion", "cddm/sim.py:adc")], ("cddm.sim.adc",))
p("W01", "Window functions are bounded, symmetric and zero outside the unit circle",
  "Every window has values between zero and one, is symmetric under reflection in both axes, depends only on the distance from the frame centre scaled to the frame half-sizes, and is non-increasing in it; the compact windows are zero at and beyond the inscribed ellipse. "
  "The tukey window is one on its flat part, equals the hann window for full taper, and writing into a supplied array gives the same values; invalid widths and tapers are rejected with a value error.",
  ("inputs", "configurations"), "every frame shape, taper in [0,1], width > 0, output array given or not",
  "Tests compare one small window with stored numbers.",
  ("cddm/window.py",), [("distance", "cddm/window.py:_r"), ("profiles", "cddm/window.py:blackman, gaussian, tukey, hann, _tukey")], ("cddm.window.blackman", "cddm.window.tukey"))
p("A01", "Data filters keep their defining order and locality",
  "The decreasing and increasing filters return the running minimum and running maximum along the last axis, the median filter returns at each interior point the middle one of the three neighbouring values, and the smoothing filter the 1/4,1/2,1/4 average, both keeping the end points; denoising alternates the last two. "
  "Every filter works on each row (and the real and imaginary part) independently, leading NaN are skipped by the running filters, and the input is left unmodified unless it is the output.",
  ("inputs",), "every real array of any rank (complex too for median and smoothing) and length (>=3 for median and smoothing), with and without an output array, also in place",
  "Tests check one short array per filter.",
  (NB, "cddm/avg.py"), [("filters", NB + ":_median, decreasing, increasing, convolve"), ("compositions", "cddm/avg.py:denoise")], ("cddm.avg.denoise", "cddm.avg.decreasing"))
p("K01", "Configuration setters report the old value and set exactly the new one",
  "Every configuration setter returns the previous value and stores the new one (verbosity no lower than zero, library names in their short form), so that setting the returned value restores the configuration; unknown libraries are rejected with a value error and unavailable ones with a warning, both leaving the configuration unchanged. "
  "Messages of level one or two are printed exactly when the verbosity is at least that level, and switching printing off and then on again suppresses all messages in between and restores the previous level, also when such parts are nested and each is ended with the level its start returned.",
  ("inputs", "histories", "configurations"), "every setter, value and sequence of calls",
  "Tests call a few setters once.",
  ("cddm/conf.py", "cddm/print_tools.py"), [("setters", "cddm/conf.py:set_verbose, set_showlib, set_fftlib, set_rfft2lib, set_fft_threads, set_numba_threads"), ("printing", "cddm/print_tools.py:disable_prints, enable_prints, print1, print2")],
  ("cddm.conf.set_verbose",))

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["id"]
            f.write(json.dumps(x) + "\n")
    print(len(P))
