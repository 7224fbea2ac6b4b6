#!/usr/bin/env python3
# Source of /verif/properties.jsonl (run it to regenerate the file).
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = state
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
B = "bland/bland/"
# ---------------------------------------------------------------- arrays
p("A01", "Array-array arithmetic is exact per element on every view and broadcast",
  "Adding, subtracting, multiplying or dividing two arrays of compatible shapes yields an array of the broadcast shape whose every element is the operation applied to the two corresponding elements, whatever strides, offsets or size-1 axes the operands' views have. Neither operand is modified, nothing outside the operands is read, and incompatible shapes are rejected with an exception.",
  ["inputs", "configurations"], "all element values, and every combination of dense, sliced, strided and broadcast operands in 1 to 3 dimensions",
  "test_bland checks a few dense and sliced examples with fixed numbers; no combination of view layouts, broadcasting and odd inner lengths is covered.",
  [B+"ops/cpu/elementwise_binary_op.hpp", B+"ops/cpu/arithmetic_cpu.cpp", B+"internal/include/internal/shape_helpers.cpp", B+"ops/arithmetic.cpp"],
  [("broadcast shape and strides", "expand_shapes_to_broadcast, compute_broadcast_strides"), ("unrolled inner loop with linear index reset", "elementwise_binary_op_impl_wrapper::call")],
  ["bland::add/subtract/multiply/divide", "ndarray operators"])
p("A02", "Array-scalar arithmetic keeps operand order and covers every element",
  "An arithmetic operation between an array view and a scalar, with the scalar on either side, produces for every element exactly that operation in the written operand order, leaving the operand unchanged.",
  ["inputs", "configurations"], "all element and scalar values, all view layouts up to 3 dimensions, scalar on the left and on the right",
  "tests use array-on-the-left examples with a handful of constants and dense arrays.",
  [B+"ops/cpu/elementwise_scalar_op.hpp", B+"ops/cpu/arithmetic_scalar_cpu.cpp", B+"ndarray.cpp"],
  [("scalar kernel", "scalar_op_impl_wrapper::call"), ("global scalar operators", "operator+,-,*,/ in ndarray.cpp")], ["operator+,-,*,/"])
p("A03", "Comparison and bitwise-and masks are right for every element and side",
  "Comparing an array view with a scalar (on either side) or with another array yields an 8-bit mask holding 1 exactly where the comparison written holds and 0 elsewhere, and the bitwise-and mask holds the conjunction of the operands' bits.",
  ["inputs", "configurations"], "all element and scalar values; array-array, array-scalar and scalar-array; all view layouts up to 3 dimensions",
  "tests compare a few constant arrays; the scalar-on-the-left forms and strided views are not exercised.",
  [B+"ops/comparison.cpp", B+"ops/cpu/comparison_cpu.cpp", B+"ops/cpu/comparison_cpu_impl.hpp"],
  [("comparison dispatch", "cpu::greater_than and friends"), ("scalar kernel", "scalar_op_impl_wrapper")], ["bland::greater_than ... equal_to, logical_and, operators"])
p("A04", "A slice denotes exactly the selected elements and writes only those",
  "Slicing an axis from start to end with a stride yields a view whose elements are the selected ones of the parent in order, slices of slices compose, and invalid ranges are rejected. Writing through a slice (assigning or filling) changes exactly the selected elements of the parent and nothing else.",
  ["inputs", "histories"], "every start, end and positive stride within the axis length, on parents that may themselves be slices, up to 3 dimensions",
  "tests slice a few fixed ranges; the space of start/end/stride combinations and nested slices is not explored.",
  [B+"ops/ops.cpp", B+"ndarray_slice.cpp", B+"ops/cpu/assignment_op.hpp"],
  [("slice arithmetic", "bland::slice"), ("write through", "ndarray_slice::operator=, fill")], ["bland::slice", "ndarray::slice", "bland::fill"])
p("A05", "Elementwise copy, square, root and absolute value respect any layout",
  "Copying an array view or taking its elementwise square, square root or absolute value gives an array of the same shape with that function of each element, whatever the layout of the source and of the destination view. The result does not share memory with the source, and elements outside a destination view stay untouched.",
  ["inputs", "configurations"], "all element values, dense/sliced/strided source and destination layouts, up to 3 dimensions",
  "tests only use dense sources and compare constants.",
  [B+"ops/cpu/elementwise_unary_op.hpp", B+"ops/cpu/ops_cpu.cpp", B+"ops/ops.cpp"],
  [("unary kernel", "unary_op_impl_wrapper::call")], ["bland::copy/square/sqrt/abs"])
p("A06", "Reshape, squeeze and unsqueeze preserve the row-major element sequence",
  "Reshaping an array, or removing or inserting a size-1 axis, gives the handle it is applied to, and the one it returns, the requested shape enumerating the same elements in the same row-major order, including on sliced views, and leaves other handles as they were; when that is impossible an exception is thrown.",
  ["inputs", "configurations"], "every target shape with the same element count for arrays and slices of up to 3 dimensions and 12 elements",
  "tests reshape one or two dense examples and compare shapes more than contents.",
  [B+"ndarray.cpp"], [("reshape/squeeze/unsqueeze", "ndarray::reshape, ndarray::squeeze, ndarray::unsqueeze")], ["ndarray::reshape", "ndarray::squeeze", "ndarray::unsqueeze"])
p("A07", "Reductions aggregate exactly the elements of the reduced axes",
  "Sum, mean, standard deviation, variance, maximum and count-of-nonzero over any set of axes combine, for every output position, exactly the input elements sharing its kept coordinates, each once, whatever the layout of the input view or the output. The combined mean/standard-deviation gives the same values as the two separate reductions.",
  ["inputs", "configurations"], "all element values, all axis subsets, dense/sliced/strided inputs up to 3 dimensions",
  "tests check a few fixed tensors; tolerance-based random checks do not cover axis subsets of sliced views.",
  [B+"ops/statistical.cpp", B+"ops/cpu/statistical_cpu.cpp"],
  [("reduction kernels", "sum_impl, mean_impl, stddev_impl, max_impl, count_impl"), ("output shape", "bland::sum/mean/... in statistical.cpp")], ["bland::sum, mean, stddev, var, max, count_true, mean_stddev"])
p("A08", "Masked reductions use exactly the unflagged elements",
  "A masked mean, standard deviation or variance aggregates exactly the elements whose mask entry is zero, where mask and data correspond by index even if their memory layouts differ. Mismatched shapes or non-8-bit masks, and reductions with no unmasked element, are rejected with an exception.",
  ["inputs", "configurations"], "all element and mask values and any layout of data and mask views, up to 2 dimensions",
  "tests use dense data with a dense mask and a few fixed patterns.",
  [B+"ops/cpu/statistical_cpu.cpp", B+"ops/statistical.cpp"],
  [("masked kernels", "masked_mean, masked_stddev, masked_mean_stddev")], ["bland::masked_mean, masked_stddev, masked_mean_stddev, masked_var"])
p("A09", "Array creators produce the documented lengths and values",
  "A filled array has the requested shape with every element equal to the value converted to its element type, a range has an element start+i*step for each i it is sized for, and a linear space has the requested number of elements evenly stepped from its start.",
  ["inputs"], "all starts, steps and fill values within bounds, all supported element types",
  "tests look at one or two default-type examples.",
  [B+"ops/creators.cpp", B+"ndarray.cpp", B+"include/bland/ops/creators.hpp"],
  [("arange/linspace/zeros/ones", "creators.cpp"), ("fill constructor", "ndarray::ndarray(dims, initial_val,...)")], ["bland::arange, linspace, zeros, ones, ndarray(dims, value)"])
p("A10", "Deferred arrays evaluate to their source with the policy's evaluation count",
  "Converting a deferred array yields the array its source produces: wrapped data is returned as is, an eager source runs once at creation, a memoizing source runs at most once, and a lazy source runs on every use, including across copies of the deferred array.",
  ["histories"], "every policy and every sequence of up to 4 copies and conversions",
  "no test counts evaluations or mixes copies and conversions.",
  [B+"ndarray_deferred.cpp", B+"include/bland/ndarray_deferred.hpp"],
  [("evaluation", "ndarray_deferred::operator ndarray")], ["ndarray_deferred conversions"])
p("A11", "Array handles share or own memory safely through any copy/export history",
  "Through any sequence of copying, assigning, moving, slicing, exporting and importing array handles, every live handle keeps reading and writing the elements it denoted when it was made, exports describe exactly the elements of the exported view, no freed memory is accessed, and all memory is released exactly once when the last handle and export go (an imported tensor borrows its exporter's memory).",
  ["histories"], "every sequence of up to 5 handle operations over two arrays with arbitrary contents",
  "tests perform single copies; they cannot observe memory lifetime across histories.",
  [B+"bland_tensor_internals.cpp", B+"ndarray.cpp", B+"ndarray_slice.cpp"],
  [("shared ownership", "blandDLTensor constructors and assignments, to_dlpack")], ["ndarray copy/assign, get_managed_tensor, ndarray(DLManagedTensor)"])
p("A12", "Type and device names parse to the type they name",
  "Every supported element-type or device name, with or without a device number, parses to exactly that type or device; every other string is rejected rather than accepted with unspecified contents; and types and devices compare equal exactly when all their fields agree.",
  ["inputs"], "every documented name plus every other string of bounded length over all characters",
  "no test parses type or device names.",
  [B+"ndarray.cpp"], [("name parsing", "ndarray::datatype(std::string_view), ndarray::dev(std::string_view)")], ["ndarray::datatype, ndarray::dev"])
# ---------------------------------------------------------------- drift search
D = "bliss/drift_search/"
p("A13", "Raw array files hold exactly the array's elements",
  "Writing an array of any element type and layout to a raw file leaves in the named file its elements in row-major order, one after the other at the array's own type, replacing what the file held; reading that file with the type gives a one-dimensional array of the same elements. A file that cannot be opened, created or completely written is reported by an exception, and a file of any length is either read as the whole elements it holds or refused, without touching memory beyond the array.",
  ["inputs", "configurations", "fault_sequences"], "arrays and slices of up to 3 dimensions of every element type, all values; files of any length; a disk that fills after any number of bytes",
  "tests write and read one dense float array.",
  [B+"ops/cpu/ops_cpu.cpp", B+"ops/ops.cpp", "bland/bland/internal/include/bland_helpers/file_helpers.hpp"],
  [("raw files", "bland::cpu::write_to_file, bland::cpu::read_from_file")], ["bland::write_to_file", "bland::read_from_file"])
p("A14", "The shifted power spectrum holds every frequency exactly once",
  "fft_shift_mag_square of a one-dimensional float array of n samples (any layout) gives n values: entry i is the squared magnitude of the Fourier transform of exactly these samples at frequency i - floor(n/2), for even n the highest frequency once, at entry 0. Nothing else is written, and arrays of other types are refused.",
  ["inputs", "configurations"], "every number of samples up to 9 and 64, 65; dense and sliced arrays; every transform real samples can have",
  "no test calls it.",
  [B+"ops/frequency.cpp", B+"ops/cpu/frequency_cpu_impl.cpp"],
  [("spectrum", "bland::fft_shift_mag_square")], ["bland::fft_shift_mag_square"])
p("A15", "Standardized moments and medians use exactly the elements they are asked for",
  "The standardized moment of degree k over any set of axes is, for every output position, the k-th moment about the mean over the k-th power of the standard deviation (both with n - 1) of exactly the input elements sharing its kept coordinates, so it depends on neither the location nor the scale of the data; a given output view receives it and nothing else changes. The median of an array or slice of any element type is its middle value, or the mean of its two middle values, and leaves the array as it was.",
  ["inputs", "configurations"], "moments of degree 2, 3, 4 and 6 at any location and scale, dense and sliced arrays of up to 4 dimensions; medians of all orderings of up to 4 values",
  "tests compare moments of random numbers within a tenth; no test takes a median.",
  [B+"ops/statistical.cpp", B+"ops/cpu/statistical_cpu.cpp"],
  [("moments", "standardized_moment_impl"), ("median", "bland::cpu::median")], ["bland::standardized_moment", "bland::median"])
p("D01", "The drift-rate table spans the requested range with consistent units",
  "For a coarse channel's resolution and search options, the table of drifts covers the half-open requested rate range in uniform increasing steps, and for every entry the slope in channels per spectrum, the span in channels over the observation, the rate in Hz/s and the smearing width are mutually consistent.",
  ["inputs", "configurations"], "all resolutions, channel widths (either sign), observation lengths and option values within bounds",
  "no test computes drift rates.",
  [D+"integrate_drifts.cpp"], [("drift table", "compute_drifts")], ["bliss::integrate_drifts, frequency_drift_plane::drift_rate_info"])
p("D02", "Dedoppler integration averages the spectrogram along each drift track",
  "For every drift and starting channel whose track stays inside the band, the integrated value is the mean over all spectra of the power at the track's rounded channel, averaged over the smearing width when that is enabled. Nothing outside the spectrogram is read or written, for any drift range.",
  ["inputs", "configurations"], "all power values, drift ranges (positive, negative, larger than the band), smearing settings and spectrogram sizes within bounds",
  "no test exercises the integration at all.",
  [D+"kernels/drift_integration_cpu.cpp", D+"integrate_drifts.cpp"],
  [("integration kernel", "integrate_linear_rounded_bins_cpu")], ["bliss::integrate_drifts"])
p("D03", "Per-track RFI counts equal the number of flagged samples on the track",
  "For every drift and starting channel whose track stays in the band, the low spectral kurtosis, high spectral kurtosis and filter rolloff counts equal the number of samples that track integrates carrying that flag, up to the counters' maximum of 255.",
  ["inputs", "configurations"], "all mask contents, drift ranges and smearing settings on spectrograms within bounds",
  "no test exercises the counts.",
  [D+"kernels/drift_integration_cpu.cpp", "bliss/core/include/core/flag_values.hpp"],
  [("flag counting", "integrate_linear_rounded_bins_cpu")], ["frequency_drift_plane::integrated_rfi"])
p("D04", "The two CPU integration back ends agree",
  "The direct and the array-library implementations of drift integration give the same integrated values and the same RFI counts (up to the counters' maximum of 255) on every spectrogram, mask and drift range.",
  ["inputs", "configurations"], "all power and mask contents, drift ranges and smearing settings within bounds",
  "no test runs either back end.",
  [D+"kernels/drift_integration_bland.cpp", D+"kernels/drift_integration_cpu.cpp"],
  [("array-library back end", "integrate_linear_rounded_bins_bland")], ["integrate_linear_rounded_bins_bland, integrate_linear_rounded_bins_cpu"])
p("D05", "Connected-component search finds every region above threshold exactly once",
  "The cells of the drift plane whose signal-to-noise exceeds half the threshold form groups connected through neighbours within the neighbourhood distance. Exactly the groups holding a cell whose signal-to-noise exceeds the threshold are reported, each once: the reported position is that of its largest signal-to-noise, the recorded signal-to-noise, power and RFI counts are those of that position, and its width and centre follow from the group's cells at that drift. The search of a binary mask likewise reports every group of set cells connected through the given neighbourhood once, with exactly its cells.",
  ["inputs", "configurations"], "all plane contents, noise floors, thresholds and neighbourhood sizes on planes within bounds",
  "no test runs the search.",
  [D+"kernels/connected_components_cpu.cpp", D+"protohit_search.cpp"],
  [("breadth-first component growth", "find_components_above_threshold_cpu")], ["bliss::protohit_search, find_components_above_threshold"])
p("D06", "Local-maxima search reports exactly the dominant above-threshold peaks",
  "A cell is reported by the local-maxima search exactly when its signal-to-noise exceeds the threshold and exceeds the signal-to-noise of every other cell within the neighbourhood distance (of equal neighbours neither is reported); cells too close to the plane's edge for a full neighbourhood are never reported, and each report carries that cell's own position, signal-to-noise, power and RFI counts and the width of the signal around it.",
  ["inputs", "configurations"], "all plane contents, noise floors and thresholds on planes within bounds",
  "no test runs the search.",
  [D+"kernels/local_maxima_cpu.cpp", D+"local_maxima.cpp"],
  [("neighbourhood test", "find_local_maxima_above_threshold_cpu")], ["bliss::protohit_search, find_local_maxima_above_threshold"])
p("D07", "Hits report the physical units of the protohit they come from",
  "Every hit built from a protohit carries the start frequency, drift rate, signal-to-noise, bandwidth, integration width, start time, duration and channel indices that follow from the protohit's position and the coarse channel's metadata, with no field left unset.",
  ["inputs"], "all protohit positions, noise values and channel metadata within bounds",
  "no test builds hits from protohits.",
  [D+"hit_search.cpp"], [("unit conversion", "hit_search / protohits_to_hits")], ["bliss::hit_search"])
p("D08", "Hit filtering removes exactly the hits its options select",
  "Filtering a hit list with given options keeps, in order and unmodified, exactly those hits not excluded by an enabled criterion (near-zero drift, low spectral kurtosis, filter rolloff).",
  ["inputs", "configurations"], "every list of up to 4 hits with arbitrary drift and RFI counts, every option combination",
  "no test filters hits.",
  [D+"filter_hits.cpp"], [("filter predicate", "filter_hits")], ["bliss::filter_hits"])
p("D09", "Events combine only hits seen repeatedly on target and absent off target",
  "Every hit of an ON scan not yet taken starts a candidate, which takes from each later ON scan the closest hit not yet taken when it lies within the matching distance of 50 of the candidate. Exactly the candidates with hits of at least two ON scans and no OFF-scan hit whose mean distance to the candidate's hits is below 50 are reported as events, and an event reports the averages of exactly the hits it contains, the starting frequency of its first hit, and the time from the start of its first scan to the end of its last.",
  ["inputs", "histories"], "all hit frequencies, drifts and times in cadences of up to 3 scans with 2 hits each",
  "no test runs the event search.",
  [D+"event_search.cpp"], [("matching", "event_search")], ["bliss::event_search"])
p("D10", "Hit ordering and equality are consistent, and hit state round-trips",
  "Comparing hits gives an equivalence for equality and a strict weak ordering for less-than, the two never contradict each other, and saving a hit's state and restoring it gives back an equal hit with every field at full precision.",
  ["inputs"], "all triples of hits with arbitrary field values",
  "no test compares, sorts or restores hits.",
  ["bliss/core/hit.cpp", "bliss/core/include/core/hit.hpp"], [("comparison operators and state tuple", "hit::operator==, operator<, get_state/set_state")], ["bliss::hit"])
# ---------------------------------------------------------------- scans
p("C01", "Coarse channels tile a scan's band without gaps or overlap",
  "Coarse channel i of a scan reads exactly that channel's fine channels of the source file, in every spectrum, and reports the frequency of its first fine channel, so consecutive channels tile the band. A scan made of given coarse channels returns those and takes its description from them. An index outside the scan, or of a channel that is neither given nor in a file, is rejected with an exception.",
  ["inputs", "configurations"], "all channel counts, first frequencies, channel widths (either sign) and indices within bounds",
  "only synthetic single-channel objects are tested; no test maps indices to file regions.",
  ["bliss/core/scan.cpp"], [("region computation", "scan::read_coarse_channel, scan::peak_coarse_channel")], ["scan::read_coarse_channel, scan::peak_coarse_channel"])
p("C02", "Slicing a scan by coarse channels selects the same channels the index does",
  "Channel j of the slice starting at s equals channel s+j of the original scan, the slice's channel count, fine-channel count and first frequency describe exactly that range, and slicing a slice composes. A count of -1 means all channels up to the end of the scan; ranges that leave the scan are rejected with an exception.",
  ["inputs", "histories"], "all starts and counts on scans within bounds, and slices of slices",
  "no test slices scans.",
  ["bliss/core/scan.cpp"], [("slice bookkeeping", "scan::slice_scan_channels")], ["scan::slice_scan_channels"])
p("C03", "Inferred channelization always partitions the band exactly",
  "When no split is requested, a band whose resolutions are within 0.1 Hz and 0.1 s of a known observatory channelization and whose fine channel count is a multiple of its coarse channel is divided that way; any other band is divided into equal coarse channels of a workable size (2^18 to 2^19 or one to two million fine channels, 2^18 when that divides it) or is one coarse channel. There is at least one coarse channel and together they hold every fine channel. A requested number of fine channels per coarse channel gives as many coarse channels of that size as fit; negative requests are rejected with an exception.",
  ["inputs", "configurations"], "all channel counts, widths and sampling times within bounds, with and without a requested split",
  "no test infers channelization.",
  ["bliss/core/scan.cpp"], [("inference", "infer_number_coarse_channels, scan constructor")], ["scan constructors, get_number_coarse_channels"])
p("C04", "Channel transforms apply once, in order, at every level they are added",
  "A transform added to a scan is applied to every coarse channel subsequently read from it, its copies or its slices, once per read and in the order added, and never to the scan it was copied from. Every processing step applied to a scan, target or cadence (normalization, equalization, the flaggers, noise estimation, integration, hit search, hit filtering) has the effect on each coarse channel read afterwards that applying it to that coarse channel itself has. The hits of a scan are those of its coarse channels.",
  ["histories"], "every sequence of up to 3 added transforms and reads of any channel at every level",
  "no test adds transforms.",
  ["bliss/core/scan.cpp", "bliss/core/cadence.cpp", "bliss/flaggers/magnitude.cpp", "bliss/preprocess/passband_static_equalize.cpp"],
  [("transform pipeline", "scan::add_coarse_channel_transform, scan::read_coarse_channel")], ["scan/observation_target/cadence add_coarse_channel_transform"])
p("C05", "Cadence and target summaries agree with every scan they contain",
  "A target or cadence whose scans all report the same channel count and frequency layout reports that count and the coarse channel holding a frequency, one whose scans disagree, or that has none, throws an exception instead. Scans agree when their first frequencies and channel widths differ by at most 1 Hz and their numbers of fine and coarse channels are equal. Slicing a target or cadence slices every scan and keeps names and devices.",
  ["inputs", "configurations"], "all channel counts and frequencies of up to 2 targets with 2 scans",
  "no test builds multi-scan targets.",
  ["bliss/core/cadence.cpp"], [("consistency validation", "validate_scan_consistency"), ("slicing", "slice_observation_channels, slice_cadence_channels")], ["observation_target, cadence"])
p("C06", "The coarse channel found for a frequency contains that frequency",
  "For every frequency inside a scan's band, the coarse channel looked up for it is the one whose frequency extent contains it, for ascending and descending bands, for scans, slices, targets and cadences. Frequencies outside the band are rejected with an exception.",
  ["inputs"], "all bands, channel counts and in-band frequencies within bounds",
  "no test looks up channels by frequency.",
  ["bliss/core/scan.cpp"], [("lookup", "scan::get_coarse_channel_with_frequency")], ["scan::get_coarse_channel_with_frequency"])
# ---------------------------------------------------------------- flaggers
p("F01", "Flagging adds only its own flag and keeps every other flag",
  "Each flagger sets its own flag on exactly the samples its criterion selects, leaves every flag set by other flaggers as it was, and applying it or reading the mask again changes nothing further.",
  ["inputs", "histories"], "all prior mask contents, data values and up to 2 repeated applications of each flagger",
  "no test runs a flagger.",
  ["bliss/flaggers/filter_rolloff.cpp", "bliss/flaggers/spectral_kurtosis.cpp", "bliss/flaggers/magnitude.cpp", "bliss/flaggers/sigmaclip.cpp", "bliss/core/include/core/flag_values.hpp"],
  [("mask update", "flag_filter_rolloff, flag_spectral_kurtosis, flag_magnitude, flag_sigmaclip")], ["coarse_channel::mask()"])
p("F02", "Rolloff flags cover exactly the requested fraction at both band edges",
  "Flagging rolloff with a fraction from 0 to 1 marks, in every spectrum, exactly the k lowest and the k highest channels and no others, where k is the fraction times the number of channels, rounded to the nearest whole number.",
  ["inputs"], "every fraction and channel count within bounds",
  "no test runs the flagger.",
  ["bliss/flaggers/filter_rolloff.cpp"], [("edge slices", "flag_filter_rolloff")], ["bliss::flag_filter_rolloff"])
p("F03", "Spectral kurtosis flags follow the estimator and both thresholds",
  "A channel is flagged with low (high) spectral kurtosis exactly when the estimator (M N d + 1)/(M - 1) (M S2/S1^2 - 1) of its samples over all M spectra lies below (above) the given threshold, for every spectrum of that channel and no other channel; N is the number of averaged spectra the resolutions imply, whatever its size. The documented defaults apply when no thresholds are given.",
  ["inputs", "configurations"], "all power values and thresholds for up to 4 spectra and 3 channels",
  "no test runs the estimator or the flagger.",
  ["bliss/flaggers/spectral_kurtosis.cpp", "bliss/estimators/spectral_kurtosis.cpp"], [("estimator and thresholds", "estimate_spectral_kurtosis, flag_spectral_kurtosis")], ["bliss::flag_spectral_kurtosis"])
p("F04", "Magnitude and sigma-clip flags mark exactly the outlying samples",
  "Magnitude flagging marks exactly the samples above the given level (ten deviations above the mean of all its samples when none is given), and sigma clipping marks exactly the samples outside the clipping range of its last iteration, each iteration taking mean and deviation from the samples the one before it left unmarked.",
  ["inputs", "configurations"], "all power values, levels and clip factors for small spectrograms, up to 2 iterations",
  "no test runs these flaggers.",
  ["bliss/flaggers/magnitude.cpp", "bliss/flaggers/sigmaclip.cpp"], [("level test", "flag_magnitude"), ("iterated clipping", "flag_sigmaclip")], ["bliss::flag_magnitude, bliss::flag_sigmaclip"])
# ---------------------------------------------------------------- estimators, preprocess
p("E01", "Noise estimates summarise exactly the unflagged samples",
  "The estimated noise floor and noise power of a coarse channel are the mean and standard deviation of its samples, restricted to samples with no flag set when masked estimation is requested. A fully flagged channel has no masked estimate, and estimators that are not implemented are rejected: both throw instead of returning a value. Estimating leaves data and flags as they were.",
  ["inputs", "configurations"], "all power and mask values of small spectrograms, every option",
  "no test runs the estimator.",
  ["bliss/estimators/noise_estimate.cpp", "bliss/core/noise_power.cpp"], [("estimator", "estimate_noise_power")], ["bliss::estimate_noise_power"])
p("E02", "Normalization and passband equalization scale every sample as specified",
  "Normalizing a channel divides every sample by the channel's maximum, and equalizing divides every fine channel by that channel's response value, in every spectrum, whatever the number of spectra and channels. A response of another length is rejected, and flags and description are kept.",
  ["inputs", "configurations"], "all power and response values of small spectrograms, including equally many spectra and channels",
  "no test runs the preprocessing on a channel.",
  ["bliss/preprocess/normalize.cpp", "bliss/preprocess/passband_static_equalize.cpp"], [("division by response", "equalize_passband_filter"), ("normalization", "normalize")], ["bliss::normalize, bliss::equalize_passband_filter"])
# ---------------------------------------------------------------- files
p("E03", "The coarse channel response folds every contributing channel",
  "gen_coarse_channel_response(fine, coarse, taps) gives one value for every fine channel of a coarse channel: the power response of a windowed low-pass filter of taps x coarse taps as wide as a coarse channel, summed over every frequency a whole number of coarse channels away from that fine channel (over the coarse channels wholly within the band, each centred like the one around zero frequency), divided by the largest such sum. More taps than the band has channels are refused.",
  ["inputs", "configurations"], "even numbers of fine channels up to 8, up to 6 coarse channels, any power response; filters of up to 24 taps",
  "no test calls it.",
  ["bliss/preprocess/passband_static_equalize.cpp", B+"ops/frequency.cpp"],
  [("folding", "bliss::gen_coarse_channel_response"), ("filter", "bliss::firdes")], ["bliss::gen_coarse_channel_response", "bliss::firdes"])
p("S01", "Hits and events survive a save and load through the binary format",
  "Writing hits to a binary hit file and reading the file back gives the same hits in the same order, from vectors and lists, with the same start frequency, drift rate, signal-to-noise, bandwidth, frequency and drift indices, time span, width and coarse channel; power, start time and duration are kept in single precision, flag counts are not part of the format. Events keep their hits in the same way. Writing replaces what the file held. A file cut off inside a hit gives the hits before it; files that are not there or cannot be written are rejected, and every file is closed again.",
  ["inputs", "fault schedules"], "all field values representable in the format, short lists of hits and events, files cut off inside any hit",
  "tests round-trip one hand-written example, do not compare every field and read no damaged file.",
  ["bliss/file_types/detail/cpnp_hit_builder.cpp", "bliss/file_types/cpnp_files.cpp", "bliss/file_types/events_file.cpp"], [("field mapping", "bliss_hit_to_capnp_signal_message, capnp_signal_message_to_bliss_hit")], ["write_hits_to_capnp_file, read_hits_from_capnp_file, write_events_to_file, read_events_from_file"])
p("S02", "Channel and scan descriptions survive a save and load",
  "Writing a searched coarse channel, scan, observation target or cadence to a binary file and reading it back gives the same scans and coarse channels in the same order, with the same frequencies, channel width, times, pointing, source, telescope, extents, channel number and hits; the hits of a scan are the ones its transforms produce, and a part of a scan is saved as that part. Channels that were not searched, files that are not there or that do not hold a whole message, and places that cannot be written are rejected.",
  ["inputs", "fault schedules"], "all numeric metadata values; small scans, targets and cadences and every part of a scan",
  "the scan test fails as committed and the channel test uses one example.",
  ["bliss/file_types/detail/cpnp_hit_builder.cpp", "bliss/file_types/cpnp_files.cpp", "bliss/core/scan.cpp"], [("field mapping", "bliss_coarse_channel_to_capnp..., bliss_scan_to_capnp...")], ["write_coarse_channel_hits_to_capnp_file, write_scan_hits_to_capnp_file, write_observation_target_hits_to_capnp_files, write_cadence_hits_to_capnp_files and their readers"])
p("S03", "Filterbank header parsing maps each axis to its role or rejects the file",
  "Reading the data layout of a filterbank file assigns time and frequency extents to the axes the file labels, in any order, and accepts the feed axis and axes with another role only when they have a single entry. When the extent labelled time is the number of channels in the header and the one labelled frequency is not, the labels are taken as swapped. Files with fewer labels than axes, or without a time, feed or frequency axis are rejected with an exception.",
  ["inputs", "configurations"], "all extents and every assignment of labels to axes",
  "no test opens a filterbank file.",
  ["bliss/file_types/h5_filterbank_file.cpp"], [("layout", "h5_filterbank_file::get_data_shape")], ["h5_filterbank_file"])
p("S04", "Filterbank reads return exactly the requested region",
  "Reading data or flags with given offsets and counts (time, feed, frequency) from a filterbank file returns an array of the requested extents holding exactly that region of the stored dataset: cells of files whose axes are stored in another order are read along the labelled axes or the file is rejected. Regions that leave the dataset or are not of three numbers are rejected, and files without a mask dataset have no flags set anywhere.",
  ["inputs"], "all offsets and counts within a bounded dataset, every order of axes",
  "no test reads a filterbank file.",
  ["bliss/file_types/h5_filterbank_file.cpp"], [("region selection", "h5_filterbank_file::read_data, read_mask")], ["h5_filterbank_file::read_data, read_mask"])
p("S05", "Filterbank header values reach scans and channels whatever their stored type",
  "Numbers in a filterbank header are read with their value whatever integer or floating type, size and byte order they are stored in, and texts without padding whether stored with variable or fixed length. A scan and the coarse channels read from it carry these values (frequencies, channel width, times, pointing, source, telescope and machine identity, bits, feeds). A file without a required value is rejected; the optional ones have documented fallbacks: data type 1, 32 bits, as many feeds as the dataset has.",
  ["inputs", "configurations"], "all values of each stored type and byte order, every single missing value",
  "no test opens a filterbank file.",
  ["bliss/file_types/h5_filterbank_file.cpp", "bliss/core/scan.cpp"], [("attributes", "h5_filterbank_file::read_data_attr"), ("description", "scan::scan, scan::read_coarse_channel")], ["scan", "coarse_channel", "h5_filterbank_file::read_data_attr"])
p("S06", "A dat listing gives the values of every hit in turboSETI's columns",
  "Writing the hits of a scan as a dat listing (write_scan_hits_to_dat_file, or write_scan_hits_to_file when the format is 'dat' or, without a format, the path ends in .dat; 'capnp', .capnp, .cp and anything else is Cap'n Proto) replaces the file at exactly the given path by a whole listing, or throws. Every hit of the coarse channels that were searched has one line of twelve tab-separated values, in plain decimal notation: its number from 1, drift rate, SNR, the frequency midway between start and end (twice), start index, start frequency, end frequency (start plus duration times drift), SEFD 0 and SEFD frequency 0, coarse channel number and width in bins; frequencies to a millionth of a MHz. The heading names these twelve columns in turboSETI's words and gives the file the scan was read from ('n/a' without one), source, start time (MJD), right ascension and declination in sexagesimal form, time resolution in seconds, channel width in Hz and the length of the observation in seconds. Reading a format that is not known is an invalid_argument.",
  ["inputs", "fault_sequences"], "all hits and descriptions of scans, all ways a file system takes the text",
  "no test writes a dat listing.",
  ["bliss/file_types/dat_file.cpp", "bliss/file_types/hits_file.cpp", "bliss/file_types/detail/raii_file_helpers.cpp"], [("listing", "write_scan_hits_to_dat_file, format_hits_to_dat_list"), ("formats", "write_scan_hits_to_file"), ("files", "raii_file_for_write")], ["write_scan_hits_to_dat_file", "write_scan_hits_to_file"])
p("K01", "bliss_find_hits runs every step as its options say and saves every input's hits",
  "bliss_find_hits, given input files followed by options (the output last), reads the files with the requested number of fine channels per coarse channel (0: inferred), takes the requested coarse channels (default: one, the first), moves them to the requested device and then runs, once and in this order, normalization, either equalization with the given channelizer response or rolloff flagging, spectral kurtosis flagging, sigma clipping, noise estimation (standard deviation of unflagged samples), drift integration, hit search and removal of hits that do not drift. Every number and choice given as an option, long or short, reaches the step it names unchanged, and those not given have their defaults: drift rates -500 to 500 in steps of 1 with desmearing, rolloff 0.25, kurtosis limits 0.25 and 50 with d 2, 5 sigma clipping iterations at 3 and 4, connected components above an SNR of 10 at a distance of 7. The hits of every input, after all steps, are written once to a file of their own: the first to the output path in the format given, or without one each to a Cap'n Proto file named after its input; '-' and 'stdout' print them instead. The exit status is 0 exactly when all of this succeeded.",
  ["inputs", "configurations"], "all option values, combinations of options and sets of input files",
  "no test runs the programs.",
  ["bliss/bliss_find_hits.cpp", "bliss/core/cadence.cpp"], [("program", "main"), ("inputs", "observation_target, slice_observation_channels")], ["bliss_find_hits"])
p("K02", "bliss_hits_to_dat and bliss_generate_channelizer_response do what is asked",
  "bliss_hits_to_dat reads the scan saved in the input file and writes it as a dat listing to the output path, or without one to a file in the working directory named as the input with the extension dat; '-' and 'stdout' print the hits instead, and without an input nothing is read or written. bliss_generate_channelizer_response writes the samples of the response for the given numbers of coarse channels (default 256), fine channels per coarse channel (default 1048576) and taps per coarse channel (default 12), as 32-bit floats and nothing else, to the output path (default channelizer_response.f32). Options work in either form and order; a failure is never reported as success.",
  ["inputs", "configurations"], "all option values and combinations of options",
  "no test runs the programs.",
  ["bliss/bliss_hits_to_dat.cpp", "bliss/bliss_generate_channelizer_response.cpp"], [("programs", "main")], ["bliss_hits_to_dat", "bliss_generate_channelizer_response"])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
print(len(P))
