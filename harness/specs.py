# What each check compiles, which harness entries it explores and within which bounds.
BLAND = ["bland/bland/**/*.cpp"]
EVERYTHING = BLAND + ["bliss/core/*.cpp", "bliss/drift_search/**/*.cpp", "bliss/estimators/*.cpp", "bliss/flaggers/*.cpp", "bliss/preprocess/*.cpp", "bliss/rfi/*.cpp"]
P = {}
def E(name, **kw):
    d = dict(name=name, jobs=2, time=60, time_t=900, paths=20000, paths_t=400000, rlimit=8000000)
    d.update(kw); return d
def prop(id, harness, src, entries, bounds, bounds_t=None, assumptions=(), libs=(), dlopen=(), cflags=(), **kw):
    P[id] = dict(harness=[harness] if isinstance(harness, str) else list(harness), src=list(src), entries=[E(e) if isinstance(e, str) else e for e in entries],
                 bounds=bounds, bounds_t=bounds_t, assumptions=list(assumptions), libs=list(libs), dlopen=list(dlopen), cflags=list(cflags), **kw)
REAL = "float elements are modelled as exact reals (rounding, overflow, NaN and infinity are outside the claim)"
LAYOUTS = "array shapes, slice offsets and strides within the enumerated layouts; one path per layout"

ARR_A = ["arrays of rank 1-3 with at most 17 elements per axis (shapes listed in the harness)", LAYOUTS]
prop("A01", "A01.cpp", BLAND, [E("e_f32", jobs=3), E("e_u8"), E("e_i32"), E("e_u32"), E("e_f32_u8"), E("e_f32_i32"), E("e_u8_i32"), E("e_forms"), "e_lengths", "e_ranks", "e_large", "e_long", E("e_rounded", opts=["--fp"])],
     "20 shape pairs (rank 1-3, up to 17 elements per axis, 4 incompatible pairs), 8 layout pairs (of 9 layouts), all element values; 8 larger pairs (rank 1-4, up to 180 elements) with every seventh element arbitrary; rows of 1-18 (thorough 40) elements; float32, uint8, int32, uint32 and mixed pairs; 5 and 6 axes of up to 3 elements; long arrays (70000, 2x66000, 300x260 and 260x2x130 elements) with fixed values but for a few arbitrary ones",
     "as quick with every pair of 9 layouts and all shapes for every type pair", assumptions=[REAL, "integer divisors are neither 0 nor -1", "type pairs outside those listed use the same template"])
prop("A02", "A02.cpp", BLAND, ["e_f32_f32", "e_f32_i32", "e_f32_u8", "e_f32_u32", "e_u8_u8", "e_u8_i32", "e_i32_i32", "e_u32_u32", "e_i64_i32", "e_lengths", "e_ranks", "e_large", E("e_rounded", opts=["--fp"]), "e_long"],
     "8 shapes (rank 1-3, up to 17 elements per axis), 9 layouts, scalar on either side (64-bit integers: on the right, or with + and *), all element and scalar values representable in the element type; 5 larger shapes (rank 1-4) with every seventh element arbitrary; rows of 1-18 (thorough 40) elements; every pair of floats bit by bit; 5 and 6 axes of up to 3 elements; long arrays (70000, 2x66000, 300x260 and 260x2x130 elements) with fixed values but for a few arbitrary ones", "as quick, every layout and shape for every type pair",
     assumptions=[REAL, "integer divisors are neither 0 nor -1"])
prop("A03", "A03.cpp", BLAND, ["e_sc_f32", "e_sc_u8", "e_sc_f32_i32", "e_sc_u32", "e_sc_i32", "e_sc_i64", "e_aa_f32", "e_aa_u8", "e_aa_f32_u8", "e_lengths", "e_ranks", "e_large", E("e_nan", opts=["--fp"]), "e_long"],
     "6 shapes and 10 shape pairs (rank 1-3, up to 9 elements per axis), 9 layouts, scalar on either side, 64-bit integers against scalars, all element values; 7 larger shapes (rank 2-4) with every seventh element arbitrary; rows of 1-18 elements; every pair of floats bit by bit, with infinities and NaN; 5 and 6 axes of up to 3 elements; long arrays (70000, 2x66000, 300x260 and 260x2x130 elements) with fixed values but for a few arbitrary ones", "as quick, every layout (pair) and shape for every type pair", assumptions=["but for one entry float elements are modelled as exact reals"])
prop("A04", "A04.cpp", BLAND, [E("e_geometry", cover=["end", "rejected"]), "e_default_end", "e_bad_dim", "e_compose", "e_two_axes", "e_write_f32", "e_write_u8", "e_assign_mismatch", "e_ranks", "e_long", "e_far"],
     "one axis of length 1-6: every start in [-20,20] and end in [-20,40] (symbolic), strides -1 to 5; composition on 2x9 and 9x2; writes on 5 shapes x 9 layouts, all element values; 4 larger shapes of 3 to 6 axes with one or all axes cut, read, filled and assigned; long arrays (70000, 2x66000, 300x260 and 260x2x130 elements) with fixed values but for a few arbitrary ones", "as quick with axes up to length 9", assumptions=[REAL])
prop("A05", "A05.cpp", BLAND, ["e_new_f32", "e_new_sqrt", "e_new_u8", "e_new_i32", "e_new_u32", "e_new_i64", "e_out_f32", "e_out_u8", "e_out_u8_f32", "e_out_broadcast", "e_out_mismatch", "e_ranks", "e_large", E("e_rounded", opts=["--fp"]), "e_long"],
     "7 shapes (rank 1-3), 9 source layouts, up to 9 destination layouts, all element values (64-bit integers too, squares of up to 3e9); 5 larger shapes (rank 1-4) with every seventh element arbitrary; 5 and 6 axes of up to 3 elements; long arrays (70000, 2x66000, 300x260 and 260x2x130 elements) with fixed values but for a few arbitrary ones", "as quick with every shape and layout pair for every type", assumptions=[REAL, "the absolute value of the most negative int32 is excluded"])
prop("A06", "A06.cpp", BLAND, [E("e_reshape", cover=["end", "reshaped"]), "e_reshape_count", "e_squeeze", "e_unsqueeze", "e_unsqueeze_bad", "e_chain", "e_ranks", "e_large", "e_long"],
     "19 shape pairs up to rank 3 and 12 elements, 9 layouts, every squeeze axis in [-5,4], all element values; 10 larger shape pairs (rank 1-5) with every seventh element arbitrary; 5 and 6 axes of up to 3 elements; long arrays (70000, 2x66000, 300x260 and 260x2x130 elements) with fixed values but for a few arbitrary ones", assumptions=[REAL])

prop("A07", "A07.cpp", BLAND, [E("e_f32", jobs=3), "e_f32_var", "e_out_f32", "e_out_var", "e_u8", "e_i32", "e_u32", "e_i64", "e_out_u8_f32", "e_combined", "e_combined_u8", "e_int_stddev", "e_count_u8", "e_count_f32", "e_ranks", "e_large", "e_large_var", "e_large_u8", "e_long", "e_long_var", "e_long_max", "e_long_count"],
     "6 shapes (rank 1-3), every subset of axes in both orders, 9 layouts of input and output, all element values; deviation and variance on groups of 1, 2, 4 and 8 elements; 5 and 6 axes of up to 3 elements; long arrays (70000, 2x66000, 300x260 and 260x2x130 elements) with fixed values but for a few arbitrary ones", assumptions=[REAL, "integer standard deviation on pairs of values up to 9"])
prop("A08", "A08.cpp", BLAND, [E("e_mean", cover=["end", "all"], jobs=3), E("e_dev", cover=["end", "all"]), E("e_u8", cover=["end", "all"]), E("e_i64", cover=["end", "all"]), "e_any_mask", "e_combined", "e_rejects", "e_all_flagged", "e_ranks", "e_large", "e_large_both", "e_long"],
     "5 shapes (rank 1-3), 9 layouts of data, mask and output, every subset of axes, mask patterns up to 4-6 elements (all flag values), all element values; 5 and 6 axes of up to 3 elements; long arrays (70000, 2x66000, 300x260 and 260x2x130 elements) with fixed values but for a few arbitrary ones", assumptions=[REAL])
prop("A09", "A09.cpp", BLAND, ["e_fill_f32", "e_fill_f32_i32", "e_fill_f32_u8", "e_fill_i32", "e_fill_u8", "e_fill_u8_i32", "e_fill_u32", "e_zeros_ones", "e_arange_i32", "e_arange_i32_f32", "e_arange_u8", "e_arange_u32", "e_arange_i64", "e_arange_f32", "e_arange_default", "e_arange_frac", "e_arange_anylen", "e_linspace_f32", "e_linspace_i32", "e_linspace_i32_f32", "e_linspace_u8", "e_linspace_u32", "e_linspace_any", "e_long", "e_long_range"],
     "6 shapes (one to three axes, also empty), lengths up to 6 (thorough 9), all starts and values in the element type's range (wide integer starts within +-1e6); long arrays of 70000 and 300x260 elements; ranges and linear spaces through all values (70000 of the wider ones) of each of the 10 element types", assumptions=[REAL])
prop("A10", "A10.cpp", BLAND, ["e_lazy", "e_memoize", "e_eager", "e_default_policy", "e_wrapped", "e_memoized_shares", "e_source_fails", "e_passed_to_operations"],
     "every history of 4 (thorough 5) conversions, copies and assignments of two handles of one source; wrapped arrays in 9 layouts; all contents", assumptions=["sources that throw anything but the first time, and concurrent conversions, are outside the claim"])
prop("A11", "A11.cpp", BLAND, ["e_copy_first", "e_assign_first", "e_move_first", "e_slice_first", "e_import_first", "e_export_first", "e_release_first", "e_foreign", "e_large", "e_scalarize"],
     "every history of 3 (thorough 4) operations over three handles and two buffers; foreign tensors of rank 2-3 with 4 stride forms and byte offsets; sizes up to 2^60 elements; all contents", assumptions=["an imported tensor borrows its buffer: it is used only while the exporter keeps it"])
prop("A12", "A12.cpp", BLAND, [E("e_type_%d" % n, cover=["end", "named"]) for n in (0, 2, 3, 4, 5, 6, 7, 8)] + ["e_type_equality", "e_dev_equality", "e_dev_numbered", "e_dev_cpu", "e_dev_any0", "e_dev_any3", "e_dev_any4", "e_dev_any6", "e_dev_prefix1", "e_dev_prefix4", "e_dev_prefix_h", "e_dev_prefix_m", "e_dev_badnumber"],
     "every type name of 0 and 2-8 characters, every device name of 0, 3, 4 and 6 characters and every 1-4 character extension of the known names; device numbers up to two digits")

SEARCH = BLAND + ["bliss/core/*.cpp", "bliss/drift_search/**/*.cpp"]
FS = "the standard file streams are replaced by a model over an in-memory disk"
FFT = "the FFTW library is replaced by a model returning any values a transform of real samples can have (and, in one entry, the transform itself of four samples)"
prop("A15", "A15.cpp", BLAND, ["e_moment2", E("e_moment4", jobs=3), E("e_moment4_out", jobs=3), "e_moment6", "e_moment3", "e_moment_large", "e_one", "e_moment_u8", "e_median", "e_median_large", "e_median_u8", "e_median_i32", "e_median_u32", "e_median_sizes", "e_long"], "moments of degree 2, 3, 4 and 6: 15 reductions of arrays of up to 72 elements of any location in [-8,8] and any width in [0.5,4] of a fixed pattern, 9 layouts, one arbitrary element among 2-3; medians of up to 4 arbitrary floats, of one arbitrary among up to 20, of one about the middle of 33-257 different ones (1000-70002 fixed ones), and of up to 4 integers out of 4; long arrays (70000, 300x260, 2x40000 and 260x2x40 elements) of fixed values with one arbitrary", "medians of 5 arbitrary floats", assumptions=[REAL, "groups of at least two elements for moments, of at least one for medians"])
FAKEFS = ["-I" + __import__("os").path.dirname(__import__("os").path.abspath(__file__)) + "/fakefs"]
prop("A13", "A13.cpp", BLAND, ["e_f32", "e_u8", "e_i32", "e_u32", "e_i64", E("e_any_u8"), E("e_any_i32", cover=["end"]), E("e_any_i64", cover=["end"]), "e_failures", "e_paths", "e_long"], "5 shapes of rank 1-3 (up to 8 elements) x 9 layouts of 4 element types; every file of up to 17 bytes; a disk that fills after any number of bytes; long arrays of 70000 and 300x260 elements, all fixed but a few", "7 shapes of rank up to 4", assumptions=[FS], cflags=FAKEFS, everywhere=True)
prop("A14", "A14.cpp", BLAND, ["e_short", "e_views", "e_long", "e_longer", "e_exact", "e_types"], "every real transform of 1-9, 64 and 65 samples, 9 layouts; up to 140001 samples with one arbitrary frequency", "up to 17 samples", assumptions=[REAL, FFT])
prop("D01", "D01.cpp", SEARCH, ["e_units", "e_real_channel", "e_rejects"],
     "12 drift ranges (of up to 70000 channels, and of 400 rates) x 7 observation lengths (1-16 spectra) x desmearing on and off; every frequency step in [-2,2] MHz and integration time in [0.5,20] s", assumptions=[REAL])
prop("D02", "D02.cpp", SEARCH, ["e_ranges", "e_smeared", "e_layouts", "e_long", "e_wide_band"],
     "spectrograms up to 5 x 8, smeared tracks on up to 3 x 12 and 16 x 24 channels, 5 drift ranges reaching beyond the band, 9 layouts, all sample values; 3x70000, 300x24, 3x40300 (drifts of 40000 channels) and 2x320 samples (290 rates), all fixed but a few", assumptions=[REAL, "cells whose track leaves the band are outside the claim"])
prop("D03", "D03.cpp", SEARCH, ["e_one", "e_two", "e_far", E("e_many", jobs=4), "e_wide_band"],
     "masks of 3x5, 2x4, 3x4 and 16x290 samples: all flag values on any one or two samples over three backgrounds; 3x70000, 300x24, 3x40300 (drifts of 40000 channels) and 2x320 samples (290 rates) of fixed flags", assumptions=["cells whose track leaves the band are outside the claim"])
prop("D04", "D04.cpp", SEARCH, ["e_power", "e_layouts", E("e_flags", jobs=5), "e_many", "e_wide_band"],
     "spectrograms up to 4 x 7 (all sample values) and 16 x 290, 4 drift ranges reaching beyond the band, 9 layouts, all flag values on any one sample; 3x70000, 300x24, 3x40300 (drifts of 40000 channels) and 2x320 samples (290 rates), all fixed but a few", assumptions=[REAL])
prop("D05", "D05.cpp", SEARCH, [E("e_all", jobs=3), E("e_six", jobs=3), "e_sparse", "e_three", "e_bridges", "e_wide", "e_mask", "e_wide_mask", "e_many"],
     "masks of up to 2x3 cells (all contents) in 9 layouts with 4 neighbourhoods; planes of up to 4 and of 2x3 cells (all values), two or three arbitrary cells on planes of 4x5, 3x4 and 3x16, distances 0-3 and 7, every floor in [-10,10] and threshold in [0.5,20]; planes of 3x70000 cells in up to 350 fixed groups, the height of some arbitrary; a mask of 3x70000 cells in 35 groups", assumptions=[REAL, "positive thresholds", "finite planes"])
prop("D06", "D06.cpp", SEARCH, ["e_cross", "e_corners", E("e_row", jobs=4), "e_column", E("e_pairs", jobs=4), "e_distance_two", "e_distance_three", E("e_width", jobs=3), "e_many"],
     "planes of up to 7x7 cells with 2-6 arbitrary cells, distances 1-3, every floor in [-10,10] and threshold in [0.5,20]; a plane of 3x70000 cells with 350 fixed maxima, the height of some arbitrary", assumptions=[REAL, "positive thresholds", "finite planes"])
prop("D07", "D07.cpp", SEARCH, ["e_components", "e_components_real", "e_maxima", "e_no_noise", "e_far"],
     "planes of 3x6 cells with 2-3 arbitrary cells and an arbitrary noise floor; every first frequency in [-2000,12000] MHz, channel width in [-2,2] MHz, integration time in [0.1,20] s and start date in [50000,60000]; fixed hits in planes of 320x5 and 3x70000 cells; 4 and 16 spectra", assumptions=[REAL])
prop("D08", "D08.cpp", SEARCH, ["e_one", E("e_lists", jobs=4), "e_default", "e_channel", "e_no_hits", "e_many"],
     "every list of up to 3 hits (thorough 4): all drifts in [-5,5] Hz/s except within 1e-9 of the 1e-6 limit, all counts, every combination of present counts; lists of 300 and 70000 fixed hits", assumptions=[REAL])
prop("D09", "D09.cpp", SEARCH, ["e_pair", "e_off", "e_order", "e_targets", "e_three", "e_three_off", "e_choice", "e_compete", "e_six", "e_middle", "e_drifts", "e_none"],
     "cadences of up to 3 ON scans with up to 2 hits each and up to 2 OFF hits in up to 3 OFF targets: all frequencies in a 20 kHz window, eleven drift rates, ON scans in 5 orders of time", assumptions=[REAL, "distances within 0.01 of the limit of 50 and candidates within 0.001 of one another are excluded"])
prop("D10", "D10.cpp", ["bliss/core/hit.cpp"], ["e_fields", E("e_triples", jobs=4), "e_state", E("e_state_real", opts=["--fp"])],
     "hits that differ in any two (thorough: any pair up to six apart) of 14 fields, triples of such hits, all field values; state of every 64-bit integer and every finite or infinite floating-point value", assumptions=["NaN fields are excluded"])
FAKEH5 = ["-I" + __import__("os").path.dirname(__import__("os").path.abspath(__file__)) + "/fakeh5"]
FILES = BLAND + ["bliss/core/*.cpp", "bliss/file_types/h5_filterbank_file.cpp"]
H5 = "the HDF5 library is replaced by a model of one dataset of any rank with typed attributes; selections outside the dataset throw as in the library"
prop("C01", "C01.cpp", FILES, ["e_read", "e_peek", "e_orders", "e_far", "e_built", "e_described", "e_gaps", "e_telescope"], "6 splits of up to 15 fine channels, 1-3 spectra, every first frequency in [100,10000] and channel width in [-3,3] MHz, every 32-bit index; every description of a scan made of channels, with each optional value present or absent; six regions of a file of 2^33 channels; a telescope band of 64 x 2^20 channels", assumptions=[REAL, H5], cflags=FAKEH5)
prop("C02", "C02.cpp", FILES, ["e_slice", "e_nested", "e_built", "e_uneven", "e_default"], "every 64-bit start and count on a scan of 4 coarse channels, all slices of three scans whose band is not a whole number of coarse channels, all slices of slices of a scan of 5", assumptions=[REAL, H5], cflags=FAKEH5)
prop("C03", "C03.cpp", FILES, ["e_any", "e_known", "e_multiple", "e_resolution", "e_requested", E("e_far", cover=["end", "rejected"]), "e_after"], "every channel count of 0,1,2,3,5,16,63,252 units of 2^18 and any remainder; multiples of known coarse channels (up to 256 symbolically, chosen ones up to 2048 and their neighbours); every resolution within [-4,4] Hz and [10,20] s, within 0.5 Hz of 2860 Hz and [0.8,1.3] s, and within 0.5 Hz of 366.21 kHz and up to 0.2 s, at 5 counts each; every requested split up to 256 of up to 256 channels, and every larger or negative 32-bit one; one of 6 files opened after another", "up to 32767 units and 8192 coarse channels, splits up to 4096", assumptions=[REAL, H5], cflags=FAKEH5)
prop("C06", "C06.cpp", FILES, [E("e_band", cover=["end", "outside"]), E("e_sliced", cover=["end", "outside"]), E("e_built", cover=["end", "outside"]), "e_levels", "e_exact", "e_telescope"], "the first frequency of every coarse channel, and one just before the next, of 5 splits with exactly representable frequencies; 5 splits x 5 channel widths of either sign, every first frequency in [100,10000] MHz and every frequency up to two bands away; four fine channels of every coarse channel of a telescope band of 64 x 2^20 channels", assumptions=[REAL, H5, "frequencies within a thousandth of a fine channel of the edge of a coarse channel (other than the first frequency itself) are excluded: rounding decides there"], cflags=FAKEH5)
prop("C05", "C05.cpp", FILES, [E("e_target", cover=["end", "inconsistent"]), E("e_third", cover=["end", "inconsistent"]), E("e_cadence", cover=["end", "inconsistent"]), E("e_cadence_third", cover=["end", "inconsistent"]), "e_single", "e_empty", "e_slice", "e_device", "e_names"], "targets of up to 4 scans and cadences of up to 2 targets: every first frequency and every difference of up to 2 Hz in first frequency and channel width, channel counts 12 and 16, splits into 2 and 4, all slices of 3 channels", assumptions=[REAL, H5, "differences within 0.1 Hz of the documented tolerance of 1 Hz are excluded"], cflags=FAKEH5)
FLAG = BLAND + ["bliss/core/*.cpp", "bliss/flaggers/*.cpp", "bliss/estimators/*.cpp", "bliss/preprocess/*.cpp"]
prop("F01", "F01.cpp", FLAG, ["e_rolloff", "e_kurtosis", "e_magnitude", "e_default_magnitude", E("e_sigmaclip", jobs=5, time=90), "e_all", "e_long"], "up to 2x5 samples, 9 layouts, every prior flag byte and power in [0.25,100]; every flagger, applied twice and read twice, one after another in either order; 2x300 and 300x2 samples, all fixed but a few", "2 iterations of sigma clipping", assumptions=[REAL])
prop("F02", "F02.cpp", FLAG, ["e_small", "e_wide", "e_none", "e_long"], "every fraction in [0,1] for 1-8 and 20 channels, 1-3 spectra, 9 layouts of the mask, every prior flag byte; 2x70000, 2x132000, 300x260 and 70000x2 samples", "64 channels", assumptions=[REAL, "fractions within 1e-4 channels of a tie of rounding are excluded"])
prop("F03", "F03.cpp", FLAG, ["e_two", "e_three", "e_five", "e_wide", "e_defaults", "e_estimate", "e_long", "e_long_estimate"], "2-5 spectra of 1-5 channels, every power in [0.25,100], every threshold in [0,4] and [0,8], 1, 2, 5, 7, 51 and 100000 averaged spectra per sample (also not whole numbers; any power of 32 for the estimator), d of 0.5, 1 and 2, 9 layouts, every prior flag byte; 2x70000, 300x260, 40000x2 and 70000x2 fixed samples", "9 channels", assumptions=[REAL])
prop("F04", "F04.cpp", FLAG, ["e_level", "e_default_level", E("e_one_iteration", jobs=3), E("e_iterations", jobs=4), "e_cascade", "e_scaled", "e_faint", "e_long"], "magnitude: up to 4x4 samples, every value and level in [-100,100], 9 layouts; the default level on 121 samples with a symbolic peak and spread; sigma clipping: 3-9 samples of which 1-3 are any value, up to 4 iterations, 4 pairs of thresholds; 2x70000, 300x260 and 70000x2 fixed samples with one arbitrary", "5 iterations", assumptions=[REAL, "sigma clipping: samples within 1e-2 (in squared units) of the clipping range are excluded"])
prop("E01", "E01.cpp", FLAG, [E("e_masked", cover=["end", "all"]), E("e_larger", cover=["end", "all"]), "e_unmasked", "e_kept", "e_unset", "e_long", "e_whole_counts"], "up to 3x3 samples, every value in [-20,20], every pattern of flagged samples of 4 (6 patterns of 9) with every flag byte, 9 layouts, every option; 2x70000, 300x260 and 70000x2 fixed samples with one arbitrary, 256 to 131072 unflagged ones", assumptions=[REAL])
prop("E02", "E02.cpp", FLAG, ["e_normalize", "e_equalize", "e_response", "e_both", "e_long"], "up to 3x2 samples for normalization, up to 2x9 for equalization (also equally many spectra and channels), every value in [0.01,100] or [-100,-0.01] and response in [0.1,10], 9 layouts; 2x70000, 300x260 and 70000x2 fixed samples with one arbitrary", assumptions=[REAL])
prop("E03", "E03.cpp", FLAG, [E("e_even", jobs=3), E("e_odd", jobs=3), "e_too_many_taps", "e_filter"], "2, 4, 6 and 8 fine channels in 1-6 coarse channels (11 combinations), any value of any one frequency of the transform of the filter; filters of 2-24 taps for 2-6 channels", assumptions=[REAL, FFT, "an even number of fine channels in a coarse channel"])
LEVELS = FILES + ["bliss/flaggers/*.cpp", "bliss/estimators/*.cpp", "bliss/preprocess/*.cpp", "bliss/drift_search/**/*.cpp"]
prop("C04", "C04.cpp", LEVELS, ["e_steps", "e_pairs", "e_search", "e_transforms"], "each of 9 steps and 12 pairs of steps at 3 levels, on a coarse channel of 2x3 samples with every power in [0.5,20] and every flag byte, of a cadence of 2 targets with 2 scans of 2 coarse channels; the whole search and hit filtering on concrete spectra at every first frequency; every history of 3 additions, copies, slices and reads", "histories of 4", assumptions=[REAL, H5], cflags=FAKEH5)
prop("S03", "S03.cpp", FILES, ["e_three", E("e_four", jobs=4), "e_few", "e_short", "e_stored", "e_missing", "e_cells"], "every assignment of 4-5 labels (time, feed_id, frequency, none, other) to 1-4 axes with every extent and channel count up to 2^40; labels of fixed and variable length; cells read from 5 axis orders with 1-3 times and channels", assumptions=[H5], cflags=FAKEH5)
prop("S04", "S04.cpp", FILES, ["e_region", "e_defaults", "e_outside", "e_far", "e_axes"], "every region of a dataset of 3x5 with any contents, every 64-bit offset and count outside it, regions of a dataset of 2^33 channels, 10 axis orders of 3-4 axes with and without swapped labels", assumptions=[REAL, H5, "files without a mask dataset; regions without entries are excluded"], cflags=FAKEH5)
prop("S05", "S05.cpp", FILES, ["e_double", "e_float", "e_int64", "e_int32", "e_small", "e_unsigned", "e_fraction", "e_text", "e_kinds", "e_scan", "e_optional", "e_required"], "10 stored number types in either byte order read as 8 types, every value both types hold exactly (up to 2^63 - 1); 4 texts of fixed (padded or not) and variable length; every header value of a scan, every combination of the optional ones", assumptions=[REAL, H5], cflags=FAKEH5)
CAPNP = FAKEH5 + ["-I" + FAKEH5[0][2:].replace("fakeh5", "fakecapnp"), "-DBLISS_USE_CAPNP=1", "-Dopen=file_open", "-Dclose=file_close", "-Dstat=file_stat"]
SAVED = FILES + ["bliss/file_types/cpnp_files.cpp", "bliss/file_types/events_file.cpp", "bliss/file_types/detail/*.cpp"]
TRUST = ["capnp::SegmentArrayMessageReader::", "capnp::MessageReader::", "capnp::_::PointerReader::", "capnp::_::StructReader::", "capnp::_::ListReader::"] # follow pointer words, which are concrete, and look at no data word
CP = "files are modelled as lists of messages (any words) in memory; messages are built and read by the real Cap'n Proto library and the accessors generated from the schema"
prop("S01", "S01.cpp", SAVED, [E("e_hit", opts=["--fp"]), "e_lists", "e_again", "e_cut", "e_events", "e_named", "e_missing", "e_many"], "every field value of one hit (doubles and floats bit by bit, indices of 32 bits); any indices in lists of up to 4 hits and 2 events of 2 hits, files cut off inside any hit; 66000 hits or events in a file, 3000 hits in an event, all fixed but one", "lists of 8", assumptions=[REAL, CP, "NaN fields are excluded"], cflags=CAPNP, dlopen=["libcapnp.so", "libkj.so"], libs=["-lcapnp", "-lkj"], trust=TRUST)
prop("S02", "S02.cpp", SAVED, [E("e_channel", opts=["--fp"]), E("e_scan_values", opts=["--fp"]), "e_channel_hits", "e_scan", "e_slice", "e_pipeline", "e_target", "e_cadence", "e_named", "e_refused", "e_many"], "every value of the description of a coarse channel (doubles bit by bit but NaN, integers of 32 bits), 4 source names; channels with up to 4 hits, scans of up to 3 channels with up to 2 hits each and all their parts, targets of 2 scans, cadences of 2 targets of 2 scans; 3000 fixed hits in a channel, 300 channels in a scan", "channels with 8 hits, cadences of 3 targets", assumptions=[REAL, CP, "NaN values are excluded", "every coarse channel of a written scan was read or given (others are written empty)"], cflags=CAPNP, dlopen=["libcapnp.so", "libkj.so"], libs=["-lcapnp", "-lkj"], trust=TRUST)
FMT = "the fmt library is replaced by a model that copies text and keeps every number with its format; files are in memory"
prop("S06", "S06.cpp", FILES + ["bliss/file_types/dat_file.cpp", "bliss/file_types/hits_file.cpp", "bliss/file_types/detail/raii*.cpp"], ["e_hits", "e_many", "e_header", "e_position", "e_declination", "e_file", "e_again", "e_faults", "e_path", "e_format", "e_reading"], "scans of up to 2 channels with up to 2 hits each and of one channel with 12 hits (312 with fixed ones): every index, width and coarse channel of 28, 20 and 20 bits, every frequency up to 100 GHz, drift up to 1000 Hz/s, SNR, start and time and frequency resolution; every position at 96 right ascensions and 56 declinations and up to a minute beyond; every combination of searched channels of a file of 3; a disk that fills at 4 points, writes of 100 bytes", "3 channels, 130 hits", assumptions=[REAL, H5, FMT, "positions within 1e-9 of a whole minute are excluded"], cflags=CAPNP[:1] + CAPNP[2:] + ["-I" + FAKEH5[0][2:].replace("fakeh5", "fakefmt")])
PROGRAM = "command-line numbers are read by a model of strtof and strtoll so that they are arbitrary; the steps are stand-ins that record their arguments"
prop("K01", ["K01.cpp", "K01_main.cpp"], BLAND + ["bliss/core/*.cpp", "bliss/file_types/h5_filterbank_file.cpp"], ["e_defaults", "e_each", E("e_pairs", jobs=3), "e_all", "e_negative", "e_files", "e_refused"], "each of 21 options in its short and long form, pairs of options, all of them in two orders, with every 32-bit integer and every real value in [-1000,1000]; 5 sets of up to 4 input files with 6 kinds of output", "every pair of options", assumptions=[REAL, H5, PROGRAM, "input files come first and the output last, as in the synopsis"], cflags=FAKEH5, warm=0)
prop("K02", ["K02.cpp", "K02_main.cpp", "K02_response.cpp"], BLAND + ["bliss/core/*.cpp", "bliss/file_types/h5_filterbank_file.cpp"], ["e_listing", "e_listing_refused", "e_response"], "listings: 4 inputs, 5 outputs, either order and form of the options; responses: every combination of 5 options with every 32-bit count and any sample", assumptions=[REAL, FS, PROGRAM], cflags=FAKEH5 + FAKEFS + ["-DBLISS_USE_CAPNP=1"], everywhere=True, warm=0)
