#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source for the property list)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if state: a["state"] = [dict(zip(("name", "meaning", "where"), s)) for s in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

C = "pywt/_extensions/c/"
prop("P01", "Single-level DWT equals extend, filter, keep odd samples",
 "For every discrete wavelet (built-in or user-supplied even-length filter bank), every signal extension mode, every signal of any length (including shorter than the filter, and odd lengths) and every supported floating dtype, the single-level DWT along any axis returns exactly the documented result: extend the signal past both ends by the rule of the mode, convolve with the decomposition low-pass / high-pass filter and keep every second sample. "
 "The number of coefficients is floor((N+F-1)/2), or ceil(N/2) for periodization, and approximation and detail use the published filter coefficients. The result along one axis of an n-D array is the 1-D result of each line.",
 ["inputs", "configurations"], "all signals (length >= 1), all 106 built-in wavelets and custom filter banks, 9 modes, 4 dtypes, every axis and memory layout",
 "The tests compare against Matlab for a fixed grid of lengths and a few wavelets, in float64 and mostly with signals longer than the filter; the product of length residue x filter length x mode x dtype x axis is far larger than sampled.",
 ["pywt/_dwt.py", "pywt/_extensions/_dwt.pyx", C+"convolution.template.c", C+"wt.template.c", C+"common.c"],
 [("extension modes and downsampling convolution", C+"convolution.template.c: downsampling_convolution, downsampling_convolution_periodization"),
  ("axis iteration", C+"wt.template.c: downcoef_axis"), ("entry point", "pywt/_dwt.py: dwt")],
 observe=["pywt.dwt"])
prop("P02", "1-D inverse transform: perfect reconstruction and exact synthesis",
 "For every discrete wavelet, mode, signal length, axis and level, the inverse of the forward transform (single or multilevel) gives back the original signal at its positions to rounding accuracy (to the published accuracy of the filter tables), with at most one extra trailing sample when the length is odd. "
 "For arbitrary coefficient arrays, not only those produced by a forward transform, the inverse equals the documented synthesis: upsample, convolve with the reconstruction filters, sum and keep the central part (circularly for periodization), where an absent approximation or detail array acts as zeros.",
 ["inputs", "configurations"], "all signals and all coefficient arrays of valid length, all wavelets, modes, dtypes, axes, levels from 0 to beyond the maximum useful level",
 "Round-trip tests use a handful of lengths and wavelets and only coefficients that come from a forward transform; errors in boundary samples for short inputs, odd lengths, deep levels or single precision are not reached.",
 ["pywt/_dwt.py", "pywt/_multilevel.py", "pywt/_extensions/_dwt.pyx", C+"convolution.template.c", C+"wt.template.c"],
 [("upsampling convolution", C+"convolution.template.c: upsampling_convolution_valid_sf, ..._periodization"),
  ("idwt on one axis", C+"wt.template.c: idwt_axis"), ("level recursion and length matching", "pywt/_multilevel.py: wavedec, waverec")],
 observe=["pywt.idwt", "pywt.waverec"])
prop("P03", "n-D transforms are separable 1-D transforms with fixed band naming",
 "The 2-D and n-D (single and multilevel) discrete wavelet transforms equal the 1-D transform applied successively along each requested axis, with the wavelet and mode given for that axis, and each output band carries the name/position that documents which filter was applied on which axis, regardless of the order in which axes are given or of negative axis numbers. "
 "Axes that are not listed are left untouched, the inverse transforms undo the forward ones for every shape (odd sizes give at most one extra trailing sample per axis), and bands passed as None act as zeros.",
 ["inputs", "configurations"], "arrays of 1 to 4 dimensions and any shape, any subset/permutation of axes, per-axis wavelets and modes, levels",
 "Tests use square, even-sized, mostly 2-D arrays with the same wavelet and mode on all axes and default axes order; swapped names or axis/wavelet mismatches are invisible there.",
 ["pywt/_multidim.py", "pywt/_multilevel.py", "pywt/_utils.py"],
 [("axis loop and key composition", "pywt/_multidim.py: dwtn, idwtn, dwt2, idwt2"), ("multilevel recursion", "pywt/_multilevel.py: wavedec2/waverec2/wavedecn/waverecn"),
  ("per-axis wavelets and modes", "pywt/_utils.py: _wavelets_per_axis, _modes_per_axis")],
 observe=["pywt.dwtn", "pywt.dwt2", "pywt.wavedecn", "pywt.wavedec2"])
prop("P04", "Predicted lengths, shapes, sizes and maximum levels match the transforms",
 "The coefficient length, maximum decomposition level, coefficient shapes and total coefficient count reported ahead of time agree with what the transforms actually produce for the same data shape, wavelet(s), mode(s), level and axes, including when the level is left to its default. "
 "The maximum level is the largest L such that the signal is still at least (filter length - 1)*2^L long (0 if none, minimum over transformed axes), and for the stationary transform it is the number of times 2 divides the length; requesting a level above the maximum warns but still works, a negative level is rejected.",
 ["inputs", "configurations"], "all lengths/shapes (small to very large integers), filter lengths, wavelets, modes, axes, levels",
 "Tests check the helpers on a few lengths only and hardly ever against the shapes of real transform output with per-axis wavelets or modes; rounding at exact powers of two needs the full range of lengths.",
 ["pywt/_dwt.py", "pywt/_multilevel.py", "pywt/_swt.py", C+"common.c"],
 [("length formulas", C+"common.c: dwt_buffer_length, dwt_max_level, swt_max_level"), ("shape prediction", "pywt/_multilevel.py: wavedecn_shapes, wavedecn_size, dwtn_max_level")],
 observe=["pywt.dwt_coeff_len", "pywt.dwt_max_level", "pywt.dwtn_max_level", "pywt.wavedecn_shapes", "pywt.wavedecn_size", "pywt.swt_max_level"])
prop("P05", "Stationary transform: undecimated definition, shift equivariance, inverse",
 "For every wavelet, valid signal length, starting level, number of levels, axis and dtype, the stationary wavelet transform in 1, 2 and n dimensions equals circular convolution with the dilated decomposition filters at each level, so that a circular shift of the input shifts every coefficient array by the same amount. "
 "The inverse returns the original signal, for both the full and the trimmed coefficient layouts and from starting level 0, and with the norm option and an orthogonal wavelet the energy of the trimmed coefficients equals the energy of the signal; the norm option warns if and only if one of the wavelets in use is not orthogonal.",
 ["inputs", "configurations"], "all signals with length divisible by 2^level, wavelets (including filters longer than the signal), levels, start levels, axes, 1-D/2-D/n-D, layouts",
 "Tests use a small number of wavelets and power-of-two lengths, with all-axes default; filter-longer-than-signal wrap-around, start_level > 0, per-axis wavelets and inverse at odd multiples are thinly covered.",
 ["pywt/_swt.py", "pywt/_extensions/_swt.pyx", C+"wt.template.c", C+"convolution.template.c"],
 [("a-trous filter at level", C+"wt.template.c: swt_, swt_axis"), ("inverse by averaging shifted idwt", "pywt/_swt.py: iswt, iswt2, iswtn"), ("forward n-D", "pywt/_swt.py: swt2, swtn")],
 observe=["pywt.swt", "pywt.iswt", "pywt.swt2", "pywt.iswt2", "pywt.swtn", "pywt.iswtn"])
prop("P06", "Multiresolution components sum to the signal and are single-band projections",
 "For every wavelet, transform kind (decimated or stationary), mode, level, axis set and input shape that the transform accepts, the multiresolution analysis in 1, 2 and n dimensions returns components of the input's shape which add up to the input, and the inverse (their sum) does not alter the components it is given. "
 "Each component is what the inverse transform yields when every other coefficient band is zeroed, so analysing is linear and, for the stationary kind, shift equivariant.",
 ["inputs", "configurations"], "all signals, odd/even shapes, wavelets, modes, levels, axes, both transform kinds",
 "Tests check additivity for a few wavelets on power-of-two data; default level with a subset of axes and odd shapes are not covered, and inverse side effects not at all.",
 ["pywt/_mra.py"], [("component by component reconstruction", "pywt/_mra.py: mra, mra2, mran"), ("sum", "pywt/_mra.py: imra, imra2, imran")],
 observe=["pywt.mra", "pywt.imra", "pywt.mra2", "pywt.imra2", "pywt.mran", "pywt.imran"])
prop("P07", "Wavelet packet nodes equal the filter sequence named by their path",
 "In 1-D, 2-D and n-D wavelet packet trees, the data of the node at any path equals the result of applying the single-level transform band by band along that path to the root data, no matter how or in which order nodes are reached (attribute, index, path string or tuple, level listing, walk, leaf listing). "
 "Level listings contain every path exactly once in natural order, or sorted by increasing frequency in frequency order (per axis in 2-D), at every level from 0 to the maximum level, and reconstructing an unmodified tree returns the original data for every shape.",
 ["inputs", "configurations", "histories"], "all data shapes (odd included), wavelets, modes, axes, maximum levels, paths, traversal orders and decompose flags",
 "Tests use a ramp of length 8 with db1 and a few fixed paths; ordering beyond level 3, level 0, odd n-D shapes and order of access are not covered.",
 ["pywt/_wavelet_packets.py"], [("lazy decomposition", "pywt/_wavelet_packets.py: BaseNode.get_subnode, Node/Node2D/NodeND._decompose"), ("level ordering", "pywt/_wavelet_packets.py: get_level, get_graycode_order")],
 [("tree", "nodes created on demand, each holding its data and children", "pywt/_wavelet_packets.py: BaseNode")],
 ["pywt.WaveletPacket", "pywt.WaveletPacket2D", "pywt.WaveletPacketND"])
prop("P08", "Wavelet packet trees behave like a map of paths under any edit history",
 "Whatever sequence of reads, decompositions, node assignments, deletions, data replacements and (updating or non-updating) reconstructions is applied to a wavelet packet tree, every later read, leaf listing, existence test and reconstruction agrees with a simple model: a set of present nodes with data, in which a missing child means a zero band, and reconstruction is the inverse transform applied bottom-up. "
 "A non-updating reconstruction changes nothing; an updating one replaces the data of every inner node by its reconstruction; assigning a node never changes unrelated branches; a lookup creates only the nodes that are missing, while an explicit decomposition renews all children of its node.",
 ["histories"], "all finite sequences of tree operations on 1-D, 2-D and n-D trees",
 "Tests exercise two or three scripted sequences (delete one node, re-assign it); stale or aliased state needs longer histories.",
 ["pywt/_wavelet_packets.py"], [("node bookkeeping", "pywt/_wavelet_packets.py: __getitem__, __setitem__, __delitem__, _delete_node, _validate_node"), ("reconstruction", "pywt/_wavelet_packets.py: reconstruct, _reconstruct")],
 [("tree", "nodes created on demand, each holding its data and children", "pywt/_wavelet_packets.py: BaseNode")],
 ["pywt.WaveletPacket", "pywt.WaveletPacket2D", "pywt.WaveletPacketND"])
prop("P09", "Fully separable transform equals complete 1-D multilevel transforms per axis",
 "The fully separable n-D decomposition equals the multilevel 1-D transform applied completely along one axis after the other with the wavelet, mode and number of levels of that axis, and the inverse restores the data for every shape. "
 "The result object returns, for the approximation and for every named detail, exactly the block of the coefficient array that its slices describe (the blocks tile the array without overlap), and replacing a block is reflected in the array, in later reads and in the reconstruction, while a block of the wrong shape or name is refused.",
 ["inputs", "configurations", "histories"], "all shapes up to 4-D, axes subsets and orders, per-axis wavelets, modes and levels, sequences of reads and writes on the result object",
 "Tests use cubes with one wavelet and equal levels and do not mix per-axis settings with odd shapes.",
 ["pywt/_multilevel.py"], [("per-axis multilevel", "pywt/_multilevel.py: fswavedecn, fswaverecn"), ("result container", "pywt/_multilevel.py: FswavedecnResult")],
 observe=["pywt.fswavedecn", "pywt.fswaverecn", "pywt.FswavedecnResult"])
prop("P10", "Coefficient packing into one array or vector is lossless and positional",
 "Packing multilevel coefficients into a single array (and raveling them into a single vector) and unpacking them returns equal coefficients with the same structure, names, shapes and dtypes, for every decimated layout (1-D, 2-D, n-D), any axes, levels, odd sizes and shapes, and for ravelling also the stationary layouts. "
 "The returned slices and shapes describe exactly where each band lies: each band can be read or replaced through its slice, bands do not overlap, positions belonging to no band hold the padding value, and asking for no padding fails exactly when padding would be needed.",
 ["inputs", "configurations"], "all coefficient structures produced by the transforms (any wavelet, mode, level, shape, axes, dtype)",
 "Tests pack a handful of shapes; asymmetric shapes where bands of neighbouring levels do not align, non-default axes order and dtype preservation need generated structures.",
 ["pywt/_multilevel.py"], [("packing", "pywt/_multilevel.py: coeffs_to_array, array_to_coeffs, ravel_coeffs, unravel_coeffs, _determine_coeff_array_shape")],
 observe=["pywt.coeffs_to_array", "pywt.array_to_coeffs", "pywt.ravel_coeffs", "pywt.unravel_coeffs"])
prop("P11", "Built-in and custom discrete filter banks satisfy their defining equations",
 "Every built-in discrete wavelet provides four filters whose values are the published ones and which satisfy the equations its declared attributes imply: perfect reconstruction pairing between decomposition and reconstruction filters, orthonormality under even shifts and quadrature-mirror relation when declared orthogonal, declared number of vanishing moments, symmetry, and low-pass/high-pass gain (for biorthogonal families the vanishing moments are those of the analysis wavelet, the reverse biorthogonal ones mirror them, and the discrete Meyer table satisfies them to its published accuracy only). "
 "Families, names and attributes are mutually consistent (reverse biorthogonal = swapped and flipped biorthogonal, lookup is case-insensitive and listed names construct), and a wavelet made from a user filter bank reproduces those filters exactly (zero-padded to even length) and drives the transforms with them.",
 ["inputs", "configurations"], "all 106 built-in discrete wavelets and all admissible custom filter banks",
 "Tests check orthogonality of a few families to loose tolerance and do not pin the values; a wrong digit in one table row would pass.",
 ["pywt/_extensions/_pywt.pyx", C+"wavelets.c", C+"wavelets_coeffs.template.h", "pywt/_functions.py"],
 [("filter tables", C+"wavelets_coeffs.template.h"), ("construction and flipping of filters and attributes", C+"wavelets.c: discrete_wavelet"), ("Python wrapper", "pywt/_extensions/_pywt.pyx: Wavelet"), ("bank completion", "pywt/_functions.py: qmf, orthogonal_filter_bank")],
 observe=["pywt.Wavelet", "pywt.wavelist", "pywt.families", "pywt.qmf", "pywt.orthogonal_filter_bank"])
prop("P12", "Wavelet functions, their sampling grids and frequencies are mutually consistent",
 "Sampling a continuous wavelet returns its closed-form function on an even grid over its declared support for any resolution level or number of points, in every precision and for every admissible parameter, and sampling a discrete wavelet returns functions that satisfy its two-scale equations on a grid of the documented spacing and support. "
 "The integral helper is the running sum of the sampled wavelet, the central frequency is that of its dominant Fourier component, and scale-to-frequency and frequency-to-scale conversions are inverse to each other.",
 ["inputs", "configurations"], "all continuous wavelets and parameter values, all discrete wavelets, resolution levels, lengths, precisions, scales",
 "Tests compare a single resolution and default parameters of each family; parameters, dtype and grid length vary freely.",
 ["pywt/_functions.py", "pywt/_extensions/_pywt.pyx", C+"cwt.template.c", C+"wavelets.c"],
 [("cascade sampling", "pywt/_extensions/_pywt.pyx: Wavelet.wavefun"), ("closed forms", C+"cwt.template.c"), ("helpers", "pywt/_functions.py: integrate_wavelet, central_frequency, scale2frequency, frequency2scale")],
 observe=["pywt.ContinuousWavelet.wavefun", "pywt.Wavelet.wavefun", "pywt.integrate_wavelet", "pywt.central_frequency", "pywt.scale2frequency"])
prop("P13", "CWT equals its documented sampled-integral definition for both methods",
 "The continuous wavelet transform equals, for every scale independently, the correlation of the signal with the wavelet's sampled integral stretched to that scale, differenced, scaled by the square root of the scale and centred to the input's shape; it is linear in the data, row order follows the order of scales, and adding, removing or reordering scales does not change the row of another scale. "
 "Convolution- and FFT-based methods agree to rounding, transforming along an axis of an n-D array equals transforming each line, output precision follows the input, complex wavelets give complex output, and the frequencies returned are the scale's frequency divided by the sampling period.",
 ["inputs", "configurations"], "all signals, shapes, axes, scale lists (ints and non-integers), continuous wavelets and parameters, both methods, dtypes, sampling periods",
 "Tests compare against stored Matlab rows for a few scales; FFT buffer reuse across scales, rounding of centring and axes handling vary with each input.",
 ["pywt/_cwt.py", "pywt/_functions.py"], [("scale loop", "pywt/_cwt.py: cwt"), ("sampled integral", "pywt/_functions.py: integrate_wavelet")],
 observe=["pywt.cwt"])
prop("P14", "Thresholding applies its documented formula to every element",
 "Every thresholding mode applies its documented scalar formula to each element independently, for real, integer and complex data (complex values shrink in magnitude and keep their phase), for any array shape, with the substitute value placed exactly where documented, and including zeros, values equal to the threshold and signed values. "
 "Firm thresholding zeroes magnitudes up to the lower threshold, keeps magnitudes above the upper one, interpolates continuously in between and is odd; inputs are never modified and, with thresholds and substitutes given as Python numbers, output precision follows the input.",
 ["inputs", "configurations"], "all arrays (shape, dtype, special values), thresholds >= 0, substitutes, modes",
 "Tests use short fixed vectors; element position, ties, degenerate thresholds and complex data are sampled at a few points.",
 ["pywt/_thresholding.py"], [("formulas", "pywt/_thresholding.py: soft, nn_garrote, hard, greater, less, threshold, threshold_firm")],
 observe=["pywt.threshold", "pywt.threshold_firm"])
prop("P15", "Explicit padding follows the same extension rules as the transforms",
 "Padding an array of any dimension by any non-negative widths (including zero on one side and widths several times the length) extends it by the documented rule of each extension mode, axis after axis, with the original data unchanged in the centre. "
 "Transforming a signal padded by enough samples and keeping the positions that correspond to the original gives the same coefficients as transforming the original with that mode.",
 ["inputs", "configurations"], "all arrays, pad widths (scalar, per side, per axis), all modes",
 "Tests use one 1-D and one 2-D array with symmetric non-zero widths.",
 ["pywt/_dwt.py"], [("padding", "pywt/_dwt.py: pad")], observe=["pywt.pad"])
prop("P16", "Partial decomposition and reconstruction agree with the full transforms",
 "Computing only one band at a given level equals the corresponding array of the multilevel transform for every wavelet, mode, level, length and dtype, or is refused where the full transform refuses. "
 "Direct reconstruction from one band at any level equals the linear synthesis (upsample and convolve with the reconstruction filters, level by level), its central part has the requested length, and the reconstructions of the bands of a signal add up to the signal away from boundary truncation.",
 ["inputs", "configurations"], "all signals/coefficient vectors, wavelets, modes, levels, take lengths, dtypes",
 "Tests check level 1 and 2 on short ramps with db1/db2.",
 ["pywt/_dwt.py", "pywt/_extensions/_dwt.pyx", C+"wt.template.c"], [("downcoef/upcoef loops", "pywt/_extensions/_dwt.pyx: downcoef, upcoef"), ("full upsampling convolution", C+"convolution.template.c: upsampling_convolution_full")],
 observe=["pywt.downcoef", "pywt.upcoef"])
prop("P17", "Results depend on values only: any dtype, layout, byte order or container",
 "Every transform gives the same values whether its input is C- or Fortran-ordered, strided, reversed, transposed, read-only, byte-swapped or a nested list, and integer, boolean, half and extended precision inputs are treated as the documented floating type. "
 "Single-precision input yields single-precision output that agrees with the double-precision result to single-precision accuracy, and complex input yields the transform of the real part plus i times that of the imaginary part.",
 ["inputs", "configurations"], "all public transforms x memory layouts x dtypes x byte orders x containers",
 "Tests use contiguous native arrays almost everywhere; the C code receives raw pointers and strides, so each layout is a separate path.",
 ["pywt/_dwt.py", "pywt/_multidim.py", "pywt/_swt.py", "pywt/_extensions/_dwt.pyx", "pywt/_extensions/_swt.pyx", "pywt/_extensions/_pywt.pyx", C+"wt.template.c"],
 [("dtype promotion", "pywt/_extensions/_pywt.pyx: _check_dtype"), ("strided access", C+"wt.template.c: downcoef_axis, idwt_axis")], observe=["all public transforms"])
prop("P18", "Calls are pure: inputs untouched, no hidden state, safe to run concurrently",
 "No public transform, inverse, packing, thresholding or padding call modifies the arrays, lists, dictionaries or wavelet objects it is given, and repeating a call gives identical results no matter which other calls were made in between. "
 "Calls running in parallel threads, even sharing inputs and wavelet objects, give the same results as running them one after another.",
 ["histories", "schedules", "inputs"], "all public functions and inputs, any interleaving of calls in one or more threads",
 "Tests call each function once in one thread on fresh inputs; caches, in-place updates and shared buffers show only over histories.",
 ["pywt/_swt.py", "pywt/_mra.py", "pywt/_cwt.py", "pywt/_functions.py", "pywt/_multilevel.py", "pywt/_wavelet_packets.py", "pywt/_extensions/_dwt.pyx"],
 [("copies before in-place work", "pywt/_swt.py: iswt, iswt2, iswtn"), ("GIL released around C calls", "pywt/_extensions/_dwt.pyx, _swt.pyx")],
 [("wavelet filters", "shared C struct behind each wavelet object", "pywt/_extensions/_pywt.pyx: Wavelet.w")], ["all public functions"])
prop("P19", "Invalid requests are refused with a clear error, never answered",
 "A request outside a documented domain - unknown wavelet or mode name, axis out of range (or repeated, for the multilevel, stationary and packet transforms), wrong number of axes, wavelets or modes, negative or too large level, signal length not divisible for the stationary transform, mismatching coefficient shapes or lengths too short for the wavelet, malformed coefficient structures, empty data, non-numeric data, wrong part, path, threshold, scale or filter bank - raises an ordinary exception promptly. "
 "It never crashes or hangs the process, never returns a result, and afterwards the library works as before.",
 ["inputs", "fault_sequences"], "all combinations of one invalid argument with otherwise valid arguments, over all public functions",
 "Tests check a list of specific invalid calls; a dropped or narrowed check is only seen by the exact call.",
 ["pywt/_utils.py", "pywt/_dwt.py", "pywt/_multidim.py", "pywt/_multilevel.py", "pywt/_swt.py", "pywt/_extensions/_pywt.pyx", "pywt/_extensions/_dwt.pyx", "pywt/_extensions/_swt.pyx", "pywt/_wavelet_packets.py"],
 [("argument checks", "pywt/_utils.py: _wavelets_per_axis, _modes_per_axis; checks at the head of each public function")], observe=["all public functions"])
prop("P20", "Native code never touches memory outside its buffers",
 "For every input accepted or rejected by the public functions - any shape (including length one and shorter than the filter), layout, dtype, wavelet, mode, level and axis - the compiled code performs no out-of-bounds or use-after-free access, no undefined arithmetic, and never returns uninitialised memory as a result.",
 ["inputs", "configurations", "histories"], "all public calls reaching compiled code, over shapes, strides, dtypes, wavelets, modes, levels, axes and creation/destruction histories of wavelet objects",
 "A read one element past a buffer usually changes nothing visible, so value-comparing tests pass.",
 [C+"convolution.template.c", C+"wt.template.c", C+"wavelets.c", C+"cwt.template.c", "pywt/_extensions/_dwt.pyx", "pywt/_extensions/_swt.pyx", "pywt/_extensions/_pywt.pyx"],
 [("buffer length computation", C+"common.c"), ("bounds in convolution loops", C+"convolution.template.c"), ("wavelet object lifetime", C+"wavelets.c, pywt/_extensions/_pywt.pyx")], observe=["sanitizer reports under generated API calls"])
prop("P21", "Transforms are linear; orthogonal ones preserve energy and inner products",
 "All forward and inverse transforms (decimated, stationary, packet, fully separable, continuous, multiresolution) are linear: the transform of a weighted sum is the weighted sum of the transforms for every mode, so zero maps to zero and scaling by powers of two is exact. "
 "With an orthogonal wavelet and periodization on even lengths the decimated transforms preserve energy and inner products and the inverse is the transpose of the forward transform, and circular shifts by the decimation factor shift the coefficients.",
 ["inputs", "configurations"], "all pairs of signals, weights, transforms, wavelets, modes, levels, shapes",
 "Tests never compare the transform of related inputs; non-linear slips (clipping, absolute values, thresholds, missing terms for special values) are only visible in relations.",
 ["pywt/_dwt.py", "pywt/_multilevel.py", "pywt/_multidim.py", "pywt/_swt.py", "pywt/_cwt.py", "pywt/_mra.py", C+"convolution.template.c"],
 [("convolution kernels", C+"convolution.template.c"), ("multilevel recursion", "pywt/_multilevel.py")], observe=["all public transforms"])
prop("P22", "Copied and pickled objects are equivalent to, and independent of, the original",
 "Pickling (all protocols) or deep-copying a discrete or continuous wavelet (built-in, parametrised, user-modified or custom), a wavelet packet tree of any kind, a node of it or an extension mode, or copying a wavelet, gives an object with the same attributes, data, structure and behaviour in every transform. "
 "The copy is independent: editing one does not change the other.",
 ["inputs", "histories"], "all wavelet objects incl. modified attributes, all packet trees incl. partially decomposed or edited ones, all pickle protocols",
 "Tests pickle one wavelet of each kind and one default tree and compare a few attributes.",
 ["pywt/_extensions/_pywt.pyx", "pywt/_wavelet_packets.py"], [("pickle support", "pywt/_extensions/_pywt.pyx: __reduce__; pywt/_wavelet_packets.py: __reduce__")], observe=["pickle.loads(pickle.dumps(obj))", "copy.copy", "copy.deepcopy"])
prop("P23", "Demo signals and data sets are the published ones, of exactly n samples",
 "For every listed demo signal (named in any letter case) and every length n >= 1 the result is an array of exactly n finite samples equal to the published defining formula of that signal, the two signals of fixed length refuse a length and the others require one, and unknown names and lengths that are not positive integers are refused. "
 "The data set readers return the documented shapes and values on every call, no matter what the caller did to arrays or lists returned before.",
 ["inputs", "histories"], "all 20 signal names in any spelling, all lengths n >= 1, all sequences of reads and in-place edits of the five data sets",
 "Tests compare each signal with stored samples at one power-of-two length, and read each data set once.",
 ["pywt/data/_wavelab_signals.py", "pywt/data/_readers.py"],
 [("signal formulas", "pywt/data/_wavelab_signals.py: demo_signal"), ("loading and caching", "pywt/data/_readers.py")],
 observe=["pywt.data.demo_signal", "pywt.data.aero", "pywt.data.ascent", "pywt.data.camera", "pywt.data.ecg", "pywt.data.nino"])
prop("P24", "Native memory is returned, and running out of it is an ordinary error",
 "No public call, successful or refused, leaves native memory behind once its results and objects are dropped: repeating a call any number of times does not make the process grow. "
 "When an allocation inside the native code fails, whichever one it is, the call raises an ordinary exception (or still returns the correct result), leaks nothing, does not crash, and the next call works as if nothing had happened.",
 ["fault_sequences", "inputs", "histories"], "all public calls reaching native code, every position at which an allocation can fail, any number of repetitions",
 "Tests never exhaust memory and never look at the memory held, so the error branches of the native code are not executed at all.",
 [C+"wt.template.c", C+"wavelets.c", "pywt/_extensions/_dwt.pyx", "pywt/_extensions/_swt.pyx", "pywt/_extensions/_pywt.pyx"],
 [("temporary buffers and their clean-up", C+"wt.template.c: downcoef_axis, idwt_axis, swt_"), ("filter storage", C+"wavelets.c: blank_discrete_wavelet, free_discrete_wavelet"), ("return codes turned into exceptions", "pywt/_extensions/_dwt.pyx, _swt.pyx")],
 observe=["exceptions under injected allocation failures", "native blocks and bytes held after calls"])
prop("P25", "Equivalent ways of writing a request give the same answer",
 "Leaving out an optional argument is the same as passing its documented default, passing arguments by position or by keyword is the same, and so is naming a wavelet in any letter case or passing the wavelet object, a mode by name or as enumeration member, one value or one equal value per axis, axes counted from the front or from the end, and integers of Python or NumPy type. "
 "The 1-D and 2-D entry points (transforms, inverses, stationary, multiresolution, packet trees) equal the n-D ones on the same axes, a single-level transform equals a multilevel one of one level, the deprecated function and mode names equal the current ones, and the helpers (lengths, levels, frequencies, wavelet tables) answer the same for every documented form of their arguments.",
 ["inputs", "configurations"], "all public functions, all subsets of omitted arguments, all accepted spellings of each argument",
 "Each test calls a function in one way; that two ways of calling agree, for settings other than the one tested, is not compared.",
 ["pywt/_dwt.py", "pywt/_multidim.py", "pywt/_multilevel.py", "pywt/_swt.py", "pywt/_mra.py", "pywt/_cwt.py", "pywt/_utils.py", "pywt/_functions.py", "pywt/_wavelet_packets.py", "pywt/_extensions/_pywt.pyx"],
 [("argument normalisation", "pywt/_utils.py: _as_wavelet, _wavelets_per_axis, _modes_per_axis; pywt/_extensions/_pywt.pyx: Modes.from_object, Wavelet"),
  ("signatures and delegation", "pywt/_dwt.py, _multidim.py, _multilevel.py, _swt.py, _mra.py, _wavelet_packets.py")],
 observe=["all public functions"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
