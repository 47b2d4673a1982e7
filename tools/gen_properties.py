#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os
V = "vector/src/vector_types/"
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

p("C01", "Element-wise operations act on each element alone, wherever it is stored",
  "Every element-wise operation (scale, offset, add, sub, mul, div of two vectors and their wrap-around forms, abs, sqrt, square, root, pow, ln, exp, log, expf, trigonometric functions, wrap, conjugate, multiply by complex exponential) turns the element at each valid index into the mathematical result for that element and its partner, for real and for complex vectors. "
  "The result at an index does not depend on the vector's length, on where its storage starts in memory, or on how much spare storage follows, and elements of the storage behind the valid length are left as they were.",
  ["inputs", "configurations"], "all vector lengths including 0 and 1, all storage start alignments, all amounts of spare storage, both float widths, all element values",
  "The tests use a few lengths with freshly allocated vectors; the split into scalar edge and register centre depends on address and length, and only particular combinations reach each edge.",
  [V+"general/elementary.rs", V+"general/trigonometry_and_powers.rs", V+"real/real_ops.rs", V+"complex/complex_ops.rs", V+"support_core.rs", V+"support_std.rs", V+"mod.rs", "vector/src/simd_extensions/"],
  [("partition of a slice into scalar edges and register centre", "vector/src/simd_extensions/mod.rs, simd_partition.rs"),
   ("scalar and register loops of unary and binary operations", V+"mod.rs, elementary.rs"),
   ("register lane arithmetic", "vector/src/simd_extensions/fallback.rs, sse.rs, avx.rs")])

p("C02", "Multi-core settings never change a result",
  "The result of an operation on a vector (values, length, deltas, error) is the same for every multi-core setting, that is for every core limit and every size threshold at which the work is divided; a division of the work covers every element exactly once, in order, never splitting a complex point, and hands each part the index range it really has. "
  "Only the rounding of sums over the whole vector may differ.",
  ["configurations", "inputs"], "all core limits, all thresholds, all vector lengths around the thresholds and all operations that divide work",
  "The tests run with default thresholds, which hardly ever divide the work at the tested sizes, and compare no two settings.",
  ["vector/src/multicore_support/threading.rs", "vector/src/multicore_support/mod.rs", V+"mod.rs", V+"general/mapping.rs", V+"general/statistics.rs", V+"general/dot_products.rs", V+"general/data_reorganization.rs"],
  [("number and size of the chunks", "vector/src/multicore_support/threading.rs: calibrate, partition, partition_mut"),
   ("pairing of mirrored chunks for symmetric functions", "vector/src/multicore_support/threading.rs: execute_sym_pairs_with_range"),
   ("chunk index ranges handed to the operation", "vector/src/multicore_support/threading.rs: execute_with_range, from_src_to_dest, get_a_fold_b, map_on_array_chunks")])

p("C03", "Operations between vectors check their operands before touching them",
  "An element-wise operation, dot product, convolution or correlation between two vectors whose operands do not fit (different length, number space or domain, for element-wise operations a different sample spacing, or an argument length the operation forbids) returns the error naming that reason and leaves every operand's data, length and sample spacing unchanged. "
  "Operands that fit are never rejected, and no operand that does not fit causes a panic.",
  ["inputs"], "all pairs of operands: lengths, number spaces, domains, deltas, spare storage, empty operands",
  "The tests check a handful of mismatches and never look at the operands after the error.",
  [V+"general/elementary.rs", V+"general/dot_products.rs", V+"checks_and_results.rs", V+"general/data_reorganization.rs", V+"complex/complex_to_real.rs", V+"time_freq/convolution.rs", V+"time_freq/correlation.rs"],
  [("operand checks", V+"checks_and_results.rs"), ("check order in binary operations", V+"general/elementary.rs, dot_products.rs")])

p("C04", "A vector's valid length stays consistent with its storage",
  "After construction from any storage and after any sequence of successful or failed operations, the valid length is at most the storage size, the number of points is the valid length (halved for complex data), a complex vector's valid length is even, and every accessor shows exactly the valid elements. "
  "Resizing keeps the elements common to the old and new length, refuses an odd length for complex data and a length that the storage cannot reach, and changes nothing when it refuses; constructing complex data from an odd number of floats gives an empty vector.",
  ["inputs", "histories"], "all storage kinds (growable, fixed, borrowed), all initial lengths, all sequences of resizes and constructions",
  "The tests resize a couple of growable vectors; refusals, borrowed storage and odd constructions are not looked at.",
  [V+"vec_impl_and_indexers.rs", V+"to_from_vec_conversions.rs", V+"support_core.rs", V+"support_std.rs", "vector/src/inline_vector/"],
  [("resize and resize with a buffer", V+"vec_impl_and_indexers.rs"), ("constructors per storage kind", V+"to_from_vec_conversions.rs, support_core.rs, support_std.rs"), ("indexers", V+"vec_impl_and_indexers.rs")],
  state=[("valid length", "number of floats of the storage that belong to the vector", V+"mod.rs")])

p("C05", "Swapping halves is the fft shift rotation, and its inverse undoes it",
  "Swapping the halves of a vector of n points moves point i to index (i + floor(n/2)) mod n for the forward direction (fft_shift, swap_halves) and to index (i + ceil(n/2)) mod n for the inverse direction (ifft_shift), keeping real and imaginary part of a complex point together. "
  "Applying one direction and then the other restores every vector, and the matrix forms do the same to every row.",
  ["inputs"], "all lengths (odd, even, 0, 1), real and complex, all spare storage",
  "The tests sample an odd and an even length.",
  [V+"support_core.rs", V+"mod.rs", V+"general/data_reorganization.rs", V+"time_freq/freq.rs", V+"time_freq/mod.rs", "matrix/src/general/mod.rs"],
  [("rotation of the array halves", V+"mod.rs: swap_array_halves"), ("rotation by cycles for odd lengths", V+"mod.rs"), ("fft_shift and ifft_shift", V+"time_freq/freq.rs")])

p("C06", "Reversing, splitting and merging permute points without loss",
  "Reversing maps point i to point n-1-i, and reversing twice restores the vector. "
  "Splitting a vector into k vectors puts point i at index i div k of vector i mod k, merging k equally long vectors is the inverse of that, and both refuse target counts or lengths that do not divide evenly; real and imaginary part of a complex point always travel together.",
  ["inputs"], "all lengths, all numbers of targets, real and complex, all spare storage and previous target contents",
  "The tests sample one real and one complex vector with two to four targets.",
  [V+"general/data_reorganization.rs"],
  [("reverse", V+"general/data_reorganization.rs: reverse"), ("split_into", V+"general/data_reorganization.rs: split_into"), ("merge", V+"general/data_reorganization.rs: merge")])

p("C07", "Zero padding adds only zeros and keeps every original point",
  "Padding a vector of n points to p > n points gives exactly p points: the original points in their original order at the end-padding, surround (half of the missing points, rounded up, in front) or centre position (the second half, ceil(n/2) points first, moved to the end), and zero at every other point, whatever the storage held there before. "
  "The in-place and the buffered form give the same result for the same arguments; p <= n is refused with an error and no change.",
  ["inputs", "histories"], "all lengths and target lengths, all padding options, real and complex, all stale contents of storage and buffer",
  "The tests pad a few vectors, all with fresh zeroed storage; stale bytes and parity combinations are not reached.",
  [V+"general/data_reorganization.rs"],
  [("zero_pad and zero_pad_b", V+"general/data_reorganization.rs"), ("conversion of the padding option", V+"general/data_reorganization.rs"), ("zeroing of ranges", V+"time_freq/mod.rs, multicore_support")])

p("C08", "Zero interleaving puts every point at its multiple and zero elsewhere",
  "Interleaving zeros by factor k turns n points into n*k points, with original point i at index i*k and zero at every other index, whatever the storage or buffer held there before; the in-place and the buffered form give the same result. "
  "Decimating the result by k from 0 restores the original vector.",
  ["inputs", "histories"], "all lengths including 0, all factors >= 1, real and complex, all stale contents",
  "The tests interleave one real and one complex vector.",
  [V+"general/data_reorganization.rs", V+"support_core.rs", V+"time_freq/interpolation.rs"],
  [("zero_interleave, zero_interleave_b", V+"general/data_reorganization.rs"), ("decimatei", V+"time_freq/interpolation.rs")])

p("C09", "Differences and cumulative sums are each other's inverse",
  "The difference of n points is the n-1 points x[i+1]-x[i] (with start value kept: the n points x[0], x[1]-x[0], ...), the cumulative sum is the n points x[0]+...+x[i], per component for complex data; on exactly representable data cumulative sum undoes difference with start. "
  "An empty or one-point vector gives the empty result or itself and never fails.",
  ["inputs"], "all lengths including 0 and 1, real and complex, all spare storage",
  "The tests sample random vectors of a few lengths.",
  [V+"general/diff_sum.rs"], [("diff, diff_with_start, cum_sum", V+"general/diff_sum.rs")])

p("C10", "Decimation keeps exactly every k-th point",
  "Decimating n points by factor k with delay d keeps exactly the points d, d+k, d+2k, ... below n in that order, for real and complex data, and sets the length to their count.",
  ["inputs"], "all lengths, factors >= 1, delays, real and complex",
  "The tests decimate one real and one complex vector.",
  [V+"time_freq/interpolation.rs"], [("decimatei", V+"time_freq/interpolation.rs")])

p("C11", "Every convolution path computes the same circular convolution",
  "Convolving a vector x of n points with an impulse response h of m <= n points gives out[i] = sum over k of h[k] * x[(i + ceil(m/2) - 1 - k) mod n] up to rounding, whichever of the internal paths (time domain scalar, register, overlap and add, frequency multiplication) the sizes select. "
  "Convolving with a sampled function gives the circular convolution with that function sampled around the centre, and a matrix convolution equals the vector convolutions of its rows.",
  ["inputs"], "all lengths of vector and impulse response including 1 and equal lengths, real and complex, all storage alignments",
  "The tests use a few sizes; the path chosen depends on the sizes and the edges of each path are special cases.",
  [V+"time_freq/convolution.rs", V+"time_freq/mod.rs", "matrix/src/time_freq.rs"],
  [("path selection", V+"time_freq/convolution.rs: convolve_signal"), ("scalar and register convolution", V+"time_freq/mod.rs, convolution.rs"), ("overlap and add/discard", V+"time_freq/convolution.rs")])

p("C12", "Window functions and frequency responses hit every point at its own position",
  "Applying a window multiplies point i of n by the window function evaluated at (i, n), and multiplying with a frequency response multiplies every frequency bin by the function at that bin's position on the centred axis from -1 to 1 scaled by the ratio (of at least two bins); declaring a function symmetric (true or false, when it is symmetric) makes no difference. "
  "Unapplying a window without zeros restores the vector up to rounding, and applying a window to an empty or one-point vector does not fail.",
  ["inputs", "configurations"], "all lengths including 0 and 1, even and odd, symmetric and asymmetric functions, all multi-core settings",
  "The tests check a few even lengths with default threading.",
  [V+"support_core.rs", V+"mod.rs", V+"time_freq/mod.rs", V+"time_freq/time.rs", "vector/src/window_functions.rs", "vector/src/conv_types.rs", V+"time_freq/convolution.rs"],
  [("multiply_window_priv", V+"mod.rs"), ("multiply_function_priv", V+"time_freq/mod.rs"), ("execute_sym_pairs_with_range", "vector/src/multicore_support/threading.rs"), ("window definitions", "vector/src/window_functions.rs")])

p("C13", "Statistics describe exactly the valid elements",
  "The statistics of a non-empty vector report its number of points, sum, average, root mean square, and the extreme values with an index at which each extreme is found (for complex data by magnitude); split statistics over k parts describe part j as the statistics of points j, j+k, j+2k, .... "
  "Sums, sums of squares and dot products equal the plain sums over the valid points, whatever lies behind the valid length; the precise variants agree with them.",
  ["inputs", "configurations"], "all lengths, positions of the extremes, numbers of parts, alignments, spare storage and multi-core settings",
  "The tests sample few vectors with extremes in the interior and without spare storage.",
  [V+"general/statistics.rs", V+"general/precise_stats.rs", V+"general/dot_products.rs"],
  [("accumulation and merge of partial statistics", V+"general/statistics.rs, precise_stats.rs"), ("sums over registers and edges", V+"general/statistics.rs"), ("dot products", V+"general/dot_products.rs")])

p("C14", "Complex data and its components convert into each other without loss",
  "Reading the real, imaginary, magnitude or phase part of a complex vector (as conversion, buffered conversion or getter into another vector) yields that part of every point in order; writing a vector pair back as real and imaginary or magnitude and phase sets every point from its two parts. "
  "Real and imaginary parts written back restore the original vector exactly, converting a real vector to complex gives zero imaginary parts, and the in-place, buffered and getter forms of the same conversion agree.",
  ["inputs"], "all lengths, alignments, spare storage, previous target contents, real and complex values",
  "The tests sample single vectors without spare storage and with fresh targets.",
  [V+"complex/complex_to_real.rs", V+"real/real_to_complex.rs", V+"mod.rs", V+"support_core.rs"],
  [("getters and setters", V+"complex/complex_to_real.rs"), ("complex to real loops with and without registers", V+"mod.rs"), ("to_complex", V+"real/real_to_complex.rs")])

p("C15", "A buffered operation's result does not depend on the buffer's history",
  "The result of an operation that takes a buffer is the same for a new buffer and for a buffer of any size that earlier operations filled with other data, and for every kind of buffer that is large enough. "
  "Stale buffer contents never reach the valid elements of a result.",
  ["histories"], "all sequences of buffered operations sharing one buffer, all previous buffer contents and sizes",
  "The tests create a new zeroed buffer for nearly every operation.",
  [V+"buffer.rs", V+"support_std.rs", V+"support_core.rs", V+"general/data_reorganization.rs", V+"time_freq/"],
  [("SingleBuffer and fixed length buffer", V+"support_std.rs, support_core.rs"), ("trade of buffer and storage", V+"support_std.rs, support_core.rs")])

p("C16", "Type conversions of vectors keep data and metadata",
  "Turning a storage into a vector and back gives the same storage and its valid length; converting between typed, generic and slice vectors, interleaving and de-interleaving complex points and copying metadata keep every valid element, the sample spacing and the declared domain and number space. "
  "Rededicating a vector to a kind it is not declared as yields an empty vector instead of reinterpreted data, except where the operation is documented as forced.",
  ["inputs"], "all storages, lengths including odd and empty, number spaces and domains, all conversions between the vector kinds",
  "The tests convert a few vectors and do not look at metadata, odd lengths or empty vectors.",
  [V+"to_from_vec_conversions.rs", V+"support_std.rs", V+"support_core.rs", V+"rededicate_and_relations.rs", "vector/src/meta.rs"],
  [("storage conversions", V+"to_from_vec_conversions.rs, support_std.rs, support_core.rs"), ("rededication", V+"rededicate_and_relations.rs")])

p("C17", "Matrix operations are the vector operation on every row",
  "Every matrix operation that mirrors a vector operation gives, row for row, exactly the result of that vector operation on that row, for matrices of any number of rows and of every storage form, and reports an error if the vector operation would. "
  "Row and column lengths always describe the rows, and conversions to and from matrices keep every row in order.",
  ["inputs"], "all row counts and row lengths, real and complex, all matrix storage forms",
  "The tests call a few matrix operations on two-row matrices.",
  ["matrix/src/general/", "matrix/src/real.rs", "matrix/src/complex.rs", "matrix/src/time_freq.rs", "matrix/src/to_from_mat_conversions.rs", "matrix/src/lib.rs", "matrix/src/mat_impl.rs"],
  [("row-wise transformation", "matrix/src/lib.rs: TransformContent"), ("conversions", "matrix/src/to_from_mat_conversions.rs")])

p("C18", "Symmetric spectra carry exactly the information of the half spectrum",
  "Mirroring a half spectrum of n complex points gives 2n-1 points whose first n are the given ones and in which point 2n-1-i is the complex conjugate of point i for 1 <= i < n. "
  "The symmetric forms of the Fourier transform return the non-redundant half of the plain transform of an odd-length vector, their inverses restore the vector up to rounding, and an even length or a first bin that is not real is refused.",
  ["inputs"], "all half-spectrum lengths, all values, all buffers",
  "The tests mirror one vector and transform a few.",
  [V+"time_freq/freq.rs", V+"time_freq/time_to_freq.rs", V+"time_freq/freq_to_time.rs"],
  [("mirror", V+"time_freq/freq.rs"), ("plain_sfft, sfft, windowed_sfft", V+"time_freq/time_to_freq.rs"), ("plain_sifft, sifft, windowed_sifft", V+"time_freq/freq_to_time.rs")])

p("C19", "Mapping and folding visit each valid point exactly once with its own index",
  "Mapping a function over a vector replaces point i by f(point i, i) for every valid point and nothing else, and aggregating folds the mapped values of exactly the valid points, for real and complex data and for any multi-core setting. "
  "An empty vector is left alone by mapping and makes aggregation report an error.",
  ["inputs", "configurations"], "all lengths, spare storage, multi-core settings, real and complex",
  "The tests map one vector with default threading.",
  [V+"general/mapping.rs", "vector/src/multicore_support/"], [("map_inplace, map_aggregate", V+"general/mapping.rs"), ("chunk ranges", "vector/src/multicore_support/threading.rs")])

p("C20", "Runtime-typed misuse is reported and never yields data",
  "On a vector whose number space and domain are known only at run time, an operation that needs another number space or domain either returns the error naming the missing requirement and leaves the vector unchanged, or, if it cannot return an error, marks the vector as erroneous (no valid elements, undefined sample spacing). "
  "A used operation updates number space, domain and length consistently, so that an inverse pair of transforms restores them.",
  ["inputs", "histories"], "all combinations of run-time number space and domain, all operations with such requirements, all sequences of transforms",
  "The tests use statically typed vectors nearly everywhere.",
  [V+"checks_and_results.rs", V+"mod.rs", V+"complex/", V+"real/", V+"time_freq/", "vector/src/meta.rs"],
  [("checks for number space and domain", V+"checks_and_results.rs"), ("mark_vector_as_invalid", V+"mod.rs"), ("state changes of run-time metadata", "vector/src/meta.rs")])

p("C21", "The C interface gives the vector results and tells errors apart",
  "Every function of the C interface has the effect of the vector operation it is named after on the vector it is given, hands vectors on without loss, and returns 0 exactly when that operation succeeds. "
  "Every error reason has its own result code, and results of different kinds (single value, complex value, statistics) carry the values in the documented order.",
  ["inputs"], "all vectors and arguments, both float widths, all operations of the interface, all error reasons",
  "No test calls the C interface at all.",
  ["interop/src/facade32.rs", "interop/src/facade64.rs", "interop/src/lib.rs"],
  [("result code translation", "interop/src/lib.rs: translate_error"), ("calls into the vector library", "interop/src/lib.rs: VecBuf, facade32.rs, facade64.rs")])

p("C22", "Inline vectors behave like growable vectors",
  "A vector held inline, whatever its size, shows the same length and elements as an ordinary growable vector after the same sequence of pushes, pops, removals, resizes, splits and extensions. "
  "Growing keeps all elements and fills the new ones as an ordinary resize does; a fixed-capacity vector refuses what exceeds its capacity without losing elements.",
  ["histories"], "all sequences of operations, sizes below, at and above the inline capacity",
  "The tests hardly use the inline vectors directly.",
  ["vector/src/inline_vector/"],
  [("representation switch between inline and heap", "vector/src/inline_vector/dynamic.rs"), ("fixed-capacity representation", "vector/src/inline_vector/fixed_size.rs")])

p("C23", "Resampling with integer factors keeps positions, ends and original points",
  "Interpolating by an integer factor k gives exactly n*k points and a sample spacing k times smaller, whichever internal path the length, the function or the factor selects, and interpolating by 1 with no shift keeps the signal up to rounding. "
  "Linear and Hermite interpolation of real data return the requested number of points and pass exactly through the original points where positions coincide.",
  ["inputs"], "all lengths, factors, delays and functions; real and complex",
  "The tests interpolate a few signals and compare with recorded numbers.",
  [V+"time_freq/interpolation.rs", V+"time_freq/real_interpolation.rs"],
  [("interpolatei, interpolatef, interpolate, interpft", V+"time_freq/interpolation.rs"), ("interpolate_lin, interpolate_hermite", V+"time_freq/real_interpolation.rs")])

p("C24", "Fourier transforms are numerically accurate",
  "The Fourier transform of a vector equals the discrete Fourier sum up to a rounding error proportional to the logarithm of the length.",
  ["inputs"], "all lengths and values", "Tests sample a few lengths.",
  [V+"time_freq/mod.rs", V+"time_freq/time_to_freq.rs"], [("fft", V+"time_freq/mod.rs: fft")])

p("C25", "Concurrent execution on worker threads is free of data races",
  "When the work on a vector is divided over several threads, no two threads access the same element without synchronisation and all threads have finished when the operation returns.",
  ["schedules"], "all interleavings of the worker threads", "Tests run a few schedules.",
  ["vector/src/multicore_support/threading.rs"], [("scoped threads", "vector/src/multicore_support/threading.rs")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
