#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth for the property texts is this file)."""
import json, os
P = []
def full(f):
    return f if f.startswith("extra/") else "src/neo/" + f
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": [full(f) for f in files],
         "mechanism": [{"name": n, "where": full(w)} for n, w in mech],
         "observe_at": observe or [], "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": full(w)} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("C01", "Every complex FFT plan computes the discrete Fourier transform",
  "For every complex FFT plan the library offers (the default one, and each radix-2/3/4/5/8, Cooley-Tukey, Stockham and kernel variant) and every order it supports from 1 up (0 for the default one), the forward direction replaces x by sum_n x[n] exp(-2 pi i k n / N) and the backward direction by sum_n x[n] exp(+2 pi i k n / N), unscaled, within rounding error (some units in the last place of the result's norm, growing with log N; with N for the in-place radix-3 and radix-5 plans). This is true for single and double precision, for the standard and the library's own complex number type, for contiguous or strided vectors, for SIMD batches of complex numbers (lane by lane), and for the out-of-place calls, which leave their input unchanged.",
  ["inputs", "configurations"], "all input vectors, all plans, all orders (sizes 2..2^27 for the default plan, radix^order for the others), both directions, element types and layouts",
  "Existing tests check a few fixed vectors and a forward/backward round trip, which a transform that is not a DFT at all (wrong sign, permuted bins) also passes; none of them runs in the offline build, which lacks mdspan.",
  ["fft/fft.hpp", "fft/reference/c2c_dit2_plan.hpp", "fft/reference/kernel/c2c_dit2.hpp", "fft/reference/c2c_dit4_plan.hpp", "fft/reference/c2c_dif3_plan.hpp", "fft/reference/c2c_dif5_plan.hpp", "fft/reference/c2c_stockham_dif2_plan.hpp", "fft/reference/c2c_stockham_dif3_plan.hpp", "fft/reference/c2c_stockham_dif4_plan.hpp", "fft/reference/c2c_stockham_dif5_plan.hpp", "fft/reference/c2c_stockham_dif8_plan.hpp", "fft/reference/c2c_stockham_dit4_plan.hpp"],
  [("reorder + butterfly stages", "fft/reference/c2c_dit2_plan.hpp"), ("twiddle tables per direction", "fft/twiddle.hpp")], ["fft(plan, x)", "ifft(plan, x)", "fft(plan, in, out)", "ifft(plan, in, out)"])

p("C02", "FFT plans invert, can be reused, and report or refuse their size",
  "For every complex FFT plan, transforming a vector with one direction and then the other gives the vector times the plan's size, and the result of a transform depends only on its input and direction, never on which transforms the same plan, or a copy of it, ran before. A plan made for an order reports that order and the size radix^order, no more than its maximum size for orders up to its maximum order, and the default plan refuses larger orders with an exception.",
  ["histories", "inputs"], "all sequences of forward/backward/in-place/out-of-place transforms with arbitrary inputs on one plan object and its copies; all orders",
  "Tests run each plan once or twice on one input; state left in a plan's work buffers or tables shows only in longer mixed histories.",
  ["fft/fft.hpp", "fft/order.hpp", "fft/reference/c2c_dit2_plan.hpp", "fft/reference/c2c_dit4_plan.hpp", "fft/reference/c2c_stockham_dif2_plan.hpp", "fft/fallback/fallback_dft_plan.hpp", "fft/fallback/fallback_rfft_plan.hpp", "fft/fallback/fallback_split_fft_plan.hpp"],
  [("order check", "fft/reference/c2c_dit2_plan.hpp"), ("work buffers fully rewritten by each call", "fft/reference/c2c_stockham_dif2_plan.hpp")], ["plan.order()", "plan.size()", "plan.max_order()", "plan(x, direction)"],
  [("work buffer", "scratch for out-of-place stages, must not carry information between calls", "fft/reference/c2c_stockham_dif2_plan.hpp")])

p("C03", "DFT of any length equals the definition, by plan and by direct sum",
  "For every length N >= 1, power of two or not, prime or not, the arbitrary-length DFT plan and the direct DFT function both produce sum_n x[n] exp(-+2 pi i k n / N) for the forward and backward directions, unscaled, within rounding error; the out-of-place calls leave their input unchanged. Backward after forward gives N times the input, and a plan may be reused in any order of directions.",
  ["inputs", "histories"], "all lengths, all input vectors, both directions, float and double, any reuse sequence of one plan",
  "Tests compare a handful of lengths with fixed inputs.",
  ["fft/dft.hpp", "fft/fallback/fallback_dft_plan.hpp"], [("chirp-z convolution through a padded FFT", "fft/fallback/fallback_dft_plan.hpp"), ("direct sum", "fft/dft.hpp")], ["dft(plan, x)", "idft(plan, x)", "dft(in, out, dir)"])

p("C04", "Real FFT is the half spectrum of the DFT and its inverse rebuilds the signal",
  "For every real input of 2^order samples (order >= 1), the real FFT writes exactly the N/2+1 non-negative-frequency DFT bins (and touches no other output element), and the inverse real FFT of any half spectrum of a real signal gives that signal times N, whatever is in the plan from earlier calls and whether the caller passes N/2+1 or more coefficients. Splitting the DFT of two real signals packed as real and imaginary part recovers the two half spectra.",
  ["inputs", "histories"], "all real inputs, all orders, all Hermitian half spectra, float/double, any alternation of the two directions on one plan",
  "Tests use single fixed vectors per order; the split is checked on one example.",
  ["fft/rfft.hpp", "fft/fallback/fallback_rfft_plan.hpp"], [("full-size complex FFT with conjugate fill", "fft/fallback/fallback_rfft_plan.hpp"), ("rfft_deinterleave", "fft/rfft.hpp")], ["rfft(plan, in, out)", "irfft(plan, in, out)", "rfft_deinterleave(...)"])

p("C05", "Split-complex FFT equals the DFT of the interleaved data",
  "For every order >= 1, the split-complex FFT plan, in place or out of place, forward or backward, leaves in its real and imaginary arrays the real and imaginary parts of the unscaled DFT of the complex vector they represent, and the out-of-place form leaves its input unchanged; backward after forward multiplies by the size.",
  ["inputs"], "all pairs of real/imaginary vectors, all orders, both directions, float/double, contiguous and strided storage",
  "Tests use one fixed input per size.",
  ["fft/split_fft.hpp", "fft/fallback/fallback_split_fft_plan.hpp"], [("swap real and imaginary roles for the backward direction", "fft/fallback/fallback_split_fft_plan.hpp")], ["fft(plan, split)", "ifft(plan, split)"])

p("C06", "DCT plan computes the type-2 discrete cosine transform",
  "For every real input of 2^order samples (order >= 1) the DCT plan replaces x by 2 * sum_n x[n] cos(pi k (2n+1) / (2N)) for every k, within rounding error, independent of earlier uses of the plan, and it reports its order and size.",
  ["inputs", "histories"], "all real inputs, all orders, float/double, repeated use of one plan",
  "Tests compare one fixed vector with values from scipy.",
  ["fft/dct.hpp"], [("even/odd reordering, FFT and quarter-wave twiddle", "fft/dct.hpp")], ["fallback_dct2_plan::operator()"])

p("C07", "STFT and impulse partitioning put each windowed frame in its own spectrum",
  "For every multichannel signal of at least one sample and every frame size, overlap smaller than the frame, transform size at least the frame and window function, the short-time transform has one row per hop (ceil(signal length / (frame - overlap)) frames), and frame f of a channel is the half spectrum of the samples from f*(frame-overlap) on, at most frame of them, zero padded to the next power of two of the transform size and multiplied by the window of that padded length. Uniform partitioning of an impulse response is the same with block-size frames, no overlap, doubled transform and no window, so no sample is lost or counted twice.",
  ["inputs", "configurations"], "all signals, channel counts, lengths, frame/overlap/transform sizes, windows",
  "Tests check the number of frames for a few settings and spectra of one signal.",
  ["fft/stft.hpp", "convolution/uniform_partition.hpp", "math/windowing.hpp"], [("frame count and frame offset arithmetic", "fft/stft.hpp"), ("zero fill before each frame", "fft/stft.hpp")], ["stft(x, options)", "stft(x, window_size)", "uniform_partition(x, block)"])

p("C08", "Bit and digit reversal are the right permutations; twiddles are roots of unity",
  "For every power-of-two length at least 2, bit reversal (table based or in place, complex, interleaved real pairs or split) moves the element at index i to the index with its binary digits reversed and loses or duplicates nothing, so applying it twice restores the input; digit reversal does the same in the given radix. Twiddle factor k of size N is exp(-+2 pi i k / N) for the direction, and a radix-2 table holds the first N/2 of them.",
  ["inputs"], "all orders, all element values, all supported element layouts and radices, all k and N",
  "Tests compare one or two fixed permutations.",
  ["fft/reference/bitrevorder.hpp", "fft/reference/digitrevorder.hpp", "fft/twiddle.hpp"], [("reversal table", "fft/reference/bitrevorder.hpp"), ("radix counter", "fft/reference/digitrevorder.hpp")], ["bitrevorder(x)", "bitrevorder_plan", "digitrevorder_plan", "twiddle(n, k, dir)"])

p("C09", "In-place packed transforms are the DFT of the packed data",
  "The experimental in-place transforms on interleaved real/imaginary arrays equal the unscaled DFT of the complex vector the array holds, in both directions. The experimental in-place real transform turns N real samples into the packed half spectrum (DC and Nyquist terms in the first two slots, then real/imaginary pairs of the bins between) and its backward direction applied to that gives the samples times N/2.",
  ["inputs"], "all inputs, orders >= 1 (complex) and >= 2 (real), float and double, both directions",
  "Tests only round-trip one vector, which a wrong but invertible recombination also passes.",
  ["fft/experimental/rfft.hpp"], [("half-size complex FFT plus recombination", "fft/experimental/rfft.hpp")], ["experimental::rfft_plan", "experimental::c2c_dit2_plan"])

p("C10", "Direct and FFT convolution equal full linear convolution for any sizes",
  "For any two vectors of n and m elements, the direct convolution and the FFT convolution return n+m-1 elements, element k being the sum of signal[i]*patch[k-i] over all valid i, whichever of the two is longer; the results are the same with the arguments swapped, they do not change the inputs, and the FFT form agrees with the direct form within rounding error. An FFT convolver object gives the same result however often and with whatever data it was used before, and an empty argument to the FFT form gives an empty result.",
  ["inputs", "histories"], "all signals and patches (lengths >= 1 direct, >= 2 FFT), real and complex values, any reuse sequence of one convolver object",
  "Tests check a few fixed pairs.",
  ["convolution/direct_convolve.hpp", "convolution/fft_convolver.hpp", "convolution/mode.hpp"], [("triangular index ranges", "convolution/direct_convolve.hpp"), ("zero padding to at least n+m-1", "convolution/fft_convolver.hpp")], ["direct_convolve(s, p)", "fft_convolve(s, p)", "fft_convolver"])

p("C11", "Partitioned convolution of a block stream equals linear convolution",
  "For every impulse response, every power-of-two block size of at least 2 and every sequence of input blocks, each uniformly partitioned convolver (overlap-save or overlap-add, interleaved or split spectra) fed with the partitioned response outputs, block by block without latency, exactly the prefix of the linear convolution of the concatenated input with the response, within rounding error. Setting a filter at any point, also one with a different number of partitions or another block size, starts from silence: nothing of the earlier input or filter is heard.",
  ["inputs", "histories"], "all responses, block sizes, block sequences of any length, and all interleavings of processing and filter changes, float and double",
  "Tests feed a few fixed noise blocks through one filter with one block size and never change the filter.",
  ["convolution/uniform_partitioned_convolver.hpp", "convolution/dense_convolver.hpp", "convolution/overlap_add.hpp", "convolution/overlap_save.hpp", "convolution/dense_fdl.hpp", "convolution/dense_filter.hpp", "convolution/fdl_index.hpp"],
  [("frequency delay line + spectral multiply-accumulate", "convolution/uniform_partitioned_convolver.hpp"), ("overlap handling", "convolution/overlap_add.hpp")], ["filter(...)", "operator()(block)"],
  [("delay line and write position", "spectra of the most recent blocks", "convolution/fdl_index.hpp")])

p("C12", "Buffered convolver output does not depend on how the stream is cut",
  "The overlap-add convolver that accepts buffers of any length of at least the block size outputs, for every impulse response, every power-of-two block size of at least 2 and every way of cutting the input stream into such buffers, the prefix of the linear convolution of the stream with the response, sample for sample and without latency, within rounding error. Setting a filter at any point, also with fewer or more partitions or in the middle of a block, starts from silence.",
  ["histories", "inputs"], "all responses and input streams, all sequences of buffer lengths >= block size, all points of filter change",
  "Tests use buffer lengths that are multiples of the block and one filter per object.",
  ["convolution/overlap_add_convolver.hpp", "convolution/dense_convolver.hpp"], [("input position / current segment bookkeeping", "convolution/overlap_add_convolver.hpp")], ["filter(...)", "operator()(buffer)"],
  [("_input_pos, _current_segment", "how much of the current block has arrived, and where in the delay line it goes", "convolution/overlap_add_convolver.hpp")])

p("C13", "Overlap-add/-save engines do linear filtering for any block and filter size",
  "For every block size and filter size of at least 1 with block + filter - 1 at least 2, and any sequence of blocks, the overlap-add and overlap-save engines, given a per-block callback that multiplies the spectrum by the transform of a filter of at most the declared size, output the linear convolution of the stream with that filter without latency, within rounding error; with a callback that does nothing they output the input. They report the sizes they were made with and a transform size that is a power of two of at least block + filter - 1, and hand the callback exactly the half spectrum of that transform.",
  ["inputs", "histories", "configurations"], "all block sizes (not only powers of two), filter sizes shorter or longer than the block, filters and block sequences",
  "Tests use equal power-of-two block and filter sizes and mostly identity callbacks.",
  ["convolution/overlap_add.hpp", "convolution/overlap_save.hpp"], [("window slide / overlap tail", "convolution/overlap_save.hpp"), ("tail accumulation", "convolution/overlap_add.hpp")], ["operator()(block, callback)"],
  [("overlap tail / sliding window", "history of the stream", "convolution/overlap_add.hpp")])

p("C14", "Sparse convolution equals dense convolution with the dropped bins zeroed",
  "For every partitioned response and every rule that selects which spectral coefficients to keep, the sparse overlap-save and overlap-add convolvers output for every block sequence the same, within rounding error, as the dense ones whose response has the unselected coefficients set to zero; with a rule that keeps everything they equal full linear convolution, and with one that keeps nothing they output silence. Setting a new filter or rule starts from silence.",
  ["inputs", "histories"], "all responses, keep-rules by position and value, block sequences, filter changes",
  "Tests use one rule that keeps everything.",
  ["convolution/sparse_convolver.hpp", "convolution/sparse_filter.hpp", "container/csr_matrix.hpp", "algorithm/multiply_add.hpp"], [("compressed rows multiplied into the accumulator", "convolution/sparse_filter.hpp")], ["filter(matrix, rule)", "operator()(block)"])

p("C15", "Frequency delay lines pair each partition with the block of its age",
  "On every step of a delay line with S segments, the schedule writes the newest block to one slot and pairs each filter partition j (0 <= j < S), exactly once, with the slot holding the block written j steps ago (or never written), for any number of steps; a reset restarts the schedule. Reading a slot of the dense, split or compressed delay line returns what was last inserted there and zero before that, inserting affects no other slot, and the compressed ones return each component within half a quantisation step of the value inserted for values in [-1, 1].",
  ["histories", "inputs"], "all segment counts, step counts, insertion sequences, values in [-1,1], 8- and 16-bit storage",
  "Tests step an index of two sizes a few times and insert one row.",
  ["convolution/fdl_index.hpp", "convolution/dense_fdl.hpp", "convolution/compressed_fdl.hpp", "container/compressed_accessor.hpp"], [("modular write position", "convolution/fdl_index.hpp"), ("scale and round to integer", "convolution/compressed_fdl.hpp")], ["fdl_index::operator()", "insert", "operator[]"])

p("C16", "A sparse matrix reads as the dense matrix of its kept entries",
  "For every dense matrix and keep-rule, the compressed sparse row matrix built from them reads as the original value at every kept position and as zero everywhere else, reports the dense extents, and stores exactly the kept values row by row with ascending columns and consistent row offsets. After any sequence of insertions at distinct positions of an empty or built matrix it still reads as a dense matrix with those values set and keeps that storage order.",
  ["inputs", "histories"], "all matrices, shapes (also with empty rows), predicates, index types, insertion sequences in any order",
  "Tests build one 4x4 matrix and insert a few values.",
  ["container/csr_matrix.hpp"], [("ordered insert and row offset shift", "container/csr_matrix.hpp")], ["operator()(row, col)", "insert", "value_container()", "column_container()", "row_container()"])

p("C17", "Element-wise operations touch every element once and nothing else",
  "Addition, multiplication, scaling, filling and copying of vectors and matrices of any size (also empty), element type and memory layout (row-major, column-major, strided) set every element of the destination to the element-wise result and leave everything outside the destination and all other arguments unchanged, also when the destination is one of the inputs. Copying between interleaved and split complex storage in either direction preserves every value.",
  ["inputs", "configurations"], "all extents, layouts, element types (float, double, complex, library complex), aliasing of destination with inputs",
  "Tests check a few fixed contiguous vectors.",
  ["algorithm/add.hpp", "algorithm/multiply.hpp", "algorithm/scale.hpp", "algorithm/fill.hpp", "algorithm/copy.hpp", "algorithm/backend/linalg_binary_op.hpp", "algorithm/backend/linalg_unary_op.hpp"], [("index loops per rank and layout", "algorithm/backend/linalg_unary_op.hpp")], ["add", "multiply", "scale", "fill", "copy"])

p("C18", "Multiply-add is x*y+z on every code path, length and alignment",
  "For vectors of any length (also not a multiple of the SIMD width, and empty), alignment and layout, multiply-add sets every element of the destination to x*y+z within rounding error, for real, interleaved complex and split complex data and also when the destination is x, y or z, and changes nothing else; the vectorised and the plain path agree. With a sparse matrix row as y and the destination being z it adds x times the row's stored entries at their columns and leaves the other columns unchanged.",
  ["inputs", "configurations"], "all lengths, offsets, layouts, element types, aliasing, instruction set configurations (SSE2, AVX, AVX-512, generic, no SIMD)",
  "Tests check a few lengths in the one configuration built.",
  ["algorithm/multiply_add.hpp", "container/csr_matrix.hpp"], [("vector body plus scalar tail", "algorithm/multiply_add.hpp")], ["multiply_add(x, y, z, out)"])

p("C19", "Mean, variance, deviation and error measures match their definitions",
  "For every non-empty vector or matrix the mean is the arithmetic mean, and for at least two elements the variance is the mean squared deviation from it and the standard deviation its square root, all within rounding error; an empty object has no mean and fewer than two elements no variance or deviation. The (root) mean squared error of two equally shaped objects is the (root of the) mean of the squared differences, of the magnitudes for complex values, so it is symmetric and zero for equal arguments.",
  ["inputs"], "all shapes, layouts, values, float/double, real and complex for the error measures",
  "Tests check constant and ramp vectors.",
  ["algorithm/mean.hpp", "algorithm/variance.hpp", "algorithm/standard_deviation.hpp", "algorithm/mean_squared_error.hpp", "algorithm/root_mean_squared_error.hpp"], [("two-pass sums", "algorithm/variance.hpp")], ["mean", "variance", "standard_deviation", "mean_squared_error", "root_mean_squared_error"])

p("C20", "allmatch and allclose hold exactly when every element pair satisfies them",
  "allmatch returns true exactly when the predicate holds for every element (pair), is true for empty objects, and never consults an element outside the object or a pair of different positions. allclose is true exactly when every absolute difference (modulus for complex values) is at most the tolerance given, or at most 1e-5 for single and 1e-9 for double precision when none is given, and is false as soon as any element is NaN.",
  ["inputs"], "all shapes, layouts, values including NaN and infinities, positions and sizes of a difference, real and complex",
  "Tests check a few constant vectors.",
  ["algorithm/allmatch.hpp", "algorithm/allclose.hpp"], [("conjunction over all indices", "algorithm/allmatch.hpp")], ["allmatch", "allclose"])

p("C21", "Normalisation yields unit peak or energy and keeps silence and proportions",
  "After peak normalisation the largest magnitude of a non-silent vector or matrix is 1, and after energy normalisation its sum of squares is 1, within rounding error; every element is multiplied by the same positive factor, which is the one the factor functions return, and all-zero or empty objects are unchanged with factor 1. Impulse normalisation scales a multichannel response by one common factor so that the loudest channel has unit energy and the level ratios between channels are kept; silent channels stay silent and have no influence on it. (Levels whose squares neither overflow nor underflow.)",
  ["inputs"], "all non-overflowing vectors and matrices, any channel count and order of loudness, float/double, layouts",
  "Tests check constant signals.",
  ["algorithm/normalize_energy.hpp", "algorithm/normalize_peak.hpp", "convolution/normalize_impulse.hpp"], [("smallest channel factor", "convolution/normalize_impulse.hpp")], ["normalize_peak", "normalize_energy", "normalize_impulse", "*_factor"])

p("C22", "Fixed-point numbers saturate instead of wrapping and convert consistently",
  "For 8- and 16-bit fixed-point numbers of every fraction width, addition, subtraction and multiplication give the exact result (the product rounded toward minus infinity at the last fraction bit) clamped to the representable range, negation is exact except that the most negative value gives the largest, and comparisons order by value. Conversion to floating point is exact; conversion from any finite float gives the value truncated toward zero at the last fraction bit and clamped to the range, so a round trip through float is the identity.",
  ["inputs"], "all pairs of representable values of every format, all finite floats",
  "Tests check a few constants of the two named formats.",
  ["fixed_point/fixed_point.hpp"], [("saturate", "fixed_point/fixed_point.hpp")], ["operators", "to_float", "to_double", "constructors"])

p("C23", "Fixed-point buffer operations match the scalar ones on every code path",
  "For buffers of any length and alignment, adding or subtracting fixed-point buffers gives element by element exactly the scalar result, and multiplying them the scalar result to within one unit in the last place and never with wrong sign or wrapped around, on every instruction set path and also when the output is one of the inputs. The SIMD batches of fixed-point numbers load, store, broadcast, add, subtract and multiply lane by lane with the same results.",
  ["inputs", "configurations"], "all values, lengths, alignments, aliasing, formats, instruction sets (SSE2, SSE4.1, AVX2, AVX-512)",
  "Tests multiply a few small positive constants.",
  ["fixed_point/algorithm.hpp", "fixed_point/simd.hpp", "simd/sse2.hpp"], [("vector kernels plus scalar remainder", "simd/sse2.hpp"), ("saturating intrinsics", "fixed_point/simd.hpp")], ["add/subtract/multiply(span, span, span)", "q7x16, q15x8, q7x32, q15x16, q7x64, q15x32"])

p("C24", "The library's complex numbers and helpers obey complex arithmetic",
  "For every pair of values, the library's scalar complex type adds, subtracts, multiplies, divides (by non-zero), negates, conjugates and takes magnitudes as complex numbers do, within rounding error, its compound assignments equal the plain operators also when both sides are the same object, scaling by a real scales both parts, and its accessors, setters and structured bindings return the parts set. The generic real, imag, conj, abs and polar helpers give the same results for standard and library complex numbers, and of a user's type whatever its members or free functions of that name give; real, abs and log2 of a plain number are that number, its absolute value and its base-2 logarithm, and imag of it is zero (known finding: it returns the number).",
  ["inputs"], "all finite operand pairs without overflow, half/single/double precision, all operators",
  "Tests check a few small integers.",
  ["complex/scalar_complex.hpp", "complex/complex.hpp", "math/real.hpp", "math/imag.hpp", "math/conj.hpp", "math/abs.hpp", "math/polar.hpp", "math/log2.hpp"], [("operator formulas", "complex/scalar_complex.hpp")], ["scalar_complex operators", "math::real/imag/conj/abs/polar/log2"])

p("C25", "Fixed-point complex sums saturate per part; products are scaled products",
  "For every pair of fixed-point complex numbers, addition and subtraction equal the saturating scalar operations on the real and imaginary parts, and construction, accessors and setters return the parts given. The product's parts are (a.re*b.re - a.im*b.im) and (a.re*b.im + a.im*b.re) computed on the stored integers with each term shifted right by 17 bits (16-bit storage).",
  ["inputs"], "all pairs of 8-bit (sums) and 16-bit values",
  "Tests check one product whose expected value hides a use of the wrong operand.",
  ["fixed_point/complex.hpp"], [("operator*", "fixed_point/complex.hpp")], ["complex_q7, complex_q15 operators"])

p("C26", "Integer helpers are exact over their whole range",
  "For every unsigned integer whose result is representable, rounding up to a power of two gives the smallest power of two that is at least the value, in the generic and the fallback form, and the base-2 logarithm is the floor of the true one. Integer powers are exact whenever representable for every base form, the integer division helper rounds the quotient of a non-negative and a positive number up (whenever their sum is representable), even/odd tests and bit casts are exact, and the FFT order for a size is the smallest order whose size is at least it.",
  ["inputs"], "all 8- and 16-bit values, wide ranges and all boundary neighbourhoods of 32- and 64-bit values, signed and unsigned types",
  "Tests sample a few values around powers of two.",
  ["bit/bit_ceil.hpp", "bit/bit_log2.hpp", "bit/bit_cast.hpp", "math/ipow.hpp", "math/idiv.hpp", "math/is_even.hpp", "math/is_odd.hpp", "fft/order.hpp"], [("bit smearing", "bit/bit_ceil.hpp"), ("shift specialisations", "math/ipow.hpp")], ["bit_ceil", "bit_log2", "ipow", "idiv", "next_order", "size"])

p("C27", "Decibel conversion is monotone, floored and accurate to its stated precision",
  "For every gain, conversion to decibel returns the floor for gains of zero and below and otherwise the larger of the floor and 20*log10(gain): to rounding error in accurate mode and to within 0.01 dB in estimate mode for normal single-precision gains; it never returns less than the floor and never decreases by more than that error when the gain grows. The default floor is -144 dB, and the fast base-2 and base-10 logarithms are within 0.001 of the true ones for every positive normal float.",
  ["inputs"], "all finite gains (negative, zero, subnormal for accurate mode, up to the largest), all floors, float and double",
  "Tests check a dozen gains.",
  ["unit/decibel.hpp", "math/fast_math.hpp"], [("floor clamp", "unit/decibel.hpp"), ("bit-pattern logarithm with rational correction", "math/fast_math.hpp")], ["amplitude_to_db", "fast_log2", "fast_log10"])

p("C28", "Mel conversion is an inverse pair and mel bands are evenly spaced",
  "For every non-negative frequency, Hertz to mel is 2595*log10(1+f/700), mel to Hertz inverts it within rounding error, both map zero to zero and are strictly increasing. A table of n mel frequencies between two limits starts at the lower limit, ends at the upper one, is increasing and equally spaced on the mel scale; a table of one holds the lower limit and an empty one is left alone.",
  ["inputs"], "all frequencies up to far above audio, all n, all limits, float/double",
  "Tests check four constants and a few table sizes.",
  ["unit/mel.hpp"], [("closed formulas", "unit/mel.hpp")], ["hertz_to_mel", "mel_to_hertz", "mel_frequencies"])

p("C29", "Windows, bin frequencies and A-weighting follow their formulas",
  "For every length of at least 2, window sample i is 0.5-0.5cos(2 pi i/(n-1)) for Hann, 0.54-0.46cos(2 pi i/(n-1)) for Hamming and 1 for rectangular, so windows are symmetric, within [0,1] up to rounding, and filling or generating a window sets every sample by its own index and the whole length. Bin i of an n-point spectrum has frequency i*fs/n, and the A-weighting of any positive frequency is the IEC 61672 curve (2 + 20 log10 of its transfer magnitude), finite over the audio range and about zero at 1 kHz.",
  ["inputs"], "all window lengths and indices, all FFT sizes, bins and sample rates, all positive frequencies in the audio range, float/double",
  "Tests check a few constants.",
  ["math/windowing.hpp", "fft/rfftfreq.hpp", "math/a_weighting.hpp"], [("closed formulas", "math/windowing.hpp")], ["hann_window", "hamming_window", "rectangular_window", "fill_window", "generate_window", "rfftfreq", "a_weighting"])

p("C30", "SIMD float batches act lane by lane like scalars",
  "For every batch type of half, single and double precision on every instruction set, loading from and storing to any (also unaligned) address moves exactly the batch's elements in order and nothing beyond them, broadcasting fills every lane, and addition, subtraction and multiplication give in each lane the correctly rounded scalar result, also for infinities, NaN, signed zeros and subnormals.",
  ["inputs", "configurations"], "all lane values, all addresses, SSE2, AVX, AVX2+F16C and AVX-512 builds",
  "Tests check one pair of constants, the same in all lanes, for the configuration built.",
  ["simd/sse2.hpp", "simd/avx.hpp", "simd/avx512.hpp", "simd/native.hpp"], [("intrinsics per lane", "simd/avx.hpp")], ["float32x4", "float64x2", "float32x8", "float64x4", "float32x16", "float64x8", "float16x8", "float16x16"])

p("C31", "The Python package computes the same transforms, convolutions and units",
  "For every non-empty one-dimensional numpy array of the supported precisions, whatever its strides (slices, steps, reversed views, matrix columns), the Python package's fft and ifft return the discrete Fourier transform of the array cropped or zero-padded to n points (its own length by default), scaled 1/N on the backward, forward or as 1/sqrt(N) on both directions according to norm (backward by default), and the array itself is unchanged; sizes that are not a power of two and arrays of another rank raise an exception. convolve returns the full linear convolution (n+m-1 elements), the same by its direct, fft and automatic method; the other two modes raise an exception. The element-wise functions (fast_log2, fast_log10, accurate and estimated amplitude_to_db, a_weighting) apply the library's function to every element of an array of any shape and memory order, and rfftfreq(n, d) returns n frequencies i/(n d).",
  ["inputs", "configurations"], "all array lengths, strides, dtypes, sizes n, norms, convolution modes and methods",
  "The Python tests compare a few contiguous random arrays with numpy and need a build of the extension; none of them runs offline.",
  ["extra/python/src/main.cpp", "extra/python/src/neo/fft/__init__.py", "extra/python/src/neo/__init__.py"],
  [("view of a numpy array by its strides", "extra/python/src/main.cpp"), ("crop or zero-pad", "extra/python/src/main.cpp"), ("norm factor", "extra/python/src/main.cpp")], ["neo.fft.fft", "neo.fft.ifft", "neo.convolve", "neo.fft.rfftfreq", "neo.fast_log2 and the other element-wise functions"])

p("C32", "The convolver command writes the convolution, peak-normalised, or fails cleanly",
  "For every signal and impulse response file with the same number of channels and sample rate, the convolver command writes to the output path a 32-bit float file with the signal's channel count, sample rate and length, whose channel c is the convolution of the two channels c cut to that length, all channels scaled by one factor that makes the largest magnitude 1 (silence stays silence), to single precision (half precision for the last pass), whatever the lengths relative to its internal block. With a wrong number of arguments, a file that cannot be read completely, or differing channel counts or sample rates it reports failure and writes nothing.",
  ["inputs"], "all channel counts, sample rates, signal and response lengths and contents, all argument lists",
  "No test runs the command.",
  ["extra/cli/src/convolver.cpp", "extra/cli/src/wav.hpp", "convolution/normalize_impulse.hpp", "convolution/uniform_partitioned_convolver.hpp"],
  [("block loop with a zero-padded last block", "extra/cli/src/convolver.cpp"), ("interleaving", "extra/cli/src/wav.hpp")], ["neo_convolver signal.wav filter.wav output.wav"])

p("C33", "The plugin's convolvers convolve, whatever the blocks, and forget on reset",
  "For every signal, response, channel count and block size, whole-signal dense convolution returns the signal convolved per channel with the response scaled to unit energy (of its loudest channel), cut to the signal's length, the same for every convolver type; the sparse one does so with the coefficients left out whose A-weighted level below the channel's strongest is not above the threshold (the requested low bins always count as loud). The block convolver convolves every block of the prepared size with the loaded response (resampled to the prepared rate), continuing over blocks, and passes blocks through before a response is loaded, after reset and for other lengths. Constant overlap-add delays a stream by frame-1 samples with one constant gain, however the stream is cut into callbacks up to the prepared maximum and whatever was processed before prepare or reset; the plugin's convolver is that with frames convolved with the unit-energy response (resampled to the prepared rate), and the identity without one; a response loaded while it runs counts from the next frame on, from silence, and a file that cannot be read changes nothing. Cutting a signal into blocks covers it once, in order, after one prepare and before one reset; files are loaded, resampled and written with their rate, length and samples.",
  ["inputs", "histories", "schedules"], "all signals, responses, block sizes, callback cuts, thresholds and histories of prepare, load, process and reset",
  "The plugin has no tests.",
  ["extra/plugin/src/dsp/ConstantOverlapAdd.hpp", "extra/plugin/src/dsp/Convolution.hpp", "extra/plugin/src/dsp/DenseConvolution.cpp", "extra/plugin/src/dsp/DenseConvolution.hpp", "extra/plugin/src/dsp/AudioBuffer.cpp", "extra/plugin/src/dsp/AudioBuffer.hpp", "extra/plugin/src/dsp/AudioFile.cpp"],
  [("left-over input and output offset", "extra/plugin/src/dsp/ConstantOverlapAdd.hpp"), ("keep rule", "extra/plugin/src/dsp/DenseConvolution.cpp"), ("convolvers rebuilt on prepare and load", "extra/plugin/src/dsp/Convolution.hpp")],
  ["dense_convolve", "sparse_convolve", "Convolution", "ConstantOverlapAdd", "DenseConvolution", "processBlocks", "load, resample, writeToWavFile"],
  [("left-over input, output offset", "samples not yet in a frame, position of the next frame in the output", "extra/plugin/src/dsp/ConstantOverlapAdd.hpp")])

p("C34", "Spectrum images and histograms show the weighted level of every coefficient",
  "For every spectrogram and weighting function, the level of a coefficient is 10*log10 of its power relative to the strongest one, not below -72 dB, plus the weight of its own bin. The spectrum image has one column per frame and one row per bin, low frequencies at the bottom, black where the level is at least the threshold and white elsewhere; the histogram counts every coefficient once in the entry of its level rounded to whole decibels and limited to 0..-143; its image draws one bar of eight pixels per decibel with a height in proportion to the count, the largest filling the image, with marks at 32, 64 and 96 dB. A silent spectrogram counts as -72 dB everywhere.",
  ["inputs"], "all spectrograms, weightings and thresholds",
  "The plugin has no tests.",
  ["extra/plugin/src/dsp/Spectrum.cpp"], [("scale to the strongest coefficient", "extra/plugin/src/dsp/Spectrum.cpp"), ("row of a bin", "extra/plugin/src/dsp/Spectrum.cpp")], ["powerSpectrumImage", "powerHistogram", "powerHistogramImage"])

p("C35", "Objects are independent values and share no hidden state",
  "For every set of transform plans, convolvers, overlap engines, delay lines, schedules, sparse matrices and permutations, and every way of interleaving their use (in one thread, or in several threads that each use objects of their own), every object returns what it would return if it alone existed. A copy (made or assigned at any point of the history, also over an object of another size) continues from the state of the original; afterwards neither notices what happens to the other, including its destruction. A moved object continues the history. Threads using different objects never race. The stateless functions do not depend on earlier calls.",
  ["histories", "schedules"], "all sets of objects, all interleavings, copies, moves and threads",
  "The tests use one object at a time in one thread; hidden shared scratch memory, caches and views into a copied-from object stay invisible.",
  ["fft/fft.hpp", "fft/rfft.hpp", "fft/split_fft.hpp", "fft/dft.hpp", "fft/dct.hpp", "fft/stft.hpp", "convolution/uniform_partitioned_convolver.hpp", "convolution/overlap_add.hpp", "convolution/overlap_save.hpp", "convolution/dense_fdl.hpp", "convolution/fft_convolver.hpp", "container/csr_matrix.hpp"],
  [("work buffers and tables are members held by value", "fft/fallback/fallback_rfft_plan.hpp"), ("overlap buffers and write positions are members held by value", "convolution/overlap_save.hpp")],
  ["outputs of every call", "data races"], [("all state of an object", "buffers, tables, positions", "fft/fft.hpp")])

p("C36", "Processing does not touch the heap",
  "Once an object has been built (and a convolver given its filter), running it obtains and returns no memory, in the first and in every later call: transforms through a plan (complex, real, split, any length, cosine, packed), permutations, a block through a convolver or overlap engine, insertion into a delay line, a step of the schedule, and the element-wise algorithms, normalisations and windows written into memory of the caller. They can be called from an audio callback, and being declared noexcept they cannot end the program by running out of memory.",
  ["histories"], "all objects, sizes and histories of calls",
  "The tests compare values only; an allocation in a processing call is invisible to them.",
  ["fft/fft.hpp", "fft/rfft.hpp", "fft/dft.hpp", "convolution/uniform_partitioned_convolver.hpp", "convolution/overlap_add.hpp", "convolution/overlap_save.hpp", "convolution/dense_fdl.hpp", "algorithm/multiply_add.hpp"],
  [("work buffers allocated on construction", "fft/fallback/fallback_dft_plan.hpp"), ("buffers allocated in filter()", "convolution/uniform_partitioned_convolver.hpp")],
  ["allocations and deallocations during a call"])

p("C37", "The plugin applies its controls and restores its saved state",
  "For every history of host calls, the plugin multiplies its input by the input gain, convolves it with its response (passing it through, with the convolver's delay, when there is none that can be read, and without delay before it is prepared), mixes the convolved with the unconvolved signal by the wet control (only the latter at 0, only the former at 1, both in full at one half, in between one of them fading linearly), and multiplies by the output gain, sample by sample, with the settings of that moment, in every channel; output channels without an input are silent, and releasing starts from silence. The gains range over 0..4 and the wet control over 0..1; all are 1 by default. State saved by one instance and restored into the same or another one restores all three controls, data that is no saved state changes nothing, and instances do not influence each other. Mono and stereo with as many inputs as outputs are the only layouts accepted. The settings of the last prepare (44.1 kHz, 512 samples, stereo before the first) are reported, and announced once to every registered listener and to no other.",
  ["histories"], "all histories of prepare, process, release, control changes, save and restore on any instances",
  "The plugin has no tests, and these are histories of host calls.",
  ["extra/plugin/src/PluginProcessor.cpp", "extra/plugin/src/PerceptualConvolution.cpp", "extra/plugin/src/PluginParameter.cpp"],
  [("gains and mix around the convolver", "extra/plugin/src/PerceptualConvolution.cpp"), ("only valid trees replace the state", "extra/plugin/src/PluginProcessor.cpp")],
  ["processBlock", "getStateInformation/setStateInformation", "isBusesLayoutSupported", "getProcessSpec and listeners"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
