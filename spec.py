"""Which harness parts decide which property, and the build configurations."""
SAN = ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
XS = ["-DNEO_HAS_XSIMD=1"]
CONFIGS = {
    # the configuration of the repository's own test build, plus sanitizers and xsimd
    "main": {"flags": ["-march=x86-64-v3"] + XS + SAN},
    "fuzz": {"flags": ["-march=x86-64-v3"] + XS + ["-O1", "-fsanitize=fuzzer,address,undefined", "-fno-sanitize-recover=all", "-DPBT_FUZZ"]},
    "gcc": {"flags": ["-march=x86-64-v3"] + XS + ["-O2"], "cxx": "/usr/bin/g++"},
    "rel": {"flags": ["-march=x86-64-v3"] + XS + ["-O2"]},
    "tsan": {"flags": ["-march=x86-64-v3"] + XS + ["-O1", "-g1", "-fsanitize=thread", "-pthread"], "probe": "thread"},
    "sse2": {"flags": ["-march=x86-64"] + XS + SAN},
    "sse41": {"flags": ["-march=x86-64", "-msse4.1"] + XS + SAN},
    "avx": {"flags": ["-march=x86-64", "-mavx"] + XS + SAN, "needs": ["avx"]},
    "nosimd": {"flags": ["-march=x86-64"] + SAN},
    "v3plain": {"flags": ["-march=x86-64-v3"] + SAN, "needs": ["avx2", "fma", "f16c"]},
    "v4": {"flags": ["-march=x86-64-v4"] + XS + SAN, "needs": ["avx512f", "avx512bw", "avx512dq", "avx512vl", "avx512cd"]},
    "v4plain": {"flags": ["-march=x86-64-v4"] + SAN, "needs": ["avx512f", "avx512bw", "avx512dq", "avx512vl", "avx512cd"]},
}
# additional sources, include paths and libraries of single harness parts; @REPO@ and @HERE@ are replaced
PYSITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
PLUGIN_DSP = ["@REPO@/extra/plugin/src/dsp/*.cpp", "@REPO@/extra/plugin/src/core/*.cpp"]
TU_FLAGS = {
    "c31_python": ["@HERE@/harness/wrap_python.cpp", "-I@HERE@/shim_py", "-I@REPO@/extra/python/src", "-I/usr/include/python3.12",
                   "-I" + PYSITE + "/numpy/_core/include", "-fno-sanitize=pointer-overflow", "-DPY_ARRAY_UNIQUE_SYMBOL=NEO_PYARRAY",
                   '-DPY_EXE="/opt/veriftools/pyvenv/bin/python3"', '-DPY_SITE="%s"' % PYSITE, '-DNEO_PY="@REPO@/extra/python/src"', "-lpython3.12"],
    "c32_cli": ["@HERE@/harness/wrap_cli.cpp", "-I@HERE@/shim_cli", "-I@REPO@/extra/cli/src", "-O2"],
    "c33_plugin": ["-I@HERE@/shim_juce", "-I@REPO@/extra/plugin/src"] + PLUGIN_DSP,
    "c37_processor": ["-DJUCESHIM_PLUGIN", "-DJUCESHIM_RELEASE", "-no-pie", "-Wl,--unresolved-symbols=ignore-all", "-I@HERE@/shim_juce", "-I@REPO@/extra/plugin/src"]
    + PLUGIN_DSP + ["@REPO@/extra/plugin/src/*.cpp"],
    "c34_spectrum": ["-I@HERE@/shim_juce", "-I@REPO@/extra/plugin/src"] + PLUGIN_DSP,
}
SPEC = {}


def prop(id, tus, rule, assumptions=(), **kw):
    SPEC[id] = {"tus": tus, "rule": rule, "assumptions": list(assumptions), **kw}


RND = "rounding: results are compared with an extended-precision reference within a multiple of the machine epsilon that grows with log2(N); values are exactly representable in float"

prop("C01", [("c01_radix2", "main", ["-DPART=1"]), ("c01_radix2", "main", ["-DPART=2"]), ("c01_other", "main", ["-DPART=1"]), ("c01_other", "main", ["-DPART=2"]), ("c01_batch", "main")],
     "A case is (plan type, element type, order, direction, in place / out of place, contiguous or strided view, input vector); inputs are uniform, impulse, small integers, constant, sparse, ramp, alternating or wide-range vectors. Non-trivial: N >= 4 and the input is not all zero.",
     [RND])
prop("C02", [("c02_plans", "main", ["-DPART=1"]), ("c02_plans", "main", ["-DPART=2"])],
     "A case is a plan type, an order and a history of 2..7 transforms (direction, call form, view, input), copies and assignments of plans, every step compared with the reference, some undone with the other direction, the first repeated at the end; and orders above the maximum offered to the default plan. Non-trivial: N >= 4, at least two transforms and a non-zero input, or a refused order.", [RND])
prop("C03", [("c03_dft", "main")],
     "A case is a length (small, power of two, prime, arbitrary), element type and a history of transforms on one plan, or one call of the direct sum; compared with the extended-precision DFT. Non-trivial: length > 1 and non-zero input.",
     [RND, "the direct sum rounds its angle before reducing it, so its tolerance grows linearly with the length"])
prop("C04", [("c04_rfft", "main")],
     "A case is an order, element type and a history of forward and inverse real transforms on one plan with strided or contiguous views and output/input vectors of exactly or more than N/2+1 coefficients, or one de-interleaving of two packed signals. Non-trivial: N >= 4 and non-zero input(s).", [RND])
prop("C05", [("c05_split", "main")],
     "A case is an order, precision and a history of split-complex transforms (direction, in/out of place, stride, input). Non-trivial: N >= 4 and non-zero input.", [RND])
prop("C06", [("c06_dct", "main")],
     "A case is an order, precision and a history of DCT calls on one plan; the reference is an extended-precision DFT of the even extension, cross-checked against the cosine sum for N <= 32. Non-trivial: N >= 4 and non-zero input.", [RND])
prop("C07", [("c07_stft", "main")],
     "A case is a multichannel signal (row-major, column-major or strided), frame/overlap/transform sizes (any, not only powers of two), a window (Hann, Hamming, rectangular, or an arbitrary function of index and length), used through a plan (once or twice) or the free functions, or an impulse response and block size for partitioning; every frame of every channel is compared with the reference spectrum. Non-trivial: more than one frame and a non-zero signal.", [RND, "transform size >= frame size > overlap; signal length >= 1; padded length >= 2 for Hann/Hamming"])
prop("C08", [("c08_reorder", "main")],
     "A case is a permutation call (complex, interleaved pairs, split; table or in place; radix 2,3,4,5,8; strided or not) on distinct or random values compared with the digit-reversed order, or a twiddle factor / table compared with cos/sin in extended precision. Non-trivial: at least 4 elements (two digits), or k > 0.", [RND])
prop("C09", [("c09_packed", "main")],
     "A case is an order, precision and a history of packed transforms (interleaved complex, or real forward/backward), compared with the reference DFT. Non-trivial: N >= 4 (complex) or 8 (real) and non-zero input.", [RND, "the real recombination computes twiddles by recurrence, its tolerance grows with N"])
prop("C10", [("c10_convolve", "main")],
     "A case is a pair of vectors (lengths 1..200 direct, 2..400 FFT, sometimes empty, sometimes thousands), contiguous or strided, real or complex, or a history of runs of one convolver object; compared with the long-double sum and between the methods and argument orders. Non-trivial: both of at least two elements and a non-zero result.", [RND])
prop("C11", [("c11_partitioned", "main")],
     "A case is a history of 1..4 phases on one convolver: set a generated filter (1..6 partitions, any response length, transformed by the library or by the reference; row-major, column-major or strided), then process 1..18 generated blocks; each phase's output is compared with the prefix of the linear convolution. Non-trivial: at least two blocks and at least two partitions or a filter change, non-zero response.", [RND, "block sizes are powers of two from 2 to 256"])
prop("C12", [("c12_buffers", "main")],
     "A case is a history of phases (set filter, then 1..10 buffers of arbitrary length >= block), or one stream cut in two random ways; outputs are compared with the linear convolution and with each other. Non-trivial: at least two buffers and a partial block, several partitions or a filter change; non-zero response.", [RND, "buffer length >= block size (asserted by the library)"])
prop("C13", [("c13_engines", "main")],
     "A case is an engine (overlap-add/-save, four element types), any block and filter size, a filter of at most that size (applied in the callback with a reference spectrum) or the identity, and 1..12 generated blocks; the concatenated output is compared with the linear convolution. Non-trivial: at least two blocks, block+filter > 3, non-zero data.", [RND])
prop("C14", [("c14_sparse", "main")],
     "A case is a history of phases (filter + keep-rule: all, none, by magnitude, random, by row, by band; then blocks); output compared with a long-double model of the partitioned convolver on the masked spectra, with the dense convolver, and with linear convolution when everything is kept. Non-trivial: at least two blocks and a non-zero kept coefficient.", [RND])
prop("C15", [("c15_fdl", "main")],
     "A case is a schedule (segments, steps, resets) checked against an age model, or a model-based sequence of insertions into a dense, split or compressed delay line with every slot read after each step. Non-trivial: several segments and more steps than segments, or several insertions.", ["compressed delay lines: values in [-1,1]"])
prop("C16", [("c16_csr", "main")],
     "A case is a matrix (0..30 x 0..30, three layouts), a keep-rule and a sequence of insertions at free positions; after each step every position, the extents and the three containers are compared with a map model. Non-trivial: at least one stored entry and two rows.", ["insertions at positions that are not stored yet"])
prop("C17", [("c17_elementwise", "main")],
     "A case is an operation (add, multiply, scale, fill, copy, copy to/from split complex), an element type, a vector or matrix of any size including empty, a combination of layouts and an aliasing pattern (destination separate or one of the inputs), in guarded memory. Non-trivial: at least two elements and non-zero data.", [RND])
ISAS = ["main", "sse2", "avx", "nosimd", "v3plain", "v4", "v4plain"]
prop("C18", [("c18_muladd", c) for c in ISAS],
     "A case is an element type (real, std and library complex, split, sparse row), a length 0..600 (mostly below 70 so that every remainder of every SIMD width occurs), an offset of each operand from its allocation, a layout (contiguous, strided, mixed) and an aliasing pattern; the harness is built for baseline x86-64, AVX, AVX2 and AVX-512 with and without xsimd. Non-trivial: at least two elements and a non-zero first operand or stored entry.", [RND])
prop("C19", [("c19_stats", "main")],
     "A case is a vector or matrix of any size (empty and one-element included) and layout, or a pair of equally shaped ones (equal, differing in one place, unrelated; also of different precision), compared with long-double formulas. Non-trivial: at least two elements (and different arguments for the error measures).", [RND])
prop("C20", [("c20_match", "main")],
     "A case is a pair of objects of any shape and layout with a generated truth table for the predicate (which also records what it was shown), or two nearly equal objects with perturbations of generated multiples of the tolerance, or NaN; cases that rounding of the difference could decide either way are skipped and counted. Non-trivial: at least two elements, or a perturbation.", [])
prop("C21", [("c21_normalize", "main")],
     "A case is a vector or matrix of any size and layout at levels from 2^-40 to 2^40, with silent and differently loud channels for impulse responses. Non-trivial: at least two elements and not silent.", [RND, "levels whose squares neither overflow nor underflow"])
prop("C22", [("c22_fixed", "main")],
     "A case is a fraction width and an operand against all 256 values (8-bit), against edge and random values and the neighbours of its saturation boundary (16-bit) or a stripe of 1024 values against one operand, or a float (any bit pattern, on or next to the grid, around the ends of the range, huge, subnormal). The 8-bit space has 8*256 such cases and is drawn many times over. Non-trivial: non-zero operand or float.", ["finite floats; a double may be rounded to float first"])
prop("C23", [("c23_fixed_buffers", c) for c in ["main", "sse2", "sse41", "avx", "v4"]],
     "A case is an operation, storage and fraction width, a length 0..600 (mostly below 80), offsets of the three buffers, aliasing and values (extremes, powers of two +-1, small, uniform); or one operand against all values of the other; or one operation on a SIMD batch. Built for SSE2, SSE4.1, AVX, AVX2 and AVX-512. Non-trivial: at least two elements.", [])
prop("C24", [("c24_complex", "main")],
     "A case is a pair of complex numbers (zero, integers, simple fractions, magnitudes over 2^+-12) and a scalar in half, single or double precision put through every operator, compound assignment (also with itself), accessor, setter and helper, or one standard complex / plain / integer argument of the generic helpers. Non-trivial: both operands non-zero.", ["magnitudes whose squares neither overflow nor underflow (as the formulas require)"])
prop("C25", [("c25_fixed_complex", "main")],
     "A case is two complex numbers whose parts are uniform, extreme, near powers of two or near the ends of the range. Non-trivial: both operands non-zero.", [])
prop("C26", [("c26_integers", "main")],
     "A case is one or two integers of a type of 8 to 64 bits (around powers of two, small, any magnitude), a block of 256 consecutive 16-bit numbers (the whole range in 256 blocks), a base and all exponents up to the largest representable power, or a bit pattern; the reference is 128-bit arithmetic. Non-trivial: above 1 (exponent above 1).", ["division of non-negative by positive numbers whose sum is representable (callers rely on the wrap-around beyond it)", "logarithm of non-zero numbers"])
prop("C27", [("c27_decibel", "main")],
     "A case is a gain (any bit pattern, subnormal, around 1, around the floor, powers of ten, zero, negative) and a floor (default or generated), with a larger second gain for monotonicity; or 2048 (thorough: 65536) neighbouring floats or one mantissa with all 254 exponents put through the fast logarithms. Reference: long-double log10 / double log2. Non-trivial: gain above 0 and not 1.", ["finite gains"])
prop("C28", [("c28_mel", "main")],
     "A case is a pair of frequencies (0 to 200 kHz, also tiny ones) and a mel value, or a table of 0..300 bands between two limits written to a contiguous or strided vector; compared with long-double formulas. Non-trivial: positive frequency, at least three bands.", [RND])
prop("C29", [("c29_windows", "main")],
     "A case is a window (kind, precision, length, by generate_window / fill_window into contiguous or strided memory / operator() with different index types), a user-defined window, bin frequencies (one bin or a vector), or an A-weighted frequency from 0.01 Hz to 1 MHz; compared with long-double formulas. Non-trivial: at least three samples, non-zero bin.", [RND, "window length >= 2"])
prop("C30", [("c30_batches", c) for c in ["main", "sse2", "avx", "v4"]],
     "A case is a batch type and operation on lanes drawn from all bit patterns, zeros, infinities, NaN, subnormals, extremes and ordinary values, at element offsets 0..7 in memory that ends exactly at the last lane (inputs) or carries guards (output); compared bit by bit with the scalar operation. Built for SSE2, AVX, AVX2+F16C and AVX-512. Every case is non-trivial.", ["default rounding mode", "NaN payloads are not compared after arithmetic"])

prop("C31", [("c31_python", "main")],
     "A case is a call of the Python package (its own Python files and its extension source, compiled over a stand-in for pybind11, in an embedded CPython with numpy): a transform (precision, size 1..1024, n smaller, equal, larger or not a power of two, norm by name or default), a convolution (lengths, mode, method), an element-wise function, bin frequencies, or an array of the wrong rank; arrays are contiguous, strided, reversed or rows and columns of matrices. Compared with the direct DFT / convolution / formula in extended precision. Non-trivial: at least two elements (or a refused call).",
     ["non-empty writeable arrays with strides that are multiples of the element", "at least two elements for the FFT method of convolve", "the stand-in for pybind11 in shim_py converts arguments as pybind11 does"], no_fuzz=True)
prop("C32", [("c32_cli", "main")],
     "A case is a run of the command on generated in-memory wav files (1..4 channels, noise, sparse, sine or silent, lengths around the internal block of 32768, sparse responses with taps at the block boundaries), or a run it has to refuse. Every file it writes is compared with the peak-normalised convolution in extended precision. Non-trivial: audible output of at least two frames (or a refused call).",
     ["at least one frame, samples within [-1, 1]", "the last pass keeps spectra in half precision and is compared to about 1 % of the loudest possible output", "the stand-in for dr_wav in shim_cli"], no_fuzz=True)

prop("C33", [("c33_plugin", "main")],
     "A case is a whole-signal convolution (kind of convolver, block 2..256, 1..3 channels, any lengths; dense, or sparse with a threshold, sample rate and low bins kept), a history of prepare / load / process (in place or not, full or other lengths) / reset on the block convolver, a stream cut into arbitrary callbacks through the overlap-add frames (frame 1..64, hop frame/1..8, identity or frame-dependent processing) or the plugin's convolver with loads (also while running, at other sample rates, of unreadable files), resets and re-preparation, a signal cut into blocks, or a file loaded, resampled and written. Non-trivial: at least two blocks / frames of signal.",
     [RND, "the stand-in for JUCE in shim_juce (uninitialised buffers hold NaN, ranges are checked, linear interpolation for the resampler)", "power-of-two block sizes >= 2, responses with at least as many channels as the signal"], no_fuzz=True)
prop("C34", [("c34_spectrum", "main")],
     "A case is a spectrogram of 1..20 frames of 1..33 bins (levels uniform, over 110 dB, sparse, silent, powers of two), weights per bin (none, random, falling) and a threshold; every pixel and every histogram entry is compared with the level in long double, except levels within 0.001 dB of a decision. Non-trivial: not silent and more than two coefficients.",
     ["the stand-in for JUCE in shim_juce"], no_fuzz=True)

prop("C37", [("c37_processor", "main")],
     "A case is a history of host calls on one or two instances of the plugin (its own processor, parameter and signal-path sources over a stand-in for JUCE): blocks of any length up to the prepared one, controls moved, prepare with other rates, block sizes and channels, release, listeners added and removed, state saved and restored into the same or the other instance, junk restored; with a response, an unreadable one or none. Every sample is compared with the gains and the mix in long double around the convolver checked by C33. Non-trivial: more samples than one block.",
     ["the stand-in for JUCE in shim_juce (a moved control counts at once, without JUCE's ramp)", "block sizes >= 2, responses with at least as many channels as the signal"], no_fuzz=True)

prop("C35", [("c35_objects", "main", ["-pthread"]), ("c35_objects", "tsan")],
     "A case is a set of objects of any of 49 kinds (all FFT plans, real, split, any-length, cosine and packed transforms, STFT, convolvers, engines, delay lines, schedules, sparse matrices, permutations) or the stateless functions, and a random schedule of uses, copies, assignments, moves and destructions in one thread, or 2 to 4 threads each with objects of their own (copies of one object, objects of one kind, any objects); every output is compared with the same history on an object used alone. The second build runs under ThreadSanitizer. Non-trivial: at least 6 steps, or threads.",
     ["each object is used by one thread at a time"], thorough_tus=[("c35_objects", "rel", ["-pthread"])])

prop("C36", [("c36_alloc", "main", ["-pthread"])],
     "A case is an object of one of the 49 kinds of C35 (or the functions that write into the caller's memory) and 1..12 uses of it, with copies and moves in between; the heap is watched during each call of the library. Non-trivial: at least two uses.",
     ["setting a filter, building objects and functions that return arrays may allocate"], thorough_tus=[("c36_alloc", "rel", ["-pthread"])])

# multiples of the case counts written in the harnesses, so that every quick check explores for about 5 to 30 s on 8 cores
for _id, _q in {"C01": 1.5, "C02": 4, "C07": 6, "C08": 20, "C10": 15, "C11": 12, "C12": 12, "C13": 15, "C14": 8, "C15": 25, "C16": 60, "C17": 60,
                "C18": 10, "C19": 50, "C20": 50, "C21": 60, "C22": 60, "C23": 15, "C24": 60, "C25": 40, "C26": 60, "C27": 50, "C28": 50, "C29": 40, "C30": 30, "C31": 8, "C32": 2, "C33": 10, "C34": 3, "C35": 20, "C36": 150, "C37": 40}.items():
    SPEC[_id]["qscale"] = _q
