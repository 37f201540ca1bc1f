#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the property texts live here so that they are easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
      "anchors": {"files": files, "state": state or [],
        "mechanism": [{"name": n, "where": w} for n, w in mech],
        "observe_at": observe, "hook_needed": hook}})

p("P01", "Every complex FFT engine computes the discrete Fourier transform",
  "For every length n >= 1 (power of two or not) and every finite complex input, in f32 and f64, each forward transform the library offers (default engine, SIMD engine, explicit strategies, plans, radix/mixed-radix entry points, parallel entry point, split re/im, fixed-size in-place, allocating helper) returns X[k] = sum_n x[n] exp(-2*pi*i*n*k/N). The error stays within rounding error of the element type: a small constant times machine epsilon times log2(N), relative to the norm of the spectrum. Lengths an entry point documents as unsupported are refused with an error, never answered wrongly.",
  ["inputs"], "all lengths, all finite inputs, all engines/strategies/plans, both float types",
  "Unit tests sample a handful of small sizes, mostly by forward+inverse round trip with 1e-2..1e-4 tolerances, so a wrong forward that is undone by the wrong inverse, a wrong kernel for one size, or lost f64 precision stays invisible.",
  ["src/fft.rs", "src/fft_kernels.rs", "src/num.rs"],
  [("Stockham / split SIMD / Bluestein selection", "src/fft.rs: FftImpl::fft, stockham_fft_with_threshold"),
   ("small kernels", "src/fft_kernels.rs"), ("plan and strategy dispatch", "src/fft.rs: fft_with_strategy, FftPlan")],
  ["ScalarFftImpl/FftImpl::fft, fft_with_strategy, fft_split, fft_vec", "FftPlan::fft", "fft_parallel", "fft_inplace_stack", "new_fft_impl()"])

p("P02", "Every inverse complex FFT inverts the forward transform with 1/N scaling",
  "For every length and every finite spectrum, each inverse transform returns x[n] = (1/N) sum_k X[k] exp(+2*pi*i*n*k/N) within rounding error of the element type. Applying a forward transform and then any matching inverse (of the same or another engine, strategy, plan or layout) reproduces the original data within rounding error.",
  ["inputs"], "all lengths, all finite spectra, every pairing of forward and inverse entry points",
  "Tests round-trip a few power-of-two sizes of one engine; no test compares an inverse against an independent definition or crosses engines.",
  ["src/fft.rs"], [("conjugation + scaling", "src/fft.rs: ifft, ifft_split, ifft_parallel, FftPlan::ifft, ifft_inplace_stack")],
  ["FftImpl::ifft*", "FftPlan::ifft*", "ifft_parallel", "ifft_split", "ifft_inplace_stack"])

p("P03", "Transform engines, plans and planners carry no history between calls",
  "The result of a call on a reused transform engine, plan or planner depends only on that call's own input: it equals, within rounding error, what a freshly created object returns. This holds whatever sequence of sizes, directions, strategies, layouts and rejected calls came before, on the same object or on any other.",
  ["histories", "inputs"], "all sequences of operations of mixed sizes on one engine/plan/planner, including failed calls",
  "Every existing test builds a fresh engine per transform or repeats one size; the scratch buffers and caches kept inside the engine make the state space of call histories unbounded.",
  ["src/fft.rs", "src/rfft.rs", "src/czt.rs", "src/hilbert.rs"],
  [("scratch buffers kept in the engine", "src/fft.rs: ScalarFftImpl.scratch"), ("twiddle/Bluestein caches", "src/fft.rs: FftPlanner"),
   ("real FFT planner caches", "src/rfft.rs: RfftPlanner")],
  ["any FftImpl/FftPlan/RfftPlanner method after an arbitrary history"],
  [{"name": "scratch", "meaning": "reusable work buffers sized by the largest call so far", "where": "src/fft.rs"},
   {"name": "caches", "meaning": "twiddle, Bluestein and pack tables keyed by length", "where": "src/fft.rs, src/rfft.rs"}])

p("P04", "All data layouts of the complex FFT agree and touch only their own elements",
  "Out-of-place, strided, out-of-place strided, split real/imaginary, packed complex vector, batch, multi-channel and allocating forms return the same values as the plain in-place transform of the same logical sequence, forward and inverse. They never modify inputs that are only read, nor any buffer element outside the addressed positions.",
  ["inputs"], "all lengths, strides, batch shapes and paddings",
  "Tests use one or two strides with buffers exactly filled; nothing checks that skipped elements or read-only inputs are left alone.",
  ["src/fft.rs", "src/num.rs"], [("gather/scatter", "src/fft.rs: *_strided*, *_out_of_place*, batch, multi_channel, fft_complex_vec")],
  ["FftImpl strided/out-of-place/split methods", "FftPlan methods", "batch*, multi_channel*, fft_complex_vec"])

p("P05", "Invalid transform requests return the documented error and change nothing",
  "For every argument combination (empty data, zero stride or hop, mismatched or too-short buffers, lengths an algorithm does not support, huge strides), the fallible transform APIs return normally with the documented error kind: EmptyInput, NonPowerOfTwoNoStd, MismatchedLengths, InvalidStride, InvalidHopSize or InvalidValue. They do not panic, hang or report success, and a rejected request leaves the caller's input data, and the data of every in-place call, exactly as it was (a batch stops at the first rejected element; earlier elements are already transformed). Degenerate but valid sizes such as length 1 succeed.",
  ["inputs", "configurations"], "all argument shapes of the fallible APIs, including extreme values",
  "Tests check a handful of error cases by kind only; overflow, length-1 and leave-untouched behaviour across all entry points is not exercised.",
  ["src/fft.rs", "src/rfft.rs", "src/stft.rs", "src/ndfft.rs", "src/dct.rs", "src/dst.rs", "src/hartley.rs", "src/czt.rs", "src/goertzel.rs", "src/hilbert.rs", "src/cepstrum.rs"],
  [("argument validation", "each public function's prologue")], ["Result of every public fallible function"])

p("P06", "Real-input FFT returns the first half of the full complex spectrum",
  "For every even length n and every finite real input, in f32 and f64, each real forward transform (default, planner, scratch-supplied, pre-planned, direct, packed, fixed-size) yields exactly n/2+1 bins equal to bins 0..n/2 of the discrete Fourier transform of the input, within rounding error. The DC and Nyquist bins have zero imaginary part up to rounding.",
  ["inputs"], "all even lengths, finite inputs, all entry points and scratch contents",
  "Tests check few sizes, mostly powers of two, and only by round trip or against another entry point sharing the same tables.",
  ["src/rfft.rs", "src/fft.rs", "src/lib.rs"], [("half-size complex FFT + unpack twiddles", "src/rfft.rs: rfft_with_scratch, rfft_direct*, rfft_packed"),
   ("fixed-size table transform", "src/rfft.rs: rfft_stack")],
  ["RealFftImpl::rfft*", "RfftPlanner::rfft*", "rfft_direct*, rfft_packed, rfft_stack"])

p("P07", "Real inverse FFT reconstructs the real signal from its half spectrum",
  "For every even length n and every half spectrum that comes from a real signal, each inverse real transform returns that signal within rounding error. This is independent of what the planner transformed before and of the previous contents of scratch and output buffers.",
  ["inputs", "histories"], "all even lengths, signals, planner histories and dirty buffers",
  "Round trips in the tests use one planner, one size, zeroed scratch.",
  ["src/rfft.rs"], [("repack + half-size inverse FFT", "src/rfft.rs: irfft_with_scratch, irfft_packed, irfft_stack")],
  ["RealFftImpl::irfft*", "RfftPlanner::irfft*", "irfft_packed, irfft_stack"])

p("P08", "Multi-dimensional FFTs equal the separable DFT over all axes",
  "For every shape (including non-square, non-power-of-two and dimensions of one), the 2-D and 3-D transforms equal the discrete Fourier transform applied along every axis of the row-major data, in f32 and f64 and with any transform engine. Shapes inconsistent with the buffer or scratch length are refused with an error and without modifying the data.",
  ["inputs"], "all shapes, inputs and scratch lengths",
  "Tests use tiny shapes (2x2, 2x2x2) where swapped axes are indistinguishable.",
  ["src/ndfft.rs"], [("row/column/depth passes", "src/ndfft.rs: fft2d_inplace, fft3d_inplace")], ["fft2d_inplace, fft3d_inplace, flatten_2d, flatten_3d"])

p("P09", "STFT frames are the DFTs of windowed, hop-spaced, zero-padded signal slices",
  "For every signal, window and hop, frame f of the analysis equals the DFT of signal[f*hop .. f*hop+window_len] times the window, with samples past the end taken as zero. The batch, single-frame, parallel and streaming analysis forms agree on the frame values, and the streaming form yields every frame exactly once, in order.",
  ["inputs", "histories"], "all signal lengths, windows, hops and frame counts",
  "Tests use short ramps and one or two hops; tail padding, hop larger than the window and non-power-of-two windows are not covered.",
  ["src/stft.rs"], [("frame slicing + windowing", "src/stft.rs: stft, frame, parallel, StftStream")], ["stft, stft::parallel, frame, StftStream::next_frame, stft_magnitudes"])

p("P10", "Batch inverse STFT reconstructs the original signal",
  "For every signal, hop and window, inverse STFT of the signal's own STFT returns the original sample at every position where the sum of squared overlapping windows is not negligible, and (numerically) zero where no window covers the signal, within rounding error amplified by the window gain. The sequential and parallel inverses agree, the result does not depend on what the output buffer contained, and the single-frame inverse adds exactly window times inverse-DFT to its output region.",
  ["inputs"], "all signals, windows, hops and initial output contents",
  "Tests reconstruct one window/hop pair into a zeroed buffer.",
  ["src/stft.rs"], [("overlap-add and normalisation", "src/stft.rs: istft, inverse_parallel, inverse_frame")], ["istft, inverse_parallel, inverse_frame"])

p("P11", "Streaming inverse STFT emits the same samples as batch reconstruction",
  "For every sequence of pushed frames and every flush, the streaming inverse emits, in order and without loss or duplication, the same samples that batch overlap-add with window-power normalisation produces. Each push emits exactly one hop of samples, and flush emits the remaining tail.",
  ["histories", "inputs"], "all frame sequences, windows, hops (also hop equal to or above the window length), flush positions",
  "Tests push two to five frames of one window length; internal ring-buffer wraparound and compaction depend on history length.",
  ["src/stft.rs"], [("overlap buffer and norm buffer with compaction", "src/stft.rs: IstftStream")], ["IstftStream::push_frame, flush"],
  [{"name": "buffer/norm_buf/buf_pos", "meaning": "sliding overlap accumulators", "where": "src/stft.rs"}])

p("P12", "DCT I-IV match their definitions and DCT-II/III invert each other",
  "For every length and finite input, each cosine transform form (heap, planner, batch, multi-channel, fixed-size) returns its documented cosine sum within rounding error (which grows at most linearly with the length in these direct kernels), for types I, II, III and IV. DCT-III inverts DCT-II, and DCT-I and DCT-IV invert themselves, up to their scale factors.",
  ["inputs"], "all lengths (odd, non-power-of-two), all inputs, all entry points",
  "Tests check 3-4 element vectors or parity between forms.",
  ["src/dct.rs"], [("cosine kernels and planner tables", "src/dct.rs")], ["dct1..dct4, DctPlanner, *_inplace_stack, batch_*, multi_channel_*"])

p("P13", "DST I-IV match their definitions and DST-II/III invert each other",
  "For every length and finite input, each sine transform form (heap, batch, multi-channel, fixed-size) returns its sine sum within rounding error (which grows at most linearly with the length in these direct kernels), for types I, II, III and IV. DST-III inverts DST-II, and DST-I and DST-IV invert themselves, up to their scale factors.",
  ["inputs"], "all lengths, inputs and entry points",
  "Tests check a few tiny vectors and only parity between the forms.",
  ["src/dst.rs"], [("sine kernels", "src/dst.rs")], ["dst1..dst4, *_inplace_stack, batch_*, multi_channel_*"])

p("P14", "Hartley transform matches its definition and is its own scaled inverse",
  "For every length and finite input, the Hartley transform returns H[k] = sum_n x[n] (cos(2*pi*n*k/N) + sin(2*pi*n*k/N)) within rounding error (growing at most linearly with the length) in every form (heap, batch, multi-channel). Applying it twice gives N times the input.",
  ["inputs"], "all lengths and inputs", "Tests compare a 4-element vector.",
  ["src/hartley.rs"], [("cas kernel", "src/hartley.rs")], ["dht, batch, multi_channel"])

p("P15", "Wavelet transforms reconstruct the signal they decomposed",
  "For every signal, wavelet family and number of levels, the single-level forward transform yields average and detail sequences of half the length (an odd last sample is left out; the multi-level form repeats it to complete the pair). For Haar the inverse reconstructs the even-length signal exactly up to rounding, and for the longer filters the inverse of the forward reproduces the interior of the signal (away from the edges by the filter length). The multi-level, batch and per-call forms agree with repeated single-level transforms and none of them panics for any signal length, down to empty, or any number of levels beyond the signal's depth.",
  ["inputs"], "all lengths (odd too), families and level counts",
  "Tests use 4-8 samples and compare lengths, or round-trip only Haar.",
  ["src/wavelet.rs"], [("analysis/synthesis filters", "src/wavelet.rs")], ["haar/db2/db4/sym4/coif1 *_forward/*_inverse, *_multi_level"])

p("P16", "Goertzel returns the DFT magnitude of the bin nearest the target frequency",
  "For every signal and target frequency, the returned value is the magnitude of the DFT bin nearest to target*n/sample_rate, within rounding error, and it is finite and non-negative for finite inputs. Any frequency that is exactly a bin frequency selects that bin.",
  ["inputs"], "all signals, sample rates and bin frequencies", "Tests use one bin of one sine.",
  ["src/goertzel.rs"], [("second-order recurrence", "src/goertzel.rs")], ["goertzel_f32"])

p("P17", "Chirp-Z transform evaluates the z-transform on the requested spiral",
  "For every input, output count m, ratio w and start a, each output k equals sum_n x[n] a^(-n) w^(n*k), within rounding error. With m = n, a = 1 and w = exp(-2*pi*i/n) it equals the DFT.",
  ["inputs"], "all inputs, m, w and a with bounded powers", "Tests use one small DFT-equivalent case.",
  ["src/czt.rs"], [("running powers", "src/czt.rs")], ["czt_f32"])

p("P18", "Hilbert transform returns the analytic signal",
  "For every real input of power-of-two length, the real part of the result equals the input and its spectrum has a zero negative-frequency half and a doubled positive half (DC and Nyquist unscaled), within rounding error. Other lengths are refused with an error, and repeated calls do not influence each other.",
  ["inputs"], "all power-of-two lengths and inputs", "Tests check one 4-sample vector's length.",
  ["src/hilbert.rs"], [("spectral masking", "src/hilbert.rs")], ["hilbert_analytic"])

p("P19", "Cepstrum, mel filterbank and MFCC match their definitions",
  "For every power-of-two-length signal the real cepstrum equals the inverse DFT of the log magnitude of the DFT of the input, within rounding error. For every spectrum, sample rate and filter count, mel energies are the sums of the spectrum under triangular filters whose corners are spaced evenly on the mel scale (zero-width filters give zero), and MFCCs are the first requested DCT-II coefficients of the log mel energies. The batch form equals the single form per frame, and asking for more coefficients than filters is an error.",
  ["inputs"], "all signals, lengths, filter counts and rates", "Tests check shapes and finiteness on one vector.",
  ["src/cepstrum.rs"], [("log spectrum", "src/cepstrum.rs")], ["real_cepstrum, mel/mfcc functions, batch forms"])

p("P20", "Window functions match their textbook definition at every length",
  "For every length and parameter, each window (Hann, Hamming, Blackman, Kaiser, Tukey, Bartlett, Bohman, Nuttall and the fixed-size variants) has exactly the requested number of samples. The samples are finite, bounded by 1 up to rounding, symmetric (Hann, Hamming and Blackman in the periodic sense w[i] = w[len-i], the others in the sense w[i] = w[len-1-i]) and equal to the standard formula for that window.",
  ["inputs"], "all lengths including 0, 1, 2 and all parameters in range", "Tests check lengths and one or two samples.",
  ["src/window.rs", "src/window_more.rs"], [("closed-form samples", "src/window.rs, src/window_more.rs")], ["all window functions"])

p("P21", "Spectrogram numerics and colour mapping are monotone, bounded and exact",
  "Magnitude spectrograms equal the magnitudes of the Hann-windowed DFT of every hop, with their true maximum. Decibel conversion equals 20*log10 of the ratio clamped to the dynamic range and is monotone; log-frequency mapping is monotone, stays in range, reaches both ends, and each output bin is the mean of the bins mapped to it. Every colour map interpolates its palette, gives the end colours at the ends, clamps values outside the range, and 8-bit and 16-bit colours correspond.",
  ["inputs"], "all magnitudes, ranges, sizes and colour maps", "Tests compare a few values.",
  ["src/visual/spectrogram.rs", "src/stft.rs"], [("scaling and colormaps", "src/visual/spectrogram.rs")], ["stft_magnitudes, scaling and colour functions"])

p("P22", "Song index identifies a file by name, then by content, else adds it",
  "For every sequence of index and identify operations, identify returns the entry last stored under the same file name without reading the file; otherwise the entry last stored for byte-identical content; otherwise it adds the file as a new entry under its name and content. Files with different names and different content, of any size, are never identified with each other. A file that cannot be read is reported as an error and leaves the index unchanged.",
  ["histories", "inputs", "fault_sequences"], "all operation sequences, duplicate contents/names, missing or unreadable files, file sizes around the read-buffer size",
  "Tests do one or two operations on tiny files.", ["src/media/index.rs"], [("hash and name maps", "src/media/index.rs")], ["SongIndex methods"])

p("P23", "Multi-threaded transforms equal the serial result under every tuning and load",
  "Parallel transforms (FFT, inverse, STFT, inverse STFT) return the same values as the serial ones within rounding error, whatever the thread count, tuning setters or environment variables, and however many threads use the library at once. Concurrent use of the library, including changing tuning while transforms run, is free of data races, deadlocks and panics.",
  ["schedules", "configurations", "inputs"], "all thread interleavings, pool sizes, tuning values and concurrent callers",
  "Tests run one size on one default pool.", ["src/fft.rs", "src/stft.rs"],
  [("rayon row/column and butterfly stages", "src/fft.rs: ifft/fft parallel paths"), ("per-frame tasks", "src/stft.rs: parallel, inverse_parallel"),
   ("tuning atomics", "src/fft.rs: set_parallel_fft_*")], ["fft_parallel, ifft_parallel, stft::parallel, inverse_parallel"])

p("P24", "No execution of the safe API has undefined behaviour",
  "No sequence of safe API calls with any arguments reads or writes out of bounds, uses freed or uninitialised memory, creates aliased mutable access, or otherwise executes undefined behaviour, with f32 and f64 elements and any user-written engine or closure. A transform engine whose scratch is not synchronised cannot be shared between threads by safe code.",
  ["inputs", "histories", "schedules"], "all inputs and histories, all engines (scalar, SSE/AVX, parallel)",
  "Tests run uninstrumented; an out-of-bounds or aliased access that happens to give the right answer passes.",
  ["src/fft.rs", "src/rfft.rs", "src/fft_kernels.rs", "src/dct.rs", "src/num.rs"], [("unsafe SIMD loads, interior mutability, transmutes", "src/fft.rs, src/rfft.rs, src/num.rs")],
  ["AddressSanitizer, Miri and ThreadSanitizer reports"])

p("P25", "Every supported build configuration computes the same results",
  "With any combination of cargo features and CPU target features the crate supports (default, no_std, parallel, simd, sse, precomputed tables, AVX2/FMA and others), every transform available in that configuration gives the same results as the default configuration within rounding error. Operations a configuration cannot perform are refused with an error, never answered wrongly.",
  ["configurations", "inputs"], "all supported feature sets and CPU targets, all inputs",
  "The suite runs two feature sets on the default CPU target; no_std is only compiled, never executed.",
  ["Cargo.toml", "src/fft.rs", "src/rfft.rs", "src/num.rs", "src/lib.rs"], [("cfg-selected kernels and dispatch", "src/fft.rs, src/rfft.rs, src/num.rs")], ["public API compiled under each configuration"])

p("P26", "Stack-only APIs never allocate and equal their heap counterparts",
  "The fixed-size, in-place entry points (FFT, real FFT, DCT, DST, wavelet, window, STFT-frame and other functions documented as stack-only) perform no heap allocation in any call. They return the same values as the heap-based form for every supported size, and reject unsupported sizes with an error.",
  ["inputs"], "all supported fixed sizes and inputs", "No test observes allocation; parity is checked for one or two sizes.",
  ["src/fft.rs", "src/rfft.rs", "src/dct.rs", "src/dst.rs", "src/hartley.rs", "src/wavelet.rs", "src/window.rs"], [("const-generic in-place variants", "*_inplace_stack, *_stack functions")],
  ["allocator event counter around each call"])

p("P27", "Planner tables hold the exact roots of unity for their length",
  "Every twiddle, Bluestein and real-FFT table returned or cached for length n contains exp(-2*pi*i*k/n) (or the documented chirp) for each index, accurate to rounding error regardless of index, length or the order in which tables were requested. Repeated requests for one length return the same shared table.",
  ["inputs", "histories"], "all lengths and request orders", "Tests compare one or two lengths at loose tolerance.",
  ["src/fft.rs", "src/rfft.rs"], [("table construction and caching", "src/fft.rs: FftPlanner; src/rfft.rs: twiddle tables")], ["FftPlanner::get_twiddles/get_bluestein, TwiddleFactorBuffer, RfftPlanner tables"])

p("P28", "Complex arithmetic and layout conversions are exact",
  "Complex addition, subtraction, multiplication, negation, conjugation and polar/exponential construction equal the mathematical definition within one rounding of the exact result per operation. Conversions between interleaved, split and packed complex containers preserve every value and its order, for every length.",
  ["inputs"], "all finite values and lengths", "Tests check one or two products.",
  ["src/num.rs"], [("operator impls, ComplexVec and SplitComplex", "src/num.rs")], ["Complex ops, ComplexVec, SplitComplex, copy helpers"])

p("P29", "The audio-to-spectrogram tool decodes every sample and draws the right picture",
  "For every valid WAV or FLAC file, the command-line tool decodes all samples at their true scale (averaging channels) with the file's sample rate. The picture it writes has the requested layout and each pixel is the colour of the corresponding time-frequency magnitude; invalid, empty or unsupported files give an error instead of a crash or a wrong picture.",
  ["inputs", "fault_sequences"], "all channel counts, bit depths, rates, lengths, truncated/corrupted files",
  "Tests use one or two fixture files and check that an image exists.",
  ["sanity-check/src/lib.rs", "sanity-check/src/main.rs"], [("decode, STFT, render", "sanity-check/src")], ["library functions and the binary's output files"])

p("P30", "The build helper enables only features that exist and match the CPU",
  "For every CPU architecture, CPU flag list and core count, the build helper's configuration names only features the crate defines, enables AVX-512, AVX2 or SSE paths only when that CPU flag is listed (the widest available one), and enables threading only for more than one core. User-requested extra features are all passed on, and every generated command carries exactly the configured features, flags and arguments.",
  ["inputs", "configurations"], "all CPU flag sets, architectures and arguments", "Tests check the current host only.",
  ["xtask/src/lib.rs", "xtask/src/main.rs"], [("feature detection", "xtask/src")], ["detected feature list, spawned command line"])

p("P31", "The browser front end streams and draws the same spectrogram as the library",
  "Samples pushed in chunks of any size (empty ones included) come back from compute_frame as the opaque coloured rows of consecutive Hann-windowed 1024-sample frames that overlap by half: in order, none lost or repeated, at most one row per call and none while fewer samples than a window are buffered. Each pixel is the chosen map's colour of its bin's decibels relative to the largest magnitude so far (floor -80 dB). reset_state starts afresh, set_colormap changes colours only, threads do not disturb each other, and the other exported functions return what the library defines. The canvas painter puts the colour of frame x, bin y at pixel (x, y); the page analyses the first channel of the chosen file with window 1024 and hop 512; the service worker answers from its store, else from the network. The bundled server returns every static file's exact bytes, the index page for unknown paths, permits any origin, and serves nothing outside its directory.",
  ["inputs", "histories"], "all chunkings of a signal, resets and colour changes in between, pictures of any shape, request paths", "Tests push one or two fixed chunks, paint one small picture and never start the server.",
  ["web-spectrogram/src/lib.rs", "web-spectrogram/src/main.rs", "web-spectrogram/app.mjs", "web-spectrogram/sw.js"], [("streaming rows", "web-spectrogram/src/lib.rs"), ("painting", "web-spectrogram/app.mjs"), ("server", "web-spectrogram/src/main.rs")], ["returned pixel bytes, painted image data, HTTP answers"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
        f.write(json.dumps(x) + "\n")
print(len(P))
