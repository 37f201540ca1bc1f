"""Per property: how cases are made and what makes one count as distinct and non-trivial."""
_SIG = " Signals: 14 shapes (noise, impulses, tones, chirps, DC, alternating, sparse, huge and tiny magnitudes up to 1e+-30, ...), seeded."
_LEN = " Lengths: every small length, powers of two and neighbours, primes, highly composite, and log-uniform random ones."
RULES = {
    "P01": "One case = one length, type and signal run through every forward entry point (about 40 in the default build), each compared with an f64 reference DFT; distinct = different (type, direction, length, signal shape)." + _LEN + _SIG,
    "P02": "One case = one length, type and spectrum through every inverse entry point against an f64 reference, or a forward/inverse pair drawn from all engines; distinct = different (type, length, shape, pair)." + _LEN + _SIG,
    "P03": "One case = a random history of calls (sizes, directions, strategies, layouts, rejected calls) on one reused object, each answer compared with a fresh object's; distinct = different case.",
    "P04": "One case = one logical sequence laid out in a form (strided, split, batch, ...) inside guard-filled buffers; values compared with the plain in-place transform, guards and read-only inputs compared bit by bit; distinct = different (form, length, stride, type).",
    "P05": "One case = one entry point with one valid or hostile argument combination; the monitor compares the returned error kind, panics, time and the caller's data before/after; distinct = different (entry point, arguments).",
    "P06": "One case = one real signal through every real forward entry point against the f64 DFT; distinct = different (type, length, shape)." + _LEN + _SIG,
    "P07": "One case = one half spectrum of a real signal through every inverse real entry point (dirty scratch, dirty output, used planners); distinct = different (type, length, shape)." + _LEN + _SIG,
    "P08": "One case = one 2-D/3-D shape, type, direction and engine against the separable f64 DFT, or one inconsistent shape; distinct = different (shape, type, direction, engine).",
    "P09": "One case = one signal, window, hop through batch, single-frame, parallel and streaming analysis against an f64 windowed DFT; distinct = different (length, window length, hop).",
    "P10": "One case = one signal, window, hop analysed and inverted (sequential, parallel, dirty output); every output sample is judged with a window-gain-dependent bound; distinct = different (length, window, hop).",
    "P11": "One case = one frame sequence pushed through IstftStream; the concatenated output is compared sample by sample with an f64 overlap-add model, plus the count per push and flush; distinct = different (window length, hop, frames).",
    "P12": "One case = one transform type, length and signal through every form against the exact-angle f64 sum, plus the inverse relation; distinct = different (type, length, shape).",
    "P13": "One case = one transform type, length and signal through every form against the exact-angle f64 sum, plus the inverse relation and planner tables; distinct = different (type, length, shape).",
    "P14": "One case = one length and signal through every Hartley form against the exact-angle f64 sum, plus involution; distinct = different (length, shape).",
    "P15": "One case = one family, length, level count and signal: lengths, reconstruction, linearity/gain relations, multi-level and batch agreement, panic monitor; distinct = different (family, length, levels).",
    "P16": "One case = one signal, sample rate and target against |DFT| of the nearest bin (both neighbours accepted at ties); distinct = different (length, bin, rate).",
    "P17": "One case = one input, m, w, a against a direct f64 evaluation with a conditioning-aware bound; distinct = different (n, m, shape).",
    "P18": "One case = one signal of power-of-two length (or a refused length) on a reused or fresh call, spectrum checked bin by bin; distinct = different (length, shape).",
    "P19": "One case = one spectrum/filter/coefficient configuration against an f64 model; distinct = different configuration.",
    "P20": "One case = one window kind, length and parameter, every sample against the f64 formula, symmetry, bounds; distinct = different (kind, length, parameter).",
    "P21": "One case = one spectrogram/dB/bin-mapping/colour configuration against an exact model; distinct = different configuration.",
    "P22": "One case = one history of index and identify operations over real files (shared names, shared content, unreadable files, injected descriptor exhaustion, short reads) checked step by step against a two-map model; distinct = different history.",
    "P23": "One case = a parallel entry point under a tuning, thread pool, environment or concurrent load, compared with the serial result or the f64 reference, under panic and deadlock monitors; distinct = different (entry point, size, tuning, pool).",
    "P24": "One case = one case of another property's workload (all safe entry points, hostile arguments included) executed under AddressSanitizer, MemorySanitizer, ThreadSanitizer or Miri; distinct = different (tool, case).",
    "P25": "One case = one workload case of another property executed in one build configuration against the same f64 references; distinct = different (configuration, case).",
    "P26": "One case = one fixed-size entry point and N (0, 1, odd, even, powers of two up to 16384) under the per-thread allocation counter, compared with the heap form and an f64 reference, or one unsupported size; distinct = different (entry point, N, shape).",
    "P27": "One case = a history of table requests on one planner, every entry compared with the exactly reduced f64 root of unity; distinct = different (table, length, history).",
    "P28": "One case = a batch of complex operands (special magnitudes included) per operation against exact f64 arithmetic, or one container conversion compared bit by bit; distinct = different case.",
    "P29": "One case = one generated WAV/FLAC file (known samples) through the real tool's reader and binary; distinct = different (format, depth, channels, options).",
    "P31": "One case = one history of chunks, resets and colour changes pushed through compute_frame (every row's pixels judged against an f64 DFT), one call of another exported function, one picture painted by the page's script in node with recording browser stand-ins, or one batch of requests to the running server; distinct = different (kind, lengths, signal shape, steps or picture shape).",
    "P30": "One case = one (architecture, CPU flags, core count, extra features) tuple, its configuration and every generated command; distinct = different tuple.",
}
ASSUME = {
    "P22": ["files are read from a scratch directory of this run; the oracle compares file contents byte by byte"],
    "P23": ["interleavings are those the scheduler produced under stress and injected delays, not all of them"],
    "P24": ["AddressSanitizer misses intra-object and reused-memory errors; Miri runs small sizes only", "interleavings are those that occurred"],
    "P31": ["the page runs in node with stand-ins for canvas, document and audio decoder; no real browser, WebGL or WebGPU is available", "the server part is skipped (and said so in the evidence) when port 3000 is taken"],
    "P26": ["the global allocator of the harness sees every heap allocation of the process"],
}
