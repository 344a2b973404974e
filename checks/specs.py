# One entry per property: what is built and how. See engine/run.py.
SPECS = {
    "P01": dict(
        srcs=["p01_dft.cpp"], libs=["dft"], archs=["sse2", "avx2", "avx512"],
        archs_thorough=["generic", "sse2", "sse41", "avx", "avx2", "avx512"], level="exploration",
        rule="A case draws a size (every size 1..512 in order; powers of two to 2^18; products of small radices; "
             "primes and primes times small radices), direction, in/out of place, temp given or null, misalignment and "
             "a complex signal. Non-trivial: size>1 and a non-zero signal."),
    "P02": dict(
        srcs=["p02_realdft.cpp"], libs=["dft"], archs=["sse2", "avx2", "avx512"], libopt="-O1",
        archs_thorough=["generic", "sse2", "sse41", "avx", "avx2", "avx512"], level="exploration",
        rule="A case draws an even size (every even size to 400; products of small radices; powers of two to 65536), "
             "layout, direction, in/out of place, temp given or null, misalignment and data; or two spectra to multiply. "
             "Non-trivial: a non-zero signal."),
    "P03": dict(
        srcs=["p03_mddft.cpp"], libs=["dft"], archs=["sse2", "avx512"], libopt="-O1",
        archs_thorough=["generic", "sse2", "sse41", "avx", "avx2", "avx512"], level="exploration",
        rule="A case draws 1..4 axis lengths (1..128, total up to 2400), static or dynamic shape, direction, in/out of "
             "place, temp given or null and data. Non-trivial: more than one element and a non-zero signal."),
    "P04": dict(
        srcs=["p04_dct.cpp"], libs=["dft"], archs=["sse2", "avx512"], libopt="-O1",
        archs_thorough=["generic", "sse2", "sse41", "avx", "avx2", "avx512"], level="exploration",
        rule="A case draws a size (every size to 300, sampled to 2000), direction, in/out of place, temp given or null, "
             "misalignment and a signal. Non-trivial: size>1 and a non-zero signal."),
    "P06": dict(
        srcs=["p06_convolve.cpp"], libs=["dft"], archs=["sse2", "avx512"], libopt="-O1",
        archs_thorough=["generic", "sse2", "sse41", "avx", "avx2", "avx512"], level="exploration",
        rule="A case draws two signals (real or complex, 1..300 samples) and an operation, or a filter (1..500 taps), a "
             "block size (1..256) and a history of pushes of random sizes, resets and data changes. Non-trivial: non-zero "
             "signals with more than one sample, or a history with at least two pushes."),
    "P08": dict(
        srcs=["p08_sharing.cpp"], libs=["dft"], archs=["avx2"], libopt="-O1", san={"avx2": ["-fsanitize=thread"]},
        shards=4, noaslr=True, level="exploration",
        rule="A case draws a plan kind (complex, real, DCT, 2-D, 2-D real), size (including sizes done by convolution), "
             "direction, 2..4 threads and 1..4 executions per thread; or a set of sizes requested from the plan cache by "
             "2..4 threads with concurrent clears. Non-trivial: size>1. Thread schedules are the operating system's; the "
             "thread sanitizer reports conflicting accesses whatever the interleaving."),
    "P10": dict(
        srcs=["p10_fir.cpp"], tscale=8, libs=["dsp"], archs=["sse2", "avx512"], libopt="-O1",
        archs_thorough=["generic", "sse2", "sse41", "avx", "avx2", "avx512"], level="exploration",
        rule="A case draws taps (1..140), a signal (real, complex or mixed precision), an API (class, expression by value or "
             "by referenced state, in place) and a history of blocks, resets and tap changes; moving sums, delays and ring "
             "buffers likewise. Non-trivial: non-zero signal and taps with more than one sample."),
    "P11": dict(
        srcs=["p11_iir.cpp"], libs=["dsp"], archs=["sse2", "avx512"], libopt="-O1", tscale=8,
        archs_thorough=["generic", "sse2", "sse41", "avx", "avx2", "avx512"], level="exploration",
        rule="A case draws 1..64 second-order sections with poles of radius up to 0.9, a signal, an API (filter class, "
             "expression with owned, dynamic or referenced state, nested cascades, a range with a start offset, pipelined "
             "form) and a history of blocks and resets. Non-trivial: non-zero signal with more than one sample."),
    "P12": dict(
        srcs=["p12_bqdesign.cpp"], archs=["sse2", "avx512"],
        archs_thorough=["generic", "sse2", "sse41", "avx", "avx2", "avx512"], level="exploration",
        rule="A case draws a filter kind, a frequency in 0.002..0.495, Q in 0.2..20, a gain in -24..24 dB and three "
             "frequencies at which to compare the response (besides 0, the corner and the Nyquist frequency). Every case "
             "is non-trivial."),
    "P13": dict(
        srcs=["p13_iirdesign.cpp"], archs=["sse2", "avx512"],
        archs_thorough=["generic", "sse2", "sse41", "avx", "avx2", "avx512"], level="exploration",
        rule="A case draws a prototype (Butterworth, Chebyshev I/II, Bessel), order 1..24, transform, band edges, ripple, "
             "sample rate and frequencies; or an arbitrary set of zeros and poles to split into sections. Non-trivial: at "
             "least one pole."),
    "P14": dict(
        srcs=["p14_windows.cpp"], archs=["sse2", "avx512"],
        archs_thorough=["generic", "sse2", "sse41", "avx", "avx2", "avx512"], level="exploration",
        rule="A case draws a window type, size (2..400), parameter, symmetry and interface; or a filter kind, odd or even "
             "number of taps (3..300), window, band edges and normalisation. Non-trivial: more than two points."),
    "P15": dict(
        srcs=["p15_src.cpp"], libs=["dsp"], archs=["sse2", "avx512"], libopt="-O1",
        archs_thorough=["generic", "sse2", "sse41", "avx", "avx2", "avx512"], level="exploration",
        rule="A case draws a ratio (1..12 by 1..12 or a listed one such as 160/147), quality, cutoff, scale, signal and a "
             "history of blocks (pull, push, skip, end of stream) of 0..300 samples. Non-trivial: a block that continues an "
             "earlier one."),
    "P17": dict(
        srcs=["p17_dsp.cpp"], archs=["sse2", "avx512"],
        archs_thorough=["generic", "sse2", "sse41", "avx", "avx2", "avx512"], level="exploration",
        rule="A case draws a generator, processor or conversion, its parameters, a block of 1..400 samples and whether it is "
             "applied to scalars or as an expression. Non-trivial: more than one sample or a function of random values."),
    "P16": dict(
        srcs=["p16_ebu.cpp"], archs=["sse2", "avx512"],
        archs_thorough=["generic", "sse2", "sse41", "avx", "avx2", "avx512"], level="exploration",
        rule="A case draws a sample rate, refresh factor, 1..5 speakers and 1..6 segments of 0..60 packets of tones, noise or "
             "squares at any level, with start, stop and reset between them; or a steady tone. Non-trivial: more than one "
             "packet."),
    "P60": dict(
        srcs=["p60_capi.cpp"], libs=["dft", "dsp"], capi=True, archs=["sse2", "avx512"], libopt="-O1",
        archs_thorough=["generic", "sse2", "sse41", "avx", "avx2", "avx512"], level="exploration",
        rule="A case draws a plan (1-4 dimensions, complex, real or DCT), direction, in place or not, scratch or none; a "
             "filter and a history of blocks and resets; a history of memory operations; or a history of failing and "
             "succeeding calls on two threads. Non-trivial: more than one sample or operation."),
    "P05": dict(
        srcs=["p05_dispatch.cpp"], libs=["dft", "dsp"], mode="multi", archs=["sse2"], libopt="-O1",
        archs_thorough=["sse2"], multi_archs=["sse2", "avx2", "avx512"],
        thorough=dict(multi_archs=["sse2", "sse41", "avx", "avx2", "avx512"]), level="exploration",
        rule="A case draws a transform, convolution or stream processor, its parameters, data and block history, and runs it "
             "on all eight x86 instruction sets of one multi-architecture build. Non-trivial: more than one sample."),
    "P22": dict(
        srcs=["p22_reduce.cpp"], archs=["sse2", "avx512"],
        archs_thorough=["generic", "sse2", "sse41", "avx", "avx2", "avx512"], level="exploration",
        rule="A case draws an element type, a form (vector, misaligned reference, slice, arithmetic, reversed, 2-D or 3-D "
             "tensor), sizes (every size to 150, sampled to 3000) and values up to the limits of the type; or histogram bins "
             "and data on all sides of them. Non-trivial: more than one element."),
    "P21": dict(
        srcs=["p21_expr1d.cpp"], archs=["sse2", "avx512"],
        archs_thorough=["generic", "sse2", "sse41", "avx", "avx2", "avx512"], level="exploration",
        rule="A case draws an expression tree of depth 0..5 over data, counters, lambdas, slices, padding, concatenation, "
             "reversal, arithmetic, selection and casts (0..300 elements or infinite), and a way to evaluate it (whole, a "
             "sub-range, blocks, vectors of 1..64 elements anywhere, rendered); or a generator and block sizes. Non-trivial: "
             "more than one element."),
    "P20": dict(
        srcs=["p20_tensor.cpp"], archs=["sse2", "avx512"],
        archs_thorough=["generic", "sse2", "sse41", "avx", "avx2", "avx512"], level="exploration",
        rule="A case draws a tensor of 1..4 dimensions (up to 40 elements an axis; allocated, adopted or external memory with "
             "any strides, negative ones too) and a history of 1..9 slices, boxes, transposes, reshapes, writes, copies and "
             "iterations. Non-trivial: more than one element and more than one step."),
    "P27": dict(
        srcs=["p27_exprnd.cpp", "p27_trees.cpp"], archs=["sse2", "avx512"],
        archs_thorough=["generic", "sse2", "sse41", "avx", "avx2", "avx512"], level="exploration",
        rule="A case draws an expression tree of depth 0..4 over 1-3 dimensional tensors and views, counters, lambdas, slices, "
             "padding, reversal, concatenation along either axis, reshaping, stretched axes and arithmetic (1..20 elements an "
             "axis), the axis, vector width and box to evaluate it by, and the layout of the output. Non-trivial: more than "
             "one element."),
    "P24": dict(
        srcs=["p24_convert.cpp"], archs=["sse2", "avx512"], archs_thorough=["generic", "sse2", "avx2", "avx512"], level="exploration",
        rule="A case draws one of the 49 pairs of sample types, an operation, frames (0..200), channels (1..8), alignment and "
             "values: uniform, of any magnitude, near steps of the integer types, at and beyond full scale. Non-trivial: all."),
    "P25": dict(
        srcs=["p25_random.cpp"], archs=["sse2", "avx512"],
        archs_thorough=["generic", "sse2", "sse41", "avx", "avx2", "avx512"], level="exploration",
        rule="A case draws a type, seeds, a form of seeding, lanes (1..20), a distribution with its parameters and 1..4 calls; "
             "or a state whose next value is extreme; or the kind, size (0..4000) and state holding of an expression. "
             "Non-trivial: all but empty ranges, which are discarded."),
    "P30": dict(
        srcs=["p30_i8.cpp", "p30_i16.cpp", "p30_i32.cpp", "p30_i64.cpp", "p30_f32.cpp", "p30_f64.cpp"], archs=["sse2", "avx512"],
        archs_thorough=["sse2", "sse41", "avx", "avx2", "avx512"], level="exploration",
        rule="A case draws one of ten element types, a number of lanes (1..64, powers of two or not) and values (small, random "
             "bits, limits of the type, halves, powers of two, infinities and NaN), and evaluates some ninety operations on "
             "them. Non-trivial: more than one lane."),

    "P31": dict(
        srcs=["p31_f32.cpp", "p31_u8.cpp", "p31_i16.cpp", "p31_f64.cpp", "p31_c32.cpp", "p31_matrix.cpp"], archs=["sse2", "avx512"],
        archs_thorough=["generic", "sse2", "sse41", "avx", "avx2", "avx512"], level="exploration",
        rule="A case draws an element type (u8, i16, f32, f64, complex f32), a number of lanes (1..64, powers of two or not) and "
             "random contents, and evaluates every permutation (with groups of 1, 2 and 4 and arbitrary patterns). Non-trivial: "
             "all."),
    "P32": dict(
        srcs=["p32_num.cpp", "p32_num2.cpp", "p32_nest.cpp", "p32_cast.cpp", "p32_cast2.cpp"], archs=["sse2", "avx512"],
        archs_thorough=["generic", "sse2", "sse41", "avx", "avx2", "avx512"], level="exploration",
        rule="A case draws an element type (numbers, complex, short vectors), a number of lanes, addresses, strides, indices and "
             "contents and makes loads, stores, gathers, scatters and a sequence of element accesses; or converts random and "
             "extreme values between every pair of ten types. Non-trivial: all."),
    "P40": dict(
        srcs=["p40_f32.cpp", "p40_f64.cpp"], archs=["sse2", "avx512"],
        archs_thorough=["generic", "sse2", "sse41", "avx", "avx2", "avx512"], level="exploration",
        rule="A case draws a function of some forty, single or double precision, a form (numbers, vectors of 1..16 lanes, an "
             "expression) and up to 48 arguments: moderate, of any magnitude, near the edges, zeros and poles of the function, or "
             "mixed in one vector. Non-trivial: all."),
    "P41": dict(
        srcs=["p41_c32.cpp", "p41_c64.cpp"], archs=["sse2", "avx512"],
        archs_thorough=["generic", "sse2", "sse41", "avx", "avx2", "avx512"], level="exploration",
        rule="A case draws one of seventeen functions and a form (numbers, vectors of 1..8 lanes, an expression), or a kind of "
             "operators and a number of lanes (1..13), and up to 24 arguments: moderate, of any magnitude, on axes and diagonals, "
             "or mixed. Non-trivial: all."),
    "P50": dict(
        srcs=["p50_wav.cpp"], libs=["io"], archs=["sse2"], archs_thorough=["sse2"], san={"sse2": ["-fsanitize=address,bounds,integer-divide-by-zero"]}, shards=6, level="exploration",
        rule="A case draws the type of the samples in memory and in the file, channels, rate, container, frames and values; the "
             "way the samples are written; or a file laid out by the check (foreign chunks, extensible format) and a history of "
             "reads and seeks. Non-trivial: all."),
    "P51": dict(
        srcs=["p51_decode.cpp"], libs=["io"], archs=["sse2"], archs_thorough=["sse2"], san={"sse2": ["-fsanitize=address,bounds,integer-divide-by-zero"]}, shards=6, level="exploration",
        rule="A case draws a signal (1-8 channels, 4-24 bits, up to 3000 frames), encodes it as FLAC with random blocks, channel "
             "decorrelation, subframe kinds, predictors, partitions and metadata, or draws an MPEG layer III stream; and a "
             "history of reads and seeks. Non-trivial: all."),
    "P52": dict(
        srcs=["p52_damaged.cpp"], libs=["io"], archs=["sse2"], archs_thorough=["sse2"], san={"sse2": ["-fsanitize=address,bounds,integer-divide-by-zero"]}, shards=6, level="exploration",
        rule="A case draws a WAV, RIFF64, W64, FLAC or MP3 stream (or noise that starts like one), damages it in 0-12 places (bits, "
             "fields with edge values, cuts, insertions, repeats; in FLAC with right checksums too), and draws a history of reads "
             "and seeks. Non-trivial: the reader accepts the stream."),
    "P53": dict(
        srcs=["p53_npy_int.cpp", "p53_npy_float.cpp", "p53_file.cpp"], libs=["io"], archs=["sse2"], archs_thorough=["sse2"],
        san={"sse2": ["-fsanitize=address,bounds,integer-divide-by-zero"]}, shards=6, level="exploration",
        rule="A case draws an element type of thirteen, 1-4 axes, a memory layout and values and saves them; or lays out a .npy file "
             "(versions, byte and axis order, field order, foreign fields, spacing, mismatches), possibly damaged, and loads it; "
             "or draws a history of reads, writes, seeks and appends on a file. Non-trivial: more than one element or step."),
    "P26": dict(
        srcs=["p26_filters.cpp"], libs=["dsp"], archs=["sse2"], libopt="-O1", tscale=4,
        archs_thorough=["generic", "sse2", "avx2", "avx512"], level="exploration",
        rule="A case composes up to five operations (arithmetic with counters and data on either side, FIR, IIR of 1..9 "
             "sections, moving sum, delay, fractional delay, functions, handles) over a placeholder and applies the filter up to "
             "five times through eleven forms of the interface to buffers, finite, infinite, owning and stateful sources; or "
             "substitutes placeholders of three keys in expressions. Non-trivial: at least one operation and one element."),
    "P61": dict(
        srcs=["p61_memory.cpp"], archs=["sse2"], archs_thorough=["sse2"],
        san={"sse2": ["-fsanitize=address,bounds,integer-divide-by-zero"]}, level="exploration",
        rule="A case draws a history of up to 40 allocations, reallocations, references and releases of blocks of 0..3000 bytes "
             "aligned to 1..32768; an owner of memory; a history of up to 60 operations on two small containers; two fractions; or "
             "values, widths and containers to be shown as text. Non-trivial: all."),
    "P62": dict(
        srcs=["p62_ring.cpp"], archs=["sse2"], archs_thorough=["sse2"],
        san={"sse2": ["-fsanitize=address,bounds,integer-divide-by-zero"]}, level="exploration", shards=4, tscale=8,
        rule="A case draws the element type, the storage and its capacity (1..300) and either a history of up to 60 puts and gets "
             "of one thread, or the number of elements, the sizes and the pauses of a producing and a consuming thread. "
             "Non-trivial: more elements than the capacity. Thread schedules are the operating system's."),
    "P63": dict(
        srcs=["p63_helpers.cpp"], archs=["sse2"], archs_thorough=["sse2"],
        san={"sse2": ["-fsanitize=address,undefined", "-fno-sanitize=vptr,function"]}, level="exploration", tscale=4,
        rule="A case draws integers of every magnitude (with common factors), a range, a history of up to 30 operations on four "
             "function objects, arguments of calls, or constant strings of few letters. Non-trivial: all."),
}
