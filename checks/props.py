# The listed properties: the single source of properties.jsonl and of MANIFEST.json (engine/gen.py writes both).
NOT_APPLICABLE = []
NOTES = ("Every check compiles the harness and the library sources it needs from /repo's working tree with clang, runs "
         "generated cases in forked workers, shrinks any failing case on its choice sequence and replays it three times "
         "before reporting it. See DESIGN.md.")
SEARCH = ("Generated-input search against an explicit oracle; it shows the absence of violations on the cases explored, "
          "not on all inputs. ")
PROPS = [
    dict(
        id="P01", title="Complex DFT equals the defining sum for every size, direction and calling mode",
        statement="For every transform size, the forward and inverse complex transforms equal the defining unnormalised "
                  "discrete Fourier sums up to rounding (error growing slowly with the size), in single and double "
                  "precision, whichever algorithm the size selects. The result is the same in place and out of place and "
                  "with or without a caller-supplied scratch buffer, the input is left unmodified when out of place, and "
                  "nothing outside the output and the declared scratch size is written. A forward followed by an inverse "
                  "transform gives back the signal times the size.",
        over=["inputs", "configurations"],
        forall="all sizes 1..512, powers of two to 2^18, smooth, prime and mixed sizes; all signals; both directions; in and "
               "out of place; aligned or not; every instruction set this CPU has",
        why="The tests run random data on a few dozen sizes; sizes select among many algorithms (hand-written radices, "
            "mixed radix, arbitrary-length convolution) and code paths depend on size, direction and placement together.",
        files=["include/kfr/dft/fft.hpp", "include/kfr/dft/impl/fft-impl.hpp", "include/kfr/dft/impl/ft.hpp",
               "include/kfr/dft/impl/bitrev.hpp", "include/kfr/dft/impl/dft-impl.hpp", "src/dft"],
        mech=[("size to algorithm selection and stage list", "include/kfr/dft/impl/dft-impl.hpp"),
              ("power-of-two stages, autosorting, bit reversal", "include/kfr/dft/impl/fft-impl.hpp"),
              ("butterflies and twiddles", "include/kfr/dft/impl/ft.hpp")],
        observe=["dft_plan<T>::execute", "dft", "idft"],
        how="sizes, directions, placements and signals against a direct long-double DFT (sampled bins for large sizes), "
            "plus round trip, linearity and shift relations",
        level_note=SEARCH + "Oracle: long-double summation, tolerance c*eps*log2(n)*||x||. Sizes to 512 are covered "
                   "exhaustively on each run, larger ones sampled."),
    dict(
        id="P02", title="Real DFT equals the complex DFT of the real signal, in every layout",
        statement="For every even size, the real-to-complex transform gives the first half (and the Nyquist bin) of the "
                  "defining Fourier sums of the real input, in the plain and in the packed (Perm) layout, and the "
                  "complex-to-real inverse gives back the signal times the size, in and out of place. Multiplying two "
                  "spectra in either layout and transforming back gives the circular convolution of the signals.",
        over=["inputs", "configurations"],
        forall="every even size to 400, smooth sizes and powers of two to 65536, both layouts, both directions, in and out of "
               "place, all signals",
        why="The tests compare a handful of sizes; packing, Nyquist handling and placement interact with the size class.",
        files=["include/kfr/dft/fft.hpp", "include/kfr/dft/impl/fft-impl.hpp", "include/kfr/dft/impl/dft-impl.hpp",
               "include/kfr/dft/convolution.hpp"],
        mech=[("real to complex and complex to real post-processing", "include/kfr/dft/impl/fft-impl.hpp"),
              ("packed spectrum multiplication", "include/kfr/dft/fft.hpp fft_multiply, fft_multiply_accumulate")],
        observe=["dft_plan_real<T>::execute", "realdft", "irealdft", "fft_multiply", "fft_multiply_accumulate"],
        how="even sizes, layouts, placements and signals against a direct long-double DFT, and the circular-convolution "
            "relation for spectrum products",
        level_note=SEARCH + "Oracle: long-double summation, tolerance c*eps*log2(n)*||x||."),
    dict(
        id="P03", title="Multidimensional DFTs are the product of one-dimensional DFTs for every shape",
        statement="For every shape of one to four axes, fixed or run-time sized, the multidimensional complex transform "
                  "equals the defining multidimensional sum, in both directions, in and out of place, with or without a "
                  "scratch buffer. The real multidimensional transform gives the non-redundant half of it, and its inverse "
                  "gives back the signal times the element count, for in-place and out-of-place use. Matrix transposition "
                  "moves every element to its transposed position for every shape.",
        over=["inputs", "configurations"],
        forall="all shapes up to four axes of length 1..128, all signals, directions and placements",
        why="The tests use a few shapes; axis order, axis length classes, transposition and scratch sizing interact.",
        files=["include/kfr/dft/fft.hpp", "include/kfr/dft/impl/dft-impl.hpp", "include/kfr/base/transpose.hpp"],
        mech=[("axis by axis execution with transposition", "include/kfr/dft/impl/dft-impl.hpp dft_execute, ..._md"),
              ("in-place and blocked matrix transposition", "include/kfr/base/transpose.hpp")],
        observe=["dft_plan_md", "dft_plan_md_real", "matrix_transpose"],
        how="shapes, directions, placements and signals against a direct long-double multidimensional DFT; transposition "
            "against index arithmetic",
        level_note=SEARCH + "Total size up to 2400 elements per case."),
    dict(
        id="P04", title="DCT-II and its inverse equal the defining cosine sums for every size",
        statement="For every size, the discrete cosine transform (type II) and its inverse (type III) equal the defining "
                  "sums up to rounding, in single and double precision, in and out of place, with a caller-supplied or "
                  "internally allocated scratch buffer. The inverse of the forward transform gives back the signal up to "
                  "the documented scale.",
        over=["inputs", "configurations"],
        forall="every size to 300 and sampled sizes to 2000, all signals, directions and placements",
        why="The tests use one size; the transform is built on a complex DFT whose algorithm depends on the size.",
        files=["include/kfr/dft/fft.hpp", "include/kfr/dft/impl/dft-impl.hpp"],
        mech=[("reordering, phase rotation and scratch layout", "include/kfr/dft/fft.hpp dct_plan")],
        observe=["dct_plan<T>::execute"],
        how="sizes, directions, placements and signals against direct long-double cosine sums",
        level_note=SEARCH + "Oracle: long-double summation."),
    dict(
        id="P06", title="Convolution, correlation and streaming convolution equal direct summation",
        statement="For every pair of real or complex signals, convolution, correlation and autocorrelation equal the direct "
                  "sums. A streaming convolution filter produces, for every filter length, block size and division of the "
                  "input into pushes, exactly the causal convolution of everything pushed since the last reset, in place or "
                  "not, and replacing the filter data or resetting starts from silence.",
        over=["inputs", "histories"],
        forall="all signals to 300 samples, filters to 500 taps, block sizes 1..256, all push sizes, resets and data changes",
        why="The tests use one filter and one block size; block boundaries and partial blocks depend on the push history.",
        files=["include/kfr/dft/convolution.hpp", "include/kfr/dft/impl/convolution-impl.hpp", "src/dft/convolution-impl.cpp"],
        mech=[("zero padding and spectrum product", "include/kfr/dft/impl/convolution-impl.hpp convolve, correlate"),
              ("partitioned overlap processing of partial blocks",
               "include/kfr/dft/impl/convolution-impl.hpp process_buffer_impl, set_data, reset")],
        observe=["convolve", "correlate", "autocorrelate", "convolve_filter<T>::apply/reset/set_data"],
        how="stateful generation of push/reset/data-change histories against direct summation",
        level_note=SEARCH + "Oracle: long-double direct summation."),
    dict(
        id="P08", title="Transform plans can be shared by threads and the plan cache is thread safe",
        statement="Executing one transform plan from several threads at once, each with its own data and scratch, gives each "
                  "thread the result it would get alone, for every kind of plan and size, without any conflicting memory "
                  "access. The process-wide plan cache can be queried and cleared concurrently; every plan it hands out is "
                  "for the requested size and stays usable after the cache is cleared.",
        over=["schedules", "inputs"],
        forall="plan kinds (complex, real, cosine, multidimensional), sizes of every algorithm class, 2..4 threads, any "
               "interleaving, concurrent cache clears",
        why="The tests are single threaded.",
        files=["include/kfr/dft/fft.hpp", "include/kfr/dft/cache.hpp", "include/kfr/dft/impl/dft-impl.hpp"],
        mech=[("plans keep no mutable state during execution", "include/kfr/dft/impl/dft-impl.hpp"),
              ("mutex-protected plan cache with shared ownership", "include/kfr/dft/cache.hpp")],
        observe=["dft_plan::execute from threads", "dft_cache::get/getreal/clear"],
        how="random plan kinds, sizes and thread programs under ThreadSanitizer, results against the single-threaded run",
        level_note=SEARCH + "Interleavings are the operating system's; ThreadSanitizer's happens-before analysis reports "
                   "conflicting accesses of any interleaving of the executed code."),
    dict(
        id="P10", title="FIR filters, moving sums and delays match their definitions for any blocks",
        statement="A finite impulse response filter outputs, for every set of taps and every division of the input into "
                  "blocks, the weighted sum of the current and previous inputs since the last reset (or since the loaded "
                  "history), for real, complex and mixed-precision data, through every form of the interface. Moving sums, "
                  "integer delays and fractional delays likewise equal their definitions sample by sample whatever the block "
                  "sizes. Ring buffer transfers of any length behave as repeated single-element transfers.",
        over=["inputs", "histories"],
        forall="1..140 taps, all signals, all block divisions, resets, tap changes and preloaded histories",
        why="The tests run one block through a few fixed filters; state carried between vectors and blocks depends on the "
            "history of block sizes.",
        files=["include/kfr/dsp/fir.hpp", "include/kfr/dsp/delay.hpp", "include/kfr/base/univector.hpp", "src/dsp/fir.cpp"],
        mech=[("ring buffer delay line and split dot product", "include/kfr/dsp/fir.hpp expression_fir"),
              ("vector delay line", "include/kfr/dsp/fir.hpp expression_short_fir"),
              ("running sums", "include/kfr/dsp/fir.hpp expression_moving_sum"),
              ("ring transfers", "include/kfr/base/univector.hpp ringbuf_write, ringbuf_read")],
        observe=["fir", "fir_filter", "short_fir", "moving_sum", "delay", "fracdelay", "univector::ringbuf_*"],
        how="stateful generation of block histories against the defining sums in long double",
        level_note=SEARCH + "Tolerance: eps * (taps + 8) * sum |h||x|; delays and ring buffers exact."),
    dict(
        id="P11", title="A biquad cascade equals its difference equations over any block history",
        statement="Filtering through a cascade of second-order sections equals running the sections' difference equations in "
                  "order, for every number of sections, every stable set of coefficients and every division of the input "
                  "into blocks, including blocks shorter than the cascade. Resetting returns to the initial silent state, "
                  "state passed by reference continues from block to block, and evaluation of part of a range starts there "
                  "without touching anything outside it.",
        over=["inputs", "histories"],
        forall="1..64 sections with poles of radius up to 0.9, all signals, all block divisions, resets and interfaces",
        why="The tests filter one block through a few fixed cascades; the vectorised pipeline's fill and drain depend on "
            "block length relative to the cascade.",
        files=["include/kfr/dsp/biquad.hpp", "include/kfr/base/filter.hpp", "src/dsp/biquad.cpp"],
        mech=[("one section per vector lane, pipeline filled ahead and state saved at the block end",
               "include/kfr/dsp/biquad.hpp begin_pass, end_pass, get_elements, biquad_process"),
              ("run-time cascade length", "include/kfr/dsp/biquad.hpp iir, src/dsp/biquad.cpp")],
        observe=["iir", "iir_filter", "biquad_l", "process"],
        how="stateful generation of cascades and block histories against long-double difference equations",
        level_note=SEARCH + "Tolerance scales with 1/(1-pole radius)^2."),
    dict(
        id="P12", title="Biquad designs realise the analog prototype they are named after",
        statement="Each biquad design function returns the section whose frequency response equals that of its analog "
                  "prototype (low pass, high pass, band pass, notch, all pass, peak, low and high shelf) under the bilinear "
                  "transform prewarped at the design frequency, for every frequency, Q and gain. In particular the gains at "
                  "zero frequency, at the design frequency and at the Nyquist frequency are the stated ones, and the section "
                  "is stable and normalised to a0 = 1.",
        over=["inputs"],
        forall="every design function, frequency 0.002..0.495, Q 0.2..20, gain -24..24 dB, any response frequency",
        why="The tests print or compare a few coefficients; boosts and cuts, and each kind, take separate branches.",
        files=["include/kfr/dsp/biquad_design.hpp", "include/kfr/dsp/biquad.hpp"],
        mech=[("closed-form coefficients per filter kind", "include/kfr/dsp/biquad_design.hpp"),
              ("normalisation", "include/kfr/dsp/biquad.hpp biquad_section")],
        observe=["biquad_lowpass", "biquad_highpass", "biquad_bandpass", "biquad_notch", "biquad_allpass", "biquad_peak",
                 "biquad_lowshelf", "biquad_highshelf"],
        how="random kinds and parameters, the response compared with the long-double analog prototype at the prewarped frequency",
        level_note=SEARCH + "Oracle: analog transfer functions evaluated in long double."),
    dict(
        id="P13", title="IIR designs realise their prototype and splitting into sections keeps the filter",
        statement="An IIR design (Butterworth, Chebyshev I and II, Bessel) of any order, turned into a low-pass, high-pass, "
                  "band-pass or band-stop filter at any sample rate, has the frequency response of the analog prototype under "
                  "the prewarped band transform, with all poles inside the unit circle. Converting any real set of zeros and "
                  "poles to second-order sections preserves the transfer function: the product of the sections equals it.",
        over=["inputs"],
        forall="order 1..24, every prototype and transform, band edges over the whole band, ripple 0.1..80 dB, any conjugate "
               "closed set of zeros and poles",
        why="The tests compare a few designs with stored coefficients; orders, parities and pairings select branches.",
        files=["include/kfr/dsp/iir_design.hpp", "include/kfr/dsp/biquad.hpp"],
        mech=[("analog prototypes", "include/kfr/dsp/iir_design.hpp chebyshev1, chebyshev2, butterworth, bessel"),
              ("band transforms and bilinear transform", "include/kfr/dsp/iir_design.hpp lp2lp_zpk .. bilinear"),
              ("pairing of zeros and poles", "include/kfr/dsp/iir_design.hpp to_sos, cplxreal, nearest_*")],
        observe=["butterworth", "chebyshev1", "chebyshev2", "bessel", "iir_lowpass", "iir_highpass", "iir_bandpass",
                 "iir_bandstop", "to_sos"],
        how="random prototypes, orders and band edges against closed-form magnitude and phase responses in long double, and "
            "random zero/pole sets against the product of the resulting sections",
        level_note=SEARCH + "Oracle: analog responses in long double; tolerances scale with the conditioning of the poles."),
    dict(
        id="P14", title="Windows and windowed-sinc FIR designs equal their definitions",
        statement="Every window function equals its textbook definition at every sample, for every size, shape parameter and "
                  "symmetry (a periodic window is the symmetric one of one more point without its last point), through the "
                  "named functions and through run-time selection. Windowed-sinc low-pass, high-pass, band-pass and band-stop "
                  "designs equal the windowed ideal response, and normalised designs pass zero frequency with gain one.",
        over=["inputs"],
        forall="all 17 windows, sizes 2..400, parameters over their useful range; filters of 3..300 taps, any band edges",
        why="The tests compare a few stored windows of small sizes; the end points, odd and even sizes and truncated windows "
            "differ.",
        files=["include/kfr/dsp/window.hpp", "include/kfr/dsp/fir_design.hpp", "include/kfr/math/modzerobessel.hpp",
               "include/kfr/base/basic_expressions.hpp"],
        mech=[("window expressions over a symmetric linspace", "include/kfr/dsp/window.hpp"),
              ("ideal response times window, normalisation", "include/kfr/dsp/fir_design.hpp")],
        observe=["window", "window_hann .. window_tukey", "fir_lowpass", "fir_highpass", "fir_bandpass", "fir_bandstop"],
        how="random windows and designs against the definitions in long double",
        level_note=SEARCH + "Oracle: the definitions in long double."),
    dict(
        id="P15", title="Sample rate conversion is one continuous polyphase filter over any block history",
        statement="The resampled stream equals the input interpolated by the Kaiser-windowed sinc of the chosen quality, at "
                  "every output sample, for every ratio, quality, cutoff and scale, real or complex, however the stream is "
                  "divided into blocks (pulled, pushed, skipped, or cut short at its end). The declared input and output sizes "
                  "are exactly what processing consumes and can deliver: a push never needs more than was given. Pass-band "
                  "tones keep their amplitude and declared delay, and tones beyond the stop band vanish, to the stated attenuation.",
        over=["inputs", "histories"],
        forall="ratios 1..12 by 1..12 and common audio ratios, all qualities, all block histories and signals",
        why="The test suite has no test of the converter beyond construction; positions, phases and the delay line depend on "
            "the whole history of block sizes.",
        files=["include/kfr/dsp/sample_rate_conversion.hpp", "src/dsp/sample_rate_conversion.cpp", "docs/docs/src.md"],
        mech=[("polyphase decomposition and prototype", "src/dsp/sample_rate_conversion.cpp init"),
              ("delay line and position arithmetic", "src/dsp/sample_rate_conversion.cpp process_impl"),
              ("size arithmetic", "include/kfr/dsp/sample_rate_conversion.hpp input_size_for_output, output_size_for_input, skip")],
        observe=["samplerate_converter<T>::process/skip/input_size_for_output/output_size_for_input"],
        how="stateful generation of pull/push/skip/end histories against direct long-double interpolation, and tones "
            "against the attenuation of the quality",
        level_note=SEARCH + "Oracle: the prototype recomputed in long double and summed directly. Filters are limited to "
                   "24000 taps."),
    dict(
        id="P17", title="Oscillators, Goertzel, mixdown, wave shapers and units equal their definitions",
        statement="Oscillators produce their waveform at every phase and in every phase unit, and phasors stay in [0, 1); "
                  "the Goertzel filters give the DFT bin of the frequencies asked for; mixdown and the stereo matrices are the "
                  "linear maps they name; wave shapers, sweeps, DC removal, unit conversions and the A, B and C weighting curves "
                  "equal their formulas. Scalars and expressions give the same values, however large or small the argument.",
        over=["inputs"],
        forall="all phases, frequencies, rates, levels and block sizes 1..400, float and double, scalar or expression",
        why="The tests check one phase sequence or a few values; ranges, signs and the number of channels vary.",
        files=["include/kfr/dsp/oscillators.hpp", "include/kfr/dsp/goertzel.hpp", "include/kfr/dsp/mixdown.hpp",
               "include/kfr/dsp/waveshaper.hpp", "include/kfr/dsp/units.hpp", "include/kfr/dsp/weighting.hpp",
               "include/kfr/dsp/special.hpp", "include/kfr/dsp/dcremove.hpp", "include/kfr/math/impl/hyperbolic.hpp"],
        mech=[("waveforms of the phase", "include/kfr/dsp/oscillators.hpp intrinsics"),
              ("serial and parallel Goertzel", "include/kfr/dsp/goertzel.hpp set_elements"),
              ("conversion formulas", "include/kfr/dsp/units.hpp, weighting.hpp")],
        observe=["sine, square, sawtooth, triangle, phasor", "goertzel", "mixdown, mixdown_stereo", "saturate_I/II, "
                 "waveshaper_*", "amp_to_dB .. cweighting", "swept, jaehne, dcremove"],
        how="random phases, levels and parameters against the formulas in long double",
        level_note=SEARCH + "Oracle: the formulas in long double; results near a jump of the wave are skipped."),
    dict(
        id="P16", title="Loudness metering follows EBU R128 over any history of packets",
        statement="After any sequence of packets, starts, stops and resets the meter reports the BS.1770 momentary and "
                  "short-term loudness of the last 0.4 and 3 seconds since the reset, the integrated loudness with both gates "
                  "and the loudness range of everything measured since the reset, for every rate, refresh factor and set of "
                  "speakers. A steady tone reads its K-weighted, channel-weighted mean square within 0.1 LU.",
        over=["histories"],
        forall="rates 8..192 kHz, factors 1..6, 1..5 channels of any speakers, any history of levels and control calls",
        why="The tests play the EBU reference sequences at one rate without stop or reset; windows, gates and control calls "
            "interact over time.",
        files=["include/kfr/dsp/ebu.hpp", "include/kfr/dsp/speaker.hpp"],
        mech=[("windows of packet energies", "include/kfr/dsp/ebu.hpp ebu_channel"),
              ("gating and percentiles", "include/kfr/dsp/ebu.hpp integrated_vec, lra_vec"),
              ("K-weighting", "include/kfr/dsp/ebu.hpp make_kfilter")],
        observe=["ebu_r128::process_packet/start/stop/reset/get_values"],
        how="stateful generation of packets and control calls against a long-double model of the whole meter; tones against "
            "the response of the recommendation's filter",
        level_note=SEARCH + "Oracle: long-double model; readings whose blocks lie within rounding of a gate are skipped."),
    dict(
        id="P60", title="The C API computes what it documents and reports every failure",
        statement="Every plan and filter made through the C API, in any number of dimensions and either precision, computes "
                  "its transform or filter by definition, into caller or library scratch, in place or not, over any history "
                  "of blocks and resets, without depending on the caller's arrays after creation. Allocation functions keep "
                  "alignment, size, contents and reference counts over any history of operations; impossible requests and "
                  "invalid plans return NULL, set the error of the calling thread only and damage nothing.",
        over=["inputs", "histories"],
        forall="plans of 1-4 dimensions, all filters and block histories, all histories of memory calls, errors on two threads",
        why="The C test uses one size of each plan and one allocation.",
        files=["include/kfr/capi.h", "src/capi/capi.cpp", "include/kfr/cometa/memory.hpp"],
        mech=[("type-erased plans and filters", "src/capi/capi.cpp"), ("error capture", "src/capi/capi.cpp try_fn"),
              ("aligned, reference-counted blocks", "include/kfr/cometa/memory.hpp")],
        observe=["kfr_dft_*", "kfr_dct_*", "kfr_filter_*", "kfr_allocate .. kfr_release", "kfr_last_error"],
        how="random plans against the definitions in long double, stateful generation of filter and memory histories against "
            "models, and of failing calls on two threads",
        level_note=SEARCH + "Oracle: definitions in long double; a byte-exact model of the live blocks."),
    dict(
        id="P05", title="Every instruction set chosen at run time computes the same results",
        statement="In a multi-architecture build, whichever x86 instruction set is selected at run time, transforms, "
                  "convolutions, FIR, IIR and convolution filters and resamplers give the result of their definition for every "
                  "input, size and block history, within rounding. The set detected at start-up is one the machine supports.",
        over=["inputs", "histories"],
        forall="all eight x86 levels, transforms of 1..600 points, convolutions up to 200 by 200, streams of 1..500 samples",
        why="The tests run one set per process, the one detected; gates, fall-throughs and objects shared between sets are "
            "not exercised.",
        files=["include/kfr/multiarch.h", "include/kfr/runtime/cpuid.hpp", "include/kfr/runtime/cpuid_auto.hpp",
               "src/dft/dft.cpp", "src/dft/convolution-impl.cpp", "src/dsp/biquad.cpp", "src/dsp/fir.cpp",
               "src/dsp/sample_rate_conversion.cpp"],
        mech=[("gates", "include/kfr/multiarch.h CMT_MULTI_GATE"), ("detection", "include/kfr/runtime/cpuid.hpp detect_cpu"),
              ("per-architecture implementations", "src/dft, src/dsp impl namespaces")],
        observe=["override_cpu", "dft_plan, dft_plan_real, dct_plan", "convolve, correlate, autocorrelate",
                 "fir_filter, iir_filter, convolve_filter, samplerate_converter"],
        how="random operations run on every instruction set in one process, each compared with the definition in long double",
        level_note=SEARCH + "The quick tier builds three of the five architecture bodies, the thorough tier all five."),
    dict(
        id="P21", title="A 1-D expression has the same elements however it is evaluated",
        statement="Element i of an expression built from data, counters, lambdas, slices, padding, concatenation, reversal, "
                  "arithmetic, selection, casts and type-erased handles equals its definition, whether the expression is "
                  "evaluated whole, in part, in blocks, or in vectors of any width at any position, and evaluation writes "
                  "nothing outside the requested range. linspace and the recursive generators (gen_linear, gen_exp, gen_expj, "
                  "gen_exp2, gen_cossin, gen_sin) give the documented sequence in whatever pieces they are read.",
        over=["inputs", "histories"],
        forall="expression trees of depth 0..5 of 0..300 elements or infinite, every evaluation order and vector width 1..64",
        why="The tests evaluate about a hundred fixed expressions from their first element on.",
        files=["include/kfr/base/expression.hpp", "include/kfr/base/basic_expressions.hpp", "include/kfr/base/univector.hpp",
               "include/kfr/base/handle.hpp", "include/kfr/base/generators.hpp", "include/kfr/base/simd_expressions.hpp"],
        mech=[("evaluation in vectors with a scalar remainder", "include/kfr/base/expression.hpp process"),
              ("elements of adapters at any position", "include/kfr/base/basic_expressions.hpp get_elements"),
              ("type erasure", "include/kfr/base/handle.hpp"), ("generator state", "include/kfr/base/generators.hpp")],
        observe=["process, render, get_elements", "univector assignment", "get_shape"],
        how="random expression trees (through type-erased handles, and typed compositions of temporaries and references) "
            "evaluated in random ways and compared element by element with a model",
        level_note=SEARCH + "Oracle: a function from index to value built along with the expression; exact except for "
                            "linspace and the recursive generators."),
    dict(
        id="P22", title="Reductions and histograms cover every element exactly once",
        statement="sum, mean, minof, maxof, absminof, absmaxof, sumsqr, rms, product and dotproduct of any expression or tensor "
                  "equal the reduction of its elements one by one: exactly (modulo 2^n) for integers, within rounding for "
                  "floating point. A histogram counts every element in its bin, below or above, up to the limits of the type.",
        over=["inputs"],
        forall="sizes 1..3000 (every size to 150), 1-3 dimensions, any alignment, seven element types and complex",
        why="The tests reduce a six-element vector and a 177-element one.",
        files=["include/kfr/base/reduce.hpp", "include/kfr/simd/horizontal.hpp", "include/kfr/simd/impl/min_max.hpp",
               "include/kfr/base/expression.hpp"],
        mech=[("vector accumulator with narrow remainders", "include/kfr/base/reduce.hpp expression_reduce"),
              ("bins", "include/kfr/base/reduce.hpp histogram_data::put"), ("final horizontal step", "include/kfr/simd/horizontal.hpp")],
        observe=["sum .. dotproduct", "histogram, histogram_expression, histogram_data::put"],
        how="random data up to the limits of each type in vectors, slices, expressions and tensors, against a plain loop",
        level_note=SEARCH + "Oracle: a loop in long double or modular integers."),
    dict(
        id="P20", title="A tensor view names exactly the elements it should",
        statement="Every slice (ranges as in Python, including negative bounds and steps, zero steps and indices counted from "
                  "the end), box, axis, transpose, reshape and flatten of a tensor refers to exactly the elements its "
                  "definition names, and reading, iterating and writing through it touches those and nothing else. Copies of "
                  "a handle share the data, copy() and the element-wise results do not, and the memory is released once, after "
                  "the last view.",
        over=["inputs", "histories"],
        forall="tensors of 1..4 dimensions with any strides, histories of 1..9 operations on views of views",
        why="The tests check some twenty fixed slices of one-, two- and three-dimensional tensors.",
        files=["include/kfr/base/tensor.hpp", "include/kfr/base/shape.hpp"],
        mech=[("ranges to offsets and strides", "include/kfr/base/tensor.hpp get_range"),
              ("sharing and release", "include/kfr/base/tensor.hpp memory_finalizer, operator="),
              ("row-major iteration", "include/kfr/base/tensor.hpp tensor_iterator, include/kfr/base/shape.hpp increment_indices")],
        observe=["tensor::operator(), transpose, reshape, flatten", "begin/end, iterate, nested_begin", "assign, map, reduce, copy",
                 "make_memory_finalizer, tensor_from_container"],
        how="random histories of views and writes, each element located by address and compared with a model of the memory",
        level_note=SEARCH + "Oracle: the list of memory offsets each view must have, and a copy of the memory."),
    dict(
        id="P27", title="A 2-D or 3-D expression has the same elements by every axis",
        statement="Element (i, j, ..) of an expression of several dimensions, built from tensors and views with any strides, axes of "
                  "size one stretched as in NumPy, counters, lambdas, slices, padding, reversal, concatenation, reshaping, added "
                  "dimensions and arithmetic, equals its definition by whichever axis, in vectors of any width and over whichever "
                  "box it is evaluated. Writing to slices, reshapes, packs, strided tensors and type-erased outputs changes exactly "
                  "the elements of the box.",
        over=["inputs"],
        forall="trees of depth 0..4 over 1..3 dimensions of 1..24 elements, every axis, vectors of 1..16 elements",
        why="The tests evaluate some thirty fixed 2-D expressions, all by the last axis.",
        files=["include/kfr/base/expression.hpp", "include/kfr/base/basic_expressions.hpp", "include/kfr/base/shape.hpp",
               "include/kfr/base/handle.hpp", "include/kfr/simd/read_write.hpp"],
        mech=[("broadcasting of arguments", "include/kfr/base/expression.hpp get_arg, include/kfr/base/shape.hpp common_shape"),
              ("evaluation along an axis", "include/kfr/base/expression.hpp process, tprocess_body"),
              ("elements of adapters", "include/kfr/base/basic_expressions.hpp get_elements, set_elements"),
              ("vectors as elements", "include/kfr/simd/read_write.hpp, pack and unpack")],
        observe=["process", "get_elements, set_elements", "tensor assignment", "pack, unpack, adjacent"],
        how="random trees and direct compositions evaluated by every axis and width and compared with a model",
        level_note=SEARCH + "Oracle: a function from index to value built along with the expression; exact."),
    dict(
        id="P24", title="Samples keep their value, place and order through conversion and interleaving",
        statement="Between every pair of sample types (8, 16, 24, 32 and 64-bit integers, f32, f64), known at compile time or at run "
                  "time, a converted sample is the same fraction of full scale within one step of the integer type and the "
                  "precision of the arithmetic, clipped at full scale, with silence staying silence, signs symmetric and order "
                  "kept; equal types are copied bit for bit. Interleaving and deinterleaving put every sample of every channel in "
                  "its place, and nothing outside the whole frames of the output is written.",
        over=["inputs"],
        forall="all 49 pairs of types, any values including infinities (not NaN), 0..200 frames of 1..8 channels, any alignment",
        why="The tests convert full scale and zero of four types and interleave one buffer of three channels.",
        files=["include/kfr/base/conversion.hpp", "include/kfr/simd/types.hpp"],
        mech=[("scaling, clipping and rounding", "include/kfr/base/conversion.hpp convert_sample"),
              ("places of samples", "include/kfr/base/conversion.hpp interleave, deinterleave"),
              ("24-bit storage", "include/kfr/simd/types.hpp i24"),
              ("dispatch by run-time type", "include/kfr/base/conversion.hpp convert, audio_sample_get_type")],
        observe=["convert_sample, convert", "interleave, deinterleave of pointers and univectors", "audio_sample_sizeof"],
        how="random samples of every kind through every pair of types and form, in buffers with guarded margins",
        level_note=SEARCH + "Oracle: the ideal value in extended precision. Rounding is accepted in either direction."),
    dict(
        id="P25", title="Random values are reproducible, in range and distributed as asked",
        statement="For every seed, type and number of lanes, pseudorandom values are those of the library's generator (four linear "
                  "congruential generators whose bytes are rotated), so they repeat exactly for the same seeds and the same sizes of "
                  "requests on every architecture; uniform values of reals are in [0, 1), of integers cover the type, values of a "
                  "range stay between its bounds and are spread evenly over it, normal values are finite with the given mean and "
                  "deviation. Expressions of random values leave a copied state alone, advance a referenced one and draw "
                  "the same values from either.",
        over=["inputs"],
        forall="all integer types (ranges of up to 32-bit integers), f32, f64, 1..20 lanes, any seeds and bounds, 1-D and 2-D expressions",
        why="The tests compare a few values of one seed and the bounds of one range of reals; integers of a range, uniform "
            "expressions and the tails of the normal distribution are not executed.",
        files=["include/kfr/base/random.hpp", "include/kfr/base/random_bits.hpp", "include/kfr/base/state_holder.hpp"],
        mech=[("step of the generator", "include/kfr/base/random_bits.hpp random_next, random_bits"),
              ("distributions", "include/kfr/base/random.hpp random_uniform, random_range, random_normal"),
              ("copied and referenced states", "include/kfr/base/random.hpp gen_random_*, include/kfr/base/state_holder.hpp")],
        observe=["random_init, random_bits, random_uniform, random_range, random_normal", "gen_random_uniform, gen_random_range, gen_random_normal"],
        how="random and inverted (extreme) seeds, every width, distribution and state holding, against a scalar model and statistics",
        level_note=SEARCH + "Oracle: a scalar model of the generator, exact for integers and uniform reals; "
                            "8-deviation bounds on moments and shares for expressions."),
    dict(
        id="P30", title="Vector operations act on every lane as on one number",
        statement="For every element type and number of lanes, each arithmetic, bitwise, shift, rotate, comparison, mask, selection, "
                  "minimum, maximum, absolute value, clamping, saturating, sign, rounding and classification operation on vec and "
                  "scalars gives in every lane what it gives for one number: modulo 2^n for integers, the IEEE result for floating "
                  "point, infinities and NaN included. The horizontal operations combine all the lanes and no others.",
        over=["inputs"],
        forall="ten element types, 1..64 lanes, any bit pattern",
        why="The tests apply each operation to a table of some forty values, all lanes alike, saturation to two.",
        files=["include/kfr/simd/operators.hpp", "include/kfr/simd/impl/saturation.hpp", "include/kfr/simd/impl/round.hpp",
               "include/kfr/simd/impl/min_max.hpp", "include/kfr/simd/impl/logical.hpp", "include/kfr/simd/comparison.hpp",
               "include/kfr/simd/horizontal.hpp", "include/kfr/simd/impl/function.hpp"],
        mech=[("operators", "include/kfr/simd/operators.hpp, impl/basicoperators_clang.hpp"),
              ("splitting and widening to native sizes", "include/kfr/simd/impl/function.hpp KFR_HANDLE_ALL_SIZES"),
              ("saturation without native instructions", "include/kfr/simd/impl/saturation.hpp"),
              ("rounding without SSE4.1", "include/kfr/simd/impl/round.hpp")],
        observe=["operators of vec and mask", "satadd, clamp, round, select ..", "all, any, hadd .. hmax"],
        how="random lanes through some ninety operations, each compared lane by lane with plain C++",
        level_note=SEARCH + "Oracle: the C++ operation on one number. Halves may round either way; min and max of NaN are open."),
    dict(
        id="P31", title="Shuffles, transpositions and sorts move every element to its defined place",
        statement="For every element type, number of lanes and group size, each permutation of vectors (concatenation, slicing, "
                  "padding, splitting, rotation, reversal, blending, interleaving, arbitrary patterns, bit and digit reversal, "
                  "small matrix transposition) gives exactly the element its definition names in each lane. sort and sortdesc "
                  "order any contents and keep every element. matrix_transpose reverses the axes of an array of any rank and "
                  "lengths, in place or not, and touches nothing else.",
        over=["inputs", "configurations"],
        forall="five element types including complex, 1..64 lanes, groups of 1, 2 and 4, arbitrary patterns; arrays of two to four "
               "axes, thin ones up to 80000 long",
        why="The tests check a handful of sizes per function; hand-written specialisations and width-dependent lowering make the "
            "result depend on type, size and instruction set together.",
        files=["include/kfr/simd/shuffle.hpp", "include/kfr/simd/sort.hpp", "include/kfr/simd/digitreverse.hpp",
               "include/kfr/simd/impl/specializations.hpp", "include/kfr/base/transpose.hpp"],
        mech=[("index sequences of each permutation", "include/kfr/simd/shuffle.hpp"),
              ("hand-written shuffles of common patterns", "include/kfr/simd/impl/specializations.hpp"),
              ("cycle-following in-place transposition", "include/kfr/base/transpose.hpp")],
        observe=["low", "high", "slice", "concat", "interleave", "transpose", "bitreverse", "sort", "matrix_transpose"],
        how="arbitrary contents through every permutation, compared lane by lane with the index map of its definition",
        level_note=SEARCH + "Sizes and patterns are compile-time and so a fixed, wide set; contents are random."),
    dict(
        id="P32", title="Vector loads, stores, element access and conversions touch just what they name",
        statement="A load or gather returns, and a store or scatter changes, exactly the elements its address, stride, group and "
                  "indices name, for every lane count, power of two or not, and nothing beyond them. A vector used as an array "
                  "(subscripts, front, back, increments, construction from lists and functions) behaves like one. Conversions "
                  "between element types give the value the language's own conversion gives wherever the target can hold it, and "
                  "bit casts keep the bits.",
        over=["inputs", "histories"],
        forall="numbers, complex numbers and short vectors as elements; 1..32 lanes; any address, stride and index; ten types "
               "converted in every pair",
        why="The tests load and store a few power-of-two sizes; overruns and misplaced lanes show only for other sizes, padded "
            "elements, large strides or particular pairs of types.",
        files=["include/kfr/simd/read_write.hpp", "include/kfr/simd/impl/read_write.hpp", "include/kfr/simd/vec.hpp"],
        mech=[("splitting of sizes that are not powers of two", "include/kfr/simd/impl/read_write.hpp"),
              ("gather and scatter", "include/kfr/simd/read_write.hpp"),
              ("element access and conversion", "include/kfr/simd/vec.hpp")],
        observe=["read", "write", "gather", "scatter", "read_group", "write_group", "vec::operator[]", "cast", "bitcast"],
        how="loads, stores and element accesses against a plain array that mirrors the whole memory area, and conversions "
            "against the language's",
        level_note=SEARCH + "The whole memory area with guards is compared after each store."),
    dict(
        id="P40", title="Elementary functions are accurate over their whole domain",
        statement="sin, cos, tan, their inverses, degree and fast forms, sinc, exp, log and their bases, pow, root, cbrt, sqrt, "
                  "hyperbolic functions, gamma, the modified Bessel function, interpolation and the pairs such as sincos give, on "
                  "numbers, vectors of any width, expressions and integers, the mathematical value within a few units in the last "
                  "place (times the condition of the function), wherever it is finite; and zero, infinity or NaN exactly where the "
                  "mathematics gives those, whatever the other lanes hold.",
        over=["inputs"],
        forall="any argument where the reduction of angles is exact enough (1e3 in single, 1e9 in double precision), any finite or "
               "infinite argument elsewhere, 1..16 lanes",
        why="The tests compare each function at a few tables of points with tolerances; denormals, infinities, neighbourhoods of "
            "zeros and poles and lanes that differ in range are not among them.",
        files=["include/kfr/math/impl/sin_cos.hpp", "include/kfr/math/impl/tan.hpp", "include/kfr/math/impl/log_exp.hpp",
               "include/kfr/math/impl/atan.hpp", "include/kfr/math/impl/hyperbolic.hpp", "include/kfr/math/impl/asin_acos.hpp",
               "include/kfr/math/impl/gamma.hpp", "include/kfr/math/impl/modzerobessel.hpp", "include/kfr/math/interpolation.hpp"],
        mech=[("reduction of angles", "include/kfr/math/impl/sin_cos.hpp trig_fold"),
              ("scaling by powers of two, denormals", "include/kfr/math/impl/log_exp.hpp vldexpk, vilogbp1"),
              ("quadrants of atan2", "include/kfr/math/impl/atan.hpp atan2k, atan2"),
              ("sign and whole exponents of pow", "include/kfr/math/impl/log_exp.hpp pow")],
        observe=["kfr::sin .. kfr::modzerobessel on numbers, vec, univector expressions"],
        how="random, edge and near-singular arguments through some forty functions, in lanes that differ in range",
        level_note=SEARCH + "Oracle: the C library in long double. Angles beyond the range above and the sign of zeros are open."),
    dict(
        id="P41", title="Complex arithmetic and functions agree with complex analysis",
        statement="For complex numbers in single and double precision, the operators (with complex, real and mixed operands), the "
                  "conjugate and other part-wise operations, sums and products over lanes, exponentials, logarithms, square root, "
                  "trigonometric and hyperbolic functions, magnitude, argument and the polar conversions give the mathematical value "
                  "on the principal branch within a few units in the last place, in every lane, on numbers, vectors and expressions.",
        over=["inputs"],
        forall="arguments whose squares neither overflow nor underflow, zeros and the axes included, 1..13 lanes",
        why="The tests evaluate each function at one to four points, the polar to cartesian conversion at none.",
        files=["include/kfr/math/complex_math.hpp", "include/kfr/simd/complex.hpp",
               "include/kfr/simd/impl/basicoperators_complex.hpp", "include/kfr/base/math_expressions.hpp",
               "include/kfr/base/simd_expressions.hpp"],
        mech=[("products and quotients of interleaved parts", "include/kfr/simd/impl/basicoperators_complex.hpp mul, div"),
              ("functions of alternate lanes", "include/kfr/math/complex_math.hpp csin .. cartesian"),
              ("branch of the square root", "include/kfr/math/complex_math.hpp csqrt"),
              ("real and complex operands together", "include/kfr/simd/complex.hpp conversion, common_type")],
        observe=["operators of vec<complex<T>, N>", "csin .. csqr on numbers, vec, univector expressions"],
        how="random, extreme and axis-aligned arguments through every function and operator form",
        level_note=SEARCH + "Oracle: std::complex<long double>. Errors are bounded by the magnitude of the result, not by each part."),
    dict(
        id="P50", title="WAV writing and reading give back the samples, in every container and format",
        statement="Samples written as WAV, RIFF64 or W64 in any supported sample format, channel count and rate, in any number of "
                  "calls, read back as the same frames: exactly when the file format holds the values, else rounded and clipped "
                  "as the file format requires. The file is laid out as its container defines (chunk sizes, alignment, frame "
                  "count, byte order), and files that other programs lay out differently (foreign chunks, extensible format, "
                  "odd sizes) read the same. Any history of reads and seeks returns the frames at the position it names.",
        over=["inputs", "histories"],
        forall="five sample types in memory, all file sample formats, 1..8 channels, three containers, any split of writes, any "
               "history of reads and seeks",
        why="The tests read and write a few fixed short files; padding, length fields and positions depend on sizes, formats and "
            "the history together.",
        files=["src/io/audiofile-impl.cpp", "include/kfr/audio/io.hpp", "include/kfr/audio/data.hpp", "include/kfr/io/file.hpp",
               "include/kfr/base/conversion.hpp"],
        mech=[("chunk headers and their final sizes", "src/io/audiofile-impl.cpp"),
              ("conversion between sample types", "include/kfr/base/conversion.hpp"),
              ("positions of seeks", "src/io/audiofile-impl.cpp")],
        observe=["audio_writer_wav", "audio_reader_wav", "writer.write", "writer.close", "reader.read", "reader.seek"],
        how="an independent parser and serialiser of the containers and a model of the sample conversions, over files in memory",
        level_note=SEARCH + "Files stay small; sizes beyond 4 GB are not written."),
    dict(
        id="P51", title="FLAC and MP3 streams decode to the encoded samples whatever the reads and seeks",
        statement="Every valid FLAC stream decodes to exactly the samples it encodes, for each block size, channel decorrelation, "
                  "subframe kind, predictor, residual coding and bit depth, in every sample type. An MP3 stream decodes to one "
                  "sequence of samples that does not depend on how the reads are split or on seeks before. Format, channels, rate "
                  "and length are reported as the stream defines.",
        over=["inputs", "histories"],
        forall="1..8 channels, 4..24 bits, all frame and subframe forms of FLAC, MPEG layer III frames with random contents, any "
               "history of reads and seeks",
        why="The tests decode a few encoded files from one encoder; most forms of frames, partitions and predictors never occur.",
        files=["src/io/audiofile-impl.cpp", "include/kfr/audio/io.hpp", "src/io/dr/dr_flac.h", "src/io/dr/dr_mp3.h"],
        mech=[("FLAC frames", "src/io/dr/dr_flac.h"), ("MPEG layer III frames", "src/io/dr/dr_mp3.h"),
              ("conversion to the requested type and positions", "src/io/audiofile-impl.cpp")],
        observe=["audio_reader_flac", "audio_reader_mp3", "reader.read", "reader.seek", "reader.format"],
        how="a FLAC encoder of its own that draws every form the format allows, compared sample by sample; for MP3 one decoding "
            "in sequence against reads in pieces and after seeks",
        level_note=SEARCH + "MP3 has no reference decoder here: only agreement between ways to read, and silence and length."),
    dict(
        id="P52", title="Damaged audio streams fail safely and always give the same answer",
        statement="Whatever the bytes, opening, reading and seeking an audio stream end in time, touch only the memory of the "
                  "stream and of the request, return no more frames than were asked for, and leave the rest of the request alone. "
                  "Two readers of the same bytes and the same history give the same answers: no result depends on memory that "
                  "was not set. A reader that could not be opened only returns errors.",
        over=["inputs", "histories"],
        forall="WAV, RIFF64, W64, FLAC and MP3 streams with bits, fields, lengths and checksums damaged, cut or repeated, and "
               "noise; any history of reads and seeks",
        why="The tests open valid files only; a damaged header or frame reaches code that no test reaches.",
        files=["src/io/audiofile-impl.cpp", "src/io/dr/dr_flac.h", "src/io/dr/dr_mp3.h", "src/io/dr/dr_wav.h",
               "include/kfr/audio/io.hpp"],
        mech=[("checks of header fields", "src/io/audiofile-impl.cpp"), ("ends of the bit stream", "src/io/dr/dr_flac.h"),
              ("frame and side information checks", "src/io/dr/dr_mp3.h")],
        observe=["audio_reader_wav", "audio_reader_flac", "audio_reader_mp3", "read", "seek"],
        how="mutation of generated streams (also with right checksums), run twice with memory and stack painted differently under "
            "the address sanitizer, with answers compared",
        level_note=SEARCH + "Streams are a few thousand bytes; allocation failures are not injected."),
    dict(
        id="P53", title="Tensors saved as npy read back equal; foreign and damaged files are handled",
        statement="save_to_npy writes a file that the format defines (header, alignment, byte order) with the elements of the tensor "
                  "in row-major order, whatever its layout in memory, and load_from_npy gives the same tensor back. Files laid out "
                  "by others (any version, byte and axis order, field order, foreign fields, spacing) load with every element in "
                  "its place; files of another type or shape, cut or damaged ones give an error and leave the tensor alone. Typed "
                  "file readers and writers act on the bytes of a file as any history of reads, writes, seeks and appends says.",
        over=["inputs", "histories"],
        forall="thirteen element types, 1..4 axes, any strides; versions 1..3, both byte and axis orders, damaged headers and data",
        why="The tests read a few fixed files and write simple tensors; layouts, headers of other writers and damage vary freely.",
        files=["include/kfr/base/npy.hpp", "include/kfr/io/file.hpp", "include/kfr/base/endianness.hpp", "include/kfr/base/tensor.hpp"],
        mech=[("header parser", "include/kfr/base/npy.hpp"), ("byte order conversion", "include/kfr/base/endianness.hpp"),
              ("file streams", "include/kfr/io/file.hpp")],
        observe=["save_to_npy", "load_from_npy", "open_file_for_reading", "open_file_for_writing", "open_file_for_appending"],
        how="an independent npy parser and serialiser, structured damage under the address sanitizer, and a byte-array model of files",
        level_note=SEARCH + "Files on disk are small; booleans are saved only (loading them does not compile)."),
    dict(
        id="P26", title="Filters of expressions do what the expression says for any source and history",
        statement="An expression with placeholders gives, wherever they stand in it and whatever expression they are substituted "
                  "with, any number of times, what the same expression gives with the source written in their place; "
                  "placeholders of other keys stay as they are. A filter made of it does the same through every form of apply, to "
                  "buffers, arrays, handles and expressions, shorter or longer than the destination, finite, endless or stateful, in "
                  "place or not; its state goes on from call to call, the rest of the destination is left alone, and "
                  "handles release what they own with the last of them.",
        over=["histories", "programs", "inputs"],
        forall="compositions of up to 5 of 14 operations, histories of up to 5 applications of 0..340 elements in 11 forms, "
               "6 kinds of source, 7 shapes of expressions with two keys, one and two dimensions",
        why="The tests substitute one placeholder of 100 * x; no filter is applied to an expression or a handle.",
        files=["include/kfr/base/handle.hpp", "include/kfr/base/filter.hpp", "include/kfr/base/expression.hpp", "include/kfr/dsp/fir.hpp",
               "include/kfr/dsp/biquad.hpp", "include/kfr/dsp/delay.hpp"],
        mech=[("substitution through nested expressions", "include/kfr/base/handle.hpp substitute, substitute_helper, expression_vtable"),
              ("passes of the substituted expression", "include/kfr/base/handle.hpp begin_pass, end_pass"),
              ("sizes of source and destination", "include/kfr/base/filter.hpp filter::apply"),
              ("shared ownership", "include/kfr/base/handle.hpp make_resource")],
        observe=["placeholder, substitute, to_handle", "to_filter, expression_filter, filter::apply", "get_shape of handles"],
        how="random compositions and histories against models in long double that keep their own state; counted owners",
        level_note=SEARCH + "Oracle: direct difference equations. A placeholder of one key occurs once in an expression."),
    dict(
        id="P61", title="Memory, small containers, fractions and text keep what they are given",
        statement="Over any history, aligned memory is aligned as asked, disjoint, keeps its content through reallocation and "
                  "references until the last release, is counted exactly, and refuses sizes that cannot be represented; "
                  "smart owners, temporaries and univectors release what they hold and are aligned. inline_vector and small_buffer act as "
                  "std::vector (refusing what exceeds their capacity), fractions as exact rationals in lowest terms, and text "
                  "made of values, containers, tensors, widths and formats shows each value in its place.",
        over=["histories", "inputs"],
        forall="histories of up to 60 operations, sizes 0..9000, alignments 1..32768, numerators and denominators to 2^30, seven element types",
        why="The tests of these parts are a dozen fixed examples; none reallocates, exceeds a capacity or formats a container.",
        files=["include/kfr/cometa/memory.hpp", "include/kfr/base/inline_vector.hpp", "include/kfr/base/small_buffer.hpp",
               "include/kfr/base/fraction.hpp", "include/kfr/cometa/string.hpp", "include/kfr/cometa/cstring.hpp"],
        mech=[("header before an aligned block", "include/kfr/cometa/memory.hpp aligned_malloc, aligned_free, aligned_reallocate"),
              ("storage inside or outside of a buffer", "include/kfr/base/small_buffer.hpp resize, swap"),
              ("lowest terms", "include/kfr/base/fraction.hpp normalize"),
              ("printf formats built from types", "include/kfr/cometa/string.hpp value_fmt, pack_value, representation, array_to_string")],
        observe=["aligned_allocate .. aligned_deallocate, data_allocator, autofree, call_with_temp", "inline_vector, small_buffer", "fraction",
                 "as_string, format, _format, snprintfmt, join, pad*"],
        how="random histories against std::vector, 128-bit rationals and text built value by value, under AddressSanitizer",
        level_note=SEARCH + "Oracle: standard containers, exact rationals, printf of single values. Failing malloc is not injected."),
    dict(
        id="P62", title="The lock-free ring hands over every element once, in order, between threads",
        statement="Over any history of puts and gets of any sizes, by one thread or by one producing and one consuming thread at the "
                  "same time, lockfree_ring_buffer delivers exactly the elements put in, in order, never holds more than the buffer has "
                  "room for, takes or gives all or nothing unless partial transfers are asked for (then as many as possible), reports its "
                  "size, and writes no other memory.",
        over=["schedules", "histories"],
        forall="capacities 1..300 (also not powers of two), transfers of 0..twice the capacity, four element types, three kinds of storage, one producer and one consumer",
        why="No test uses the ring at all; wrapping, partial transfers and handing over between threads depend on the history and the schedule.",
        files=["include/kfr/base/univector.hpp"],
        mech=[("publish after copying", "include/kfr/base/univector.hpp lockfree_ring_buffer::try_enqueue, try_dequeue"),
              ("two parts of a wrapped transfer", "include/kfr/base/univector.hpp lockfree_ring_buffer first_size")],
        observe=["lockfree_ring_buffer::try_enqueue, try_dequeue, size"],
        how="random histories against std::deque, random two-thread schedules against the numbered sequence sent",
        level_note=SEARCH + "Oracle: std::deque and the sent sequence. Reordering that only weaker memory models than x86 allow is not observable here."),
    dict(
        id="P63", title="Numeric helpers, ranges, function objects and constant strings are exact",
        statement="ilog2, powers of two, gcd, lcm, divisibility, alignment and floor_div give the exact integer whenever it can be "
                  "represented; ranges visit begin, begin+step, ... before end; function wrappers call what they hold, keep it aligned "
                  "and alive as long as a copy exists, pass arguments unchanged and throw when empty; result tells value from error; "
                  "constant strings compare, join, slice, find and replace as std::string does.",
        over=["inputs", "histories"],
        forall="integers of 32 and 64 bits of every magnitude, histories of up to 30 operations on four functions, strings of 1..14 letters",
        why="The tests of these helpers are a few compile-time examples; sizes of plans, resampling positions and buffers are computed by them.",
        files=["include/kfr/cometa.hpp", "include/kfr/cometa/function.hpp", "include/kfr/cometa/range.hpp",
               "include/kfr/cometa/result.hpp", "include/kfr/cometa/cstring.hpp", "include/kfr/cometa/array.hpp"],
        mech=[("shared implementation of a function", "include/kfr/cometa/function.hpp function, function_impl"),
              ("integer arithmetic", "include/kfr/cometa.hpp ilog2, next_poweroftwo, gcd, lcm, floor_div, align_up"),
              ("constant strings", "include/kfr/cometa/cstring.hpp operator==, concat_cstring, str_find, str_replace")],
        observe=["ilog2 .. floor_div", "make_range", "function, cdispatch", "result", "cstring", "array_ref"],
        how="random values against 128-bit arithmetic and std::gcd, histories against a model of shared function objects, std::string; under ASan and UBSan",
        level_note=SEARCH + "Oracle: exact integer arithmetic, std::string, counted function objects."),
]
