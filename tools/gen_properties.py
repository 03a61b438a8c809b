#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the lines stay well formed)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})
S = "sci-rs/src/"
F = S + "signal/filter/"
D = F + "design/"

prop("C01", "Streaming SOS filtering is independent of chunking and of the entry point",
 "Filtering a signal through a cascade of second-order sections gives the direct-form recurrence's output, sample for sample and with exactly one output per input, whatever the number of sections, the way the signal is split over successive calls and the entry point used for each call (collected vector, lazy iterator, single sample, f32 fast path, integer-input fast path). The delay state left in the sections after a call is exactly what is needed to continue, starting from whatever state was stored before it.",
 ["histories", "inputs", "configurations"],
 "all operation sequences (entry point x chunk length) up to a bound, for every section count 0..=24, arbitrary initial delay state, f32 and f64, and signals over an alphabet with zeros, signs, huge, tiny and non-finite samples",
 "The unit tests filter one sine through three designs (mostly order 4) in one call; the hand-unrolled arms for other section counts, remainder chunks, and continuing a stream across calls or entry points are never exercised.",
 [F + "sosfilt.rs", D + "sos.rs"],
 [("specialised cascades per section count, remainder loop, generic fallback", F + "sosfilt.rs"), ("biquad recurrence", F + "sosfilt.rs")],
 ["outputs of every call", "delay state of every section after every call"],
 [("zi0, zi1", "delay state carried between calls", D + "sos.rs")])

prop("C02", "Steady-state initial conditions really are steady",
 "The delay state computed for a filter (as one transfer function or as a cascade of sections) makes a unit-step input produce, from the very first sample, the constant output equal to the filter's DC gain, with the state unchanged afterwards; only the delay state of the sections is altered. This holds for any filter without a pole at DC, including unnormalised or zero-padded leading denominator coefficients.",
 ["inputs", "configurations"],
 "all coefficient combinations over a grid, all orders up to the bound, all cascades of catalogue sections up to 4 long, step amplitudes, leading denominator coefficients 1 / not 1 / 0",
 "Tests compare two SciPy examples digit by digit, both of order 4-8 with leading coefficient 1.",
 [F + "lfilter_zi.rs", F + "sosfilt_zi.rs", S + "linalg/companion.rs"],
 [("companion-matrix solve", F + "lfilter_zi.rs"), ("per-section scaling by the running DC gain", F + "sosfilt_zi.rs")],
 ["returned vector", "stored section state", "filter output for a constant input"])

prop("C03", "Zero-phase filtering equals its definition and is independent of stored state",
 "Forward-backward filtering returns one output per input sample and equals: extend the signal by odd reflection at both ends (by three times the cascade's tap count: two taps per section plus one, less the trailing zero coefficients that numerators and denominators share), filter forwards and backwards each time from steady state scaled to the first sample, and cut the extension off. The result does not depend on any delay state already stored in the sections nor on the kind of iterator, the caller's sections are not modified, a constant signal is scaled by the squared DC gain, and a signal too short for its extension is rejected rather than filtered wrongly.",
 ["inputs", "configurations"],
 "section counts 1..=24, every signal length around the extension limit and larger lengths, impulses/steps/ramps at every position, sections with and without trailing zero coefficients, arbitrary stored state",
 "The only tests are two fixed sine/step examples for one order.",
 [F + "sosfiltfilt.rs", F + "ext.rs", F + "sosfilt_zi.rs"],
 [("edge length from section shapes", F + "sosfiltfilt.rs"), ("odd extension", F + "ext.rs"), ("two passes with scaled steady state", F + "sosfiltfilt.rs")],
 ["returned vector", "panic/no panic", "caller's sections"])

prop("C04", "Odd extension and padding are exact for every shape, length and axis",
 "Extending a matrix by n samples along an axis returns the original samples unchanged in the middle and, on each side, the n neighbouring samples reflected through the edge sample (twice the edge value minus the mirrored sample), independently for every row or column; the reported extension length is the number of samples added per side. Requesting no padding returns the data untouched, and an extension longer than the data allows is rejected.",
 ["inputs", "configurations"],
 "every matrix shape up to the bound, every extension length 0..len, both axes, every pad type, default and explicit pad lengths",
 "Tests check one vector along one axis and a handful of lengths.",
 [F + "ext.rs"], [("axis slicing and reversal", F + "ext.rs"), ("default pad length and dispatch", F + "ext.rs")],
 ["returned matrix and its shape", "returned edge length", "panic/no panic"])

prop("C05", "Cascading poles and zeros into sections never changes the filter",
 "Converting any conjugate-symmetric set of zeros, poles and a gain to second-order sections yields a cascade with the same transfer function at every complex frequency (a digital filter with fewer zeros than poles, or the reverse, has the missing roots taken at the origin under the default pairing), with real coefficients, monic denominators, each pole and zero used exactly once and the minimal number of sections. The gain is carried by the first section alone. For digital filters the sections are ordered so that the poles closest to the unit circle come last (real poles likewise among themselves) and, under the default nearest pairing, each section from the last to the first takes the remaining zero closest to its worst pole; no conjugate-symmetric input (within rounding) makes the conversion fail, and a complex root without its conjugate is rejected.",
 ["inputs"],
 "every multiset shape of real roots and conjugate pairs, including coincident, near-coincident, real-only, purely imaginary and unit-circle roots and unequal numbers of zeros and poles, digital and analog, every input permutation for small sizes",
 "Tests cover two Butterworth examples; the pairing search has many branches depending on the root geometry.",
 [D + "zpk2sos.rs", D + "cplx.rs", D + "zpk2tf.rs", D + "sos.rs"],
 [("conjugate pairing", D + "cplx.rs"), ("nearest-zero pairing and ordering", D + "zpk2sos.rs"), ("gain placement", D + "zpk2sos.rs")],
 ["section coefficients", "H at test points", "panic/no panic"])

prop("C06", "Polynomial expansion of roots is exact and order-free",
 "Expanding a set of roots gives the monic polynomial with exactly those roots; converting zeros, poles and gain to numerator and denominator coefficients gives the same transfer function, whatever the number, order, multiplicity or conjugate structure of the roots and whether or not there are fewer zeros than poles.",
 ["inputs"],
 "every multiset of roots over a small Gaussian-integer/dyadic alphabet up to the degree bound (exact arithmetic oracle), every ordering, every zero/pole count pair",
 "Tests check three fixed polynomials.",
 [D + "zpk2tf.rs"], [("iterated convolution", D + "zpk2tf.rs")], ["coefficient vectors", "H at test points"])

prop("C07", "Digital Butterworth designs have the Butterworth magnitude response",
 "For every order, band type, cut-off and sampling rate, in every output format, the designed digital filter is stable and its magnitude response is the maximally flat Butterworth curve: -3 dB at each critical frequency, unity at the centre of the pass band, monotone away from it, with the bilinear frequency warping corrected. Gain is positive at the reference frequency of the pass band and all coefficients are real and finite.",
 ["inputs", "configurations"],
 "orders 1..=12, four band types, a grid of critical frequencies from very low to near Nyquist, several sampling rates, three output formats, f64 and f32, checked on a grid of frequencies",
 "Tests compare about ten designs (orders 3-5, a few cut-offs) to SciPy numbers.",
 [D + "butter.rs", D + "iirfilter.rs", D + "bilinear_zpk.rs", D + "lp2lp_zpk.rs", D + "lp2hp_zpk.rs", D + "lp2bp_zpk.rs", D + "lp2bs_zpk.rs"],
 [("prototype, band transform, bilinear, output conversion", D + "iirfilter.rs")],
 ["|H| on a frequency grid", "pole moduli", "sign of the reference gain"])

prop("C08", "Digital Chebyshev I and II designs meet their equiripple specification",
 "For every order, ripple or attenuation, band type, cut-off and sampling rate, the designed digital filter is stable and its magnitude follows the Chebyshev curve: type I ripples between 0 dB and minus the pass-band ripple and leaves the pass band at exactly that ripple at each critical frequency; type II stays at or below the requested attenuation throughout the stop band and reaches it at each critical frequency. Omitted options mean what the documentation says (low pass, coefficients output).",
 ["inputs", "configurations"],
 "orders 1..=10, both types, ripples 0.1..6 dB, attenuations 3..80 dB, four band types, cut-off grid, three output formats",
 "Only the analog prototypes of order 4 and 5 and one type I example are tested; no type II design is.",
 [D + "iirfilter.rs"], [("Chebyshev prototypes", D + "iirfilter.rs"), ("band transforms", D + "iirfilter.rs")],
 ["|H| on a frequency grid", "pole moduli", "panic/no panic"])

prop("C09", "Analog designs have the specified response in every output format",
 "An analog design request of any family, order, band type and angular critical frequencies returns a filter whose frequency response along the imaginary axis is the analytic Butterworth/Chebyshev curve in every output format, with all poles in the open left half plane; prototypes have their documented unit cut-off.",
 ["inputs", "configurations"],
 "orders 1..=8, three families, four band types, frequency grid over several decades, three output formats",
 "No test designs an analog filter; only the low-pass prototypes of two orders are compared to numbers.",
 [D + "iirfilter.rs", D + "zpk2tf.rs", D + "zpk2sos.rs"], [("analog path of the design pipeline", D + "iirfilter.rs")],
 ["|H(jw)|", "pole real parts"])

prop("C10", "All output formats of a design describe the same filter",
 "For the same request, the coefficient, pole-zero and second-order-section outputs have the same (complex) frequency response; specifying the sampling rate is the same as normalising the frequencies by hand, the family-specific functions equal the general one, omitted arguments equal their documented defaults, and single precision agrees with double precision to single-precision accuracy.",
 ["inputs", "configurations"],
 "every combination of family, order, band type, cut-off pair, sampling rate, output and explicit/default arguments in the grid",
 "Each test looks at one format of one design; formats and equivalent requests are never compared.",
 [D + "iirfilter.rs", D + "butter.rs", D + "filter_output.rs", D + "zpk2sos.rs", D + "zpk2tf.rs"],
 [("format conversion", D + "iirfilter.rs")], ["complex H on a grid"])

prop("C11", "Invalid design requests are rejected, valid ones never fail",
 "A design request is rejected (panics) when a critical frequency is not positive (NaN included), is at or above Nyquist for a digital filter, when the number or order of critical frequencies does not fit the band type, when a sampling rate is given for an analog filter, or when a required ripple is missing or a given one is negative; every request satisfying these rules for a supported family (Butterworth, Chebyshev I and II) returns a filter in the requested format.",
 ["inputs", "configurations"],
 "the full cross product of band type, family, analog flag, output, sampling rate and 0-3 critical frequencies drawn from {-1, 0, tiny, interior points, Nyquist, above}, ripple options present/absent/negative",
 "There are no tests of rejection.",
 [D + "iirfilter.rs", D + "butter.rs"], [("argument validation", D + "iirfilter.rs")], ["panic/no panic", "requested output variant"])

prop("C12", "Band transforms and the bilinear map substitute the frequency variable exactly",
 "Each analog band transformation and the bilinear transformation returns a filter whose transfer function at every point is the original one evaluated at the documented substitution of the complex frequency (scaling, inversion, band-pass or band-stop mapping, bilinear map), for any conjugate-symmetric zeros and poles, any gain and parameters, with zeros at infinity moved to the documented place.",
 ["inputs"],
 "every zero/pole multiset over a root catalogue with up to 3 zeros and 4 poles, every parameter on a grid, test points on and off the axes",
 "Each transform has 1-3 numeric examples, nearly all without zeros.",
 [D + "lp2lp_zpk.rs", D + "lp2hp_zpk.rs", D + "lp2bp_zpk.rs", D + "lp2bs_zpk.rs", D + "bilinear_zpk.rs", D + "relative_degree.rs"],
 [("root mapping and gain compensation", D)], ["H at complex test points", "root counts"])

prop("C13", "Convolution and correlation equal their defining sums for every size and mode",
 "Convolving two non-empty sequences of any lengths equals the defining sum in full, valid and same mode, with the documented output length and alignment, and correlating equals convolving with the reversed second sequence; a huge difference in length or magnitude does not matter beyond rounding relative to the largest terms.",
 ["inputs"],
 "every pair of lengths up to the bound plus large and power-of-two-adjacent pairs, every unit-impulse pair (a basis, the operation being bilinear), all three modes, f32 and f64",
 "Tests check four size pairs with fixed values; valid mode with a longer second operand and odd/even same-mode alignment are untested.",
 [S + "signal/convolve.rs"], [("padded FFT product and slicing", S + "signal/convolve.rs")], ["returned vector"])

prop("C14", "Resampling reproduces band-limited signals exactly",
 "Resampling to n samples returns exactly n samples, is linear, preserves constants, reproduces at the new sample instants every sinusoid whose frequency (in cycles per signal) lies strictly below half of the smaller length rounded down, removes frequencies that the smaller length cannot represent, and returns the signal unchanged when the (even) length does not change.",
 ["inputs"],
 "every pair of lengths up to the bound (and large pairs), every representable frequency and both phases (a basis of the band-limited signals)",
 "One test resamples one sine, one length pair is compared to SciPy.",
 [S + "signal/resample.rs"], [("spectrum truncation / zero padding", S + "signal/resample.rs")], ["returned vector"])

prop("C15", "Savitzky-Golay filtering is the least-squares polynomial fit",
 "The smoothing coefficients are those of the least-squares polynomial of the given order over the window evaluated (or differentiated and scaled by the sample spacing) at the window centre; filtering applies them at every sample with the edge samples repeated, returns one output per input, reproduces polynomials up to the order away from the edges, and rejects even windows or windows too small for the order.",
 ["inputs", "configurations"],
 "every odd window up to the bound, every order, every derivative, several spacings, impulses at every position for every signal length (a basis), polynomials of every degree",
 "Tests compare a handful of (window, order) pairs to printed SciPy numbers.",
 [F + "savgol_filter.rs"], [("Vandermonde least squares", F + "savgol_filter.rs"), ("edge padding and windowed dot product", F + "savgol_filter.rs")],
 ["coefficients", "filtered vector", "panic/no panic"])

prop("C16", "Median and median-based statistics are exact for every data order",
 "The median is the middle element of the sorted data (the mean of the two middle ones for an even count) for every order of the data including ties, with the count reported, and does not alter the input; the median absolute deviation and the modified z-scores are the documented functions of those medians, and empty input yields the documented empty result.",
 ["inputs"],
 "every sequence over a small ordered alphabet up to the length bound (hence every permutation and tie pattern), plus adversarial shapes at larger lengths, f32 and f64",
 "Tests use about ten fixed arrays; a selection algorithm's behaviour depends on the order and on ties.",
 [S + "stats.rs"], [("quickselect", S + "stats.rs")], ["returned values and counts", "input data"])

prop("C17", "Mean, variance, deviation and z-scores follow their definitions",
 "Mean, population variance, standard deviation and z-scores equal their defining formulas (up to rounding) for any sequence whose sum and count the type can represent and any iterator kind, with the number of samples reported and one score per sample in order; they are invariant to permutation, shift and scale as the formulas are, and empty input yields the documented empty result.",
 ["inputs"],
 "every sequence over an integer alphabet up to the length bound (exact rational oracle), large offsets, larger structured lengths, f32 and f64, owned/borrowed/lazy iterators",
 "Tests use a handful of fixed arrays.",
 [S + "stats.rs"], [("single and two pass accumulation", S + "stats.rs")], ["returned values and counts"])

prop("C18", "Autocorrelation and successive-difference statistics follow their definitions",
 "The autocorrelation at any lag, its fixed-size fast version for every lag, buffer size and lag offset, the lagged differences, the root mean square of successive differences and the fast root mean square equal their defining sums for every input, including sizes that are not a multiple of any internal block.",
 ["inputs", "configurations"],
 "every sequence over a small alphabet up to the bound, every lag, a table of (size, lag count, offset) combinations covering every remainder modulo 16, impulse pairs at every position (the sums are quadratic forms, so pairs of impulses are a basis)",
 "Tests use one or two fixed arrays per function, mostly sizes that are multiples of the block.",
 [S + "stats.rs"], [("chunked accumulation with remainder", S + "stats.rs"), ("lag slicing", S + "stats.rs")], ["returned values", "output buffers"])

prop("C19", "Factorials are exact for every integer type and argument",
 "Factorial, double factorial and k-step factorial equal the exact product for every argument of every integer type whose result is representable, are zero for negative arguments and one for zero, never depend on internal tables or their limits, and terminate for every such argument.",
 ["inputs"],
 "every (n, k) with a representable result for all twelve integer types (complete enumeration for 8- and 16-bit types; n up to the overflow limit and beyond the tables for the wider types)",
 "Tests check a table of a few values for some types.",
 [S + "special/factorial.rs"], [("cached tables plus product from the largest cached value", S + "special/factorial.rs")], ["returned value", "termination"])

prop("C20", "Combination, permutation and Stirling counts are exact and total",
 "Combinations with and without repetition, permutations and Stirling numbers of the second kind equal their exact counts for every argument of every integer type for which the result is representable, zero where the definition says zero (negative arguments, too large k), without intermediate overflow.",
 ["inputs"],
 "every (n, k) with a representable result for all integer types (complete for 8-bit types, bounded n,k for wider ones plus the extremes n near MAX)",
 "Tests check small tables for some types.",
 [S + "special/combinatorics.rs"], [("product/division loop, recursion", S + "special/combinatorics.rs")], ["returned value", "panic/no panic"])

prop("C21", "Modified Bessel functions are accurate over the whole line",
 "The order-zero modified Bessel function and its exponentially scaled version agree with the power-series/integral definition to near machine precision for every argument (the unscaled one as long as the exponential of the argument is representable), are even, continuous across internal region boundaries, monotone in the magnitude of the argument, related to one another by the exponential factor, and apply elementwise to containers.",
 ["inputs"],
 "a dense grid on both sides of every region boundary, every binade from tiny to the overflow limit, both signs, zero, f32 and f64, slices and arrays of every small shape",
 "Tests check about five points.",
 [S + "special/bessel.rs", S + "special/xsf/i0.rs", S + "special/xsf/chbevl.rs"],
 [("Chebyshev expansions on two regions", S + "special/xsf/i0.rs")], ["returned values"])

prop("C22", "The square wave has the right phase, duty cycle, range and shape",
 "The square wave is +1 on the first duty fraction of each 2-pi period and -1 on the rest for every time (negative included), for every duty cycle between 0 and 1 inclusive, elementwise with the shape preserved for every array rank; duty cycles outside that range are rejected.",
 ["inputs", "configurations"],
 "phases on a grid in every period from -3 to +3 and far away, duty grid including 0, 1 and boundaries approached from both sides, ranks 0 to 4, f32 and f64",
 "Tests use one or two arrays and duty values.",
 [S + "signal/wave/mod.rs"], [("phase reduction and comparison", S + "signal/wave/mod.rs")], ["returned array", "panic/no panic"])

prop("C23", "Companion matrices are exact and never touch memory outside the matrix",
 "The companion matrix of a polynomial has the negated normalised coefficients in its first row, ones on the subdiagonal and zeros elsewhere, so that its characteristic polynomial is the normalised input, for every degree and leading coefficient; inconsistent size arguments are handled without reading or writing outside the matrix.",
 ["inputs"],
 "every degree up to the bound, coefficient alphabets with positive, negative and zero entries, size arguments smaller and larger than the number of coefficients",
 "One test checks one 3x3 example.",
 [S + "linalg/companion.rs"], [("unchecked writes guarded by the size argument", S + "linalg/companion.rs")], ["matrix entries", "memory safety", "panic/no panic"])

prop("C24", "Plotting is best effort: the interpreter's failures never reach the caller",
 "Plotting hands every series, in order and with its finite samples intact, to the interpreter, waits (once the whole script is handed over) for the interpreter to finish, and returns normally whatever the interpreter does: missing, unexecutable, exiting early or with an error, being killed, closing its input before reading it, or being slow. The script it hands over draws, on axes of their own, the samples of each series and its autocorrelation, normalised to one at lag zero, against the lag.",
 ["fault_sequences", "inputs"],
 "every fault at every stage of the interpreter's life (spawn, before read, mid read, after read, exit status, signal), for 0..k series of 0..m samples and a script larger than a pipe buffer",
 "There is no automated test of plotting.",
 [S + "plot.rs"], [("spawn, pipe, wait", S + "plot.rs")], ["return of the call", "bytes received by the interpreter"])

prop("C25", "Safe calls never touch memory they do not own",
 "No call through the public API, with any arguments and whether it succeeds or rejects them, reads or writes outside the memory it owns, or lets the contents of uninitialised memory influence its result: extension lengths at, below and beyond the data length on either axis, coefficient iterators shorter or longer than the declared size, empty and degenerate vectors and matrices, output buffers of another length than the input, mismatched numbers of zeros, poles, sections and frequencies.",
 ["inputs", "configurations"],
 "every entry point that takes sizes, all argument sizes from empty to beyond the limit, every memory layout (blocks against an inaccessible page before or after, two fillings of fresh memory)",
 "Tests call with consistent, ordinary sizes; a stray read or write of a few bytes has no visible effect in them.",
 [S + "signal/filter/ext.rs", S + "signal/filter/lfilter_zi.rs", S + "linalg/companion.rs", S + "special/xsf/chbevl.rs", S + "signal/filter/sosfilt.rs", S + "signal/resample.rs", S + "signal/convolve.rs"],
 [("unchecked matrix accesses", S + "signal/filter/ext.rs"), ("unchecked accumulation", S + "signal/filter/lfilter_zi.rs"), ("unchecked writes", S + "linalg/companion.rs")],
 ["memory faults", "red zones", "results under different memory contents"])

prop("C26", "Every result depends on the arguments alone, never on earlier calls",
 "For every finite history of calls into the library, including rejected calls, each call returns exactly what it returns as the first call of a fresh process: results are reproducible bit for bit and independent of what was computed before, with whatever sizes, precisions, designs or parameters.",
 ["histories"],
 "every ordered pair of calls from a catalogue over the whole public API, every triple within a family of calls that differ in one argument, triples across families, long repetitions, each in a fresh process",
 "Each test makes a few calls and none compares a call with the same call after a different history.",
 [S + "signal", S + "stats.rs", S + "special", S + "linalg"],
 [("FFT planning", S + "signal/resample.rs"), ("factorial tables", S + "special/factorial.rs"), ("coefficient computation", S + "signal/filter/savgol_filter.rs"), ("filter design", S + "signal/filter/design/iirfilter.rs")],
 ["bit patterns of returned values", "panic/no panic"])

prop("C27", "Streaming entry points are allocation-free and never run ahead of their input",
 "The non-allocating entry points (the *_st filters, single-sample filtering, the fixed-size fast statistics, the iterator statistics other than the median family, and the scalar special functions) make no heap allocation for any size of input and any number of sections. The streaming filter takes no input before its first output is requested, takes exactly one input per output, ends exactly when the input ends, and when dropped after any number of outputs leaves the delay state of exactly those samples and the remaining input untaken.",
 ["histories", "inputs"],
 "every number of samples pulled from streams of every length, every number of sections, dropped or exhausted; allocation counts of each entry point over all sizes up to the bound",
 "Tests compare collected outputs only; they see neither allocations nor the order of input and output.",
 [S + "signal/filter/sosfilt.rs", S + "stats.rs", S + "special/factorial.rs", S + "special/combinatorics.rs", S + "special/xsf/i0.rs"],
 [("lazy per-sample filtering", S + "signal/filter/sosfilt.rs"), ("fixed-size accumulation", S + "stats.rs")],
 ["allocation count", "inputs taken after each output", "delay state", "outputs"])

prop("C28", "A designed filter filters as designed",
 "For every digital design in second-order sections (Butterworth, Chebyshev I and II; recorded defects of the Chebyshev II high-pass and band-stop excepted), filtering realises the analytic response of the request: the response to an impulse has the designed gain and phase at every frequency, a sinusoid in steady state comes out with that gain and phase, zero-phase filtering applies the squared gain with no phase, the single-precision path agrees with the generic one, a constant entered from the steady state stays constant, and naming the frequencies in units of a sampling rate changes nothing.",
 ["inputs", "configurations"],
 "a grid of families, orders, bands, cut-offs and sampling rates; impulse, step and sinusoid inputs",
 "Tests compare coefficients or filtered samples with stored values for two or three filters.",
 [S + "signal/filter/design/iirfilter.rs", S + "signal/filter/design/zpk2sos.rs", S + "signal/filter/sosfilt.rs", S + "signal/filter/sosfiltfilt.rs", S + "signal/filter/sosfilt_zi.rs"],
 [("design to sections", S + "signal/filter/design/iirfilter.rs"), ("section cascade", S + "signal/filter/sosfilt.rs"), ("forward-backward filtering", S + "signal/filter/sosfiltfilt.rs")],
 ["filtered samples against the closed-form response"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
