#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = "spafe/features/"
U = "spafe/utils/"
B = "spafe/fbanks/"
Q = "spafe/frequencies/"
ALLF = [F + x for x in ("mfcc.py", "lfcc.py", "bfcc.py", "gfcc.py", "ngcc.py", "msrcc.py", "psrcc.py", "pncc.py", "lpc.py", "rplp.py", "cqcc.py", "spfeats.py")]
P = []


def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": hook}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    assert len(title) <= 80, title
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})


prop("C01", "Every call is a pure function of its arguments",
     "Calling any feature extractor, spectrogram, filter bank, converter or utility returns a result that depends only on the values of its arguments: not on earlier calls, on later in-place changes to arrays passed or returned before, or on global state. A call never modifies the arrays, lists or window objects passed to it, never returns memory shared with them or with another call's result (a lifter that is a no-op may hand back its input), and leaves numpy's error settings, random generators and Python's warning filters as it found them.",
     ["histories", "inputs", "configurations"],
     "for every sequence of calls with arbitrary (also nearly identical) arguments, with arguments and results scribbled over between calls, the n-th result equals the result of the same call in a fresh interpreter",
     "The tests make single calls with fresh objects and never look at the arguments again, so caches with incomplete keys, in-place edits and shared buffers are invisible to them.",
     ALLF + [B + "mel_fbanks.py", B + "bark_fbanks.py", B + "gammatone_fbanks.py", B + "linear_fbanks.py", U + "preprocessing.py", U + "cepstral.py", U + "spectral.py", U + "filters.py", Q + "fundamental_frequencies.py", Q + "dominant_frequencies.py"],
     [("frames are cut from a private copy of the signal", U + "preprocessing.py:stride_trick"), ("no module-level mutable state; every array is freshly allocated", "all modules")],
     ["arguments before and after each public call", "results of call histories against a fresh process"])

prop("C02", "Concurrent calls return the sequential results",
     "Any number of threads may call the library at the same time, also with the same signal, window and filter bank objects, and every call returns what it would return if it ran alone. No interleaving loses, mixes or corrupts results or raises an exception.",
     ["schedules", "inputs"],
     "for every interleaving of every mix of calls by several threads",
     "All tests are single threaded.",
     ALLF + [U + "preprocessing.py", U + "spectral.py", B + "mel_fbanks.py", B + "bark_fbanks.py", B + "gammatone_fbanks.py"],
     [("no shared scratch buffers or caches", "all modules")],
     ["results of the calls of all threads under injected yields"])

prop("C03", "Framing returns exactly the overlapping slices of the signal",
     "Cutting a signal of N samples into frames of L = int(win_len*fs) samples with hop H = int(win_hop*fs) yields exactly (N-L)//H + 1 frames, and frame i holds samples i*H to i*H+L-1 unchanged, together with the frame length L. No sample outside the signal is ever read, no complete frame is dropped or repeated, and this holds for the frames used inside every extractor.",
     ["inputs", "configurations"],
     "for every signal length, dtype, memory layout (views, reversed, column vectors), sampling rate, window length and hop that yields at least one frame",
     "Tests frame one wav file with two window settings and only look at shapes; a strided view that runs past the buffer returns plausible numbers.",
     [U + "preprocessing.py"],
     [("as_strided with nrows = (N - L)//H + 1", U + "preprocessing.py:stride_trick"), ("seconds to samples by truncation", U + "preprocessing.py:framing")],
     ["framing results in isolation and nested in every extractor", "bounds of each strided view against the allocation behind it"])

prop("C04", "Windowing and pre-emphasis compute the documented filters exactly",
     "Pre-emphasis returns y[t] = x[t] - coeff*x[t-1] with y[0] = x[0] for every sample, coefficient and signal dtype; windowing multiplies every frame by the named symmetric window of the given length (hanning, bartlet, kaiser with beta 14, blackman, hamming). Every extractor and spectrogram that has the options applies the given coefficient, only when pre-emphasis is on, to the whole signal before framing, and applies the requested window type.",
     ["inputs", "configurations"],
     "for every signal, coefficient, frame length and window type, in every extractor: enabling pre-emphasis equals passing the already filtered signal with pre-emphasis off",
     "Tests use coefficient 0.97 and the hamming window nearly everywhere and assert shapes; they passed while several extractors ignored both options.",
     [U + "preprocessing.py"] + ALLF,
     [("FIR filter [1, -coeff]", U + "preprocessing.py:pre_emphasis"), ("window table", U + "preprocessing.py:windowing"), ("if pre_emph: sig = pre_emphasis(...)", "every extractor")],
     ["pre_emphasis and windowing results", "extractor(pre_emph on) against extractor(filtered signal)"])

prop("C05", "Frequency scale conversions follow their formulas and invert each other",
     "For every approach, converting Hz to mel, bark or erb follows the published formula, is strictly increasing, and converting back returns the original frequency (and the other way round) up to rounding over the whole audio range. Integers, floats and numpy scalars or arrays of the same value give the same result.",
     ["inputs", "configurations"],
     "for every frequency in [0, 96 kHz] where the scale is defined, and every conversion approach",
     "Tests compare a conversion with itself, or check a handful of even integers below 30.",
     [U + "converters.py"],
     [("closed-form pairs", U + "converters.py:hz2mel/mel2hz, hz2bark/bark2hz, hz2erb/erb2hz")],
     ["return values, alone and nested in the filter bank constructors"])

prop("C06", "Mel, inverse mel and linear banks are aligned triangular partitions",
     "The mel, inverse mel and linear filter banks have one row per filter and one column per FFT bin 0..nfft//2, every weight lies in [0, 1], and row i is the triangle that is 1 at its centre, falls linearly in Hz to 0 at the centres of its neighbours (low_freq and high_freq at the ends) and is sampled at the true bin frequencies k*fs/nfft. Centres are ascending and equally spaced in mel (mel bank) or Hz (linear bank) strictly between low_freq and high_freq, the inverse mel bank is the mel bank mirrored within [low_freq, high_freq], adjacent rows therefore sum to 1 between the first and last centre, and the returned centre frequencies are those of the rows.",
     ["inputs", "configurations"],
     "for every nfilts, nfft (even and odd), fs, 0 <= low_freq < high_freq <= fs/2, approach",
     "Tests only check the shape and that minimum and maximum are not out of range for a few settings; they passed while the rows were misaligned with the FFT bins.",
     [B + "mel_fbanks.py", B + "linear_fbanks.py"],
     [("triangles from lower/centre/upper edges", B + "mel_fbanks.py:mel_filter_banks_helper"), ("mirroring for the inverse bank", B + "mel_fbanks.py:inverse_mel_filter_banks")],
     ["returned matrices and centre frequencies"])

prop("C07", "Bark and gammatone banks have the published filter shapes",
     "Each bark filter has weight 1 within half a bark of its centre, 10^(2.5(z+0.5)) below and 10^(-(z-0.5)) above in bark distance z from the centre, 0 outside [-1.3, 2.5] bark and outside the band [low_freq, high_freq], with centres equally spaced on the chosen bark scale from low_freq to high_freq inclusive. Each gammatone filter is the magnitude response at the FFT bin frequencies of the fourth-order gammatone filter at its centre, normalised to a maximum of 1, with centres ascending from low_freq and spaced as in the ERB-rate formula; both banks have nfilts rows, nfft//2+1 columns, no negative or non-finite weight, and return the centres on the perceptual scale.",
     ["inputs", "configurations"],
     "for every nfilts, nfft, fs, 0 <= low_freq < high_freq <= fs/2, conversion approach and gammatone order",
     "Tests check shapes and value ranges for a few settings only.",
     [B + "bark_fbanks.py", B + "gammatone_fbanks.py"],
     [("piecewise bark filter", B + "bark_fbanks.py:Fm"), ("gammatone response and normalisation", B + "gammatone_fbanks.py:gammatone_filter_banks")],
     ["returned matrices and centre frequencies"])

prop("C08", "The scale option multiplies filter i by its documented gain only",
     "For every filter bank, 'ascendant' equals the 'constant' bank with row i multiplied by i/nfilts and 'descendant' with row i multiplied by (nfilts+1-i)/nfilts (for the inverse mel bank the two are exchanged), with unchanged centre frequencies. In every extractor that takes the option it acts exactly as the correspondingly scaled filter bank.",
     ["inputs", "configurations"],
     "for every bank, bank parameters and extractor",
     "Tests check that the maximum of the scaled bank is where expected for one bank size; the effect on features is never checked.",
     [U + "filters.py", B + "mel_fbanks.py", B + "bark_fbanks.py", B + "gammatone_fbanks.py", B + "linear_fbanks.py"] + ALLF,
     [("row gains", U + "filters.py:scale_fbank"), ("scale passed through", "all extractors")],
     ["banks and features under the three scales"])

prop("C09", "Spectrograms are the frame power spectra seen through the filter bank",
     "The mel, bark, erb and linear spectrograms have one row per frame and one column per filter, and entry (i, j) is the sum over bins k of weight[j,k] * |FFT_nfft(windowed frame i)[k]|^2 / nfft; the second result holds the magnitudes |FFT| at bins 0..nfft//2 of every frame. Each filter bank energy is therefore non-negative and additive over the bins of the bank requested by the parameters (or of the bank passed in).",
     ["inputs", "configurations"],
     "for every signal and every combination of fs, window, nfft (smaller, equal or larger than the frame, even or odd), bank parameters and pre-emphasis",
     "Tests never look at spectrogram values.",
     [F + "mfcc.py", F + "bfcc.py", F + "gfcc.py", F + "lfcc.py"],
     [("|FFT|^2/nfft times the transposed bank", F + "mfcc.py:mel_spectrogram, bfcc.py:bark_spectrogram, gfcc.py:erb_spectrogram, lfcc.py:linear_spectrogram")],
     ["both results of each spectrogram function"])

prop("C10", "Cepstral features are the DCT of the compressed filter bank energies",
     "For each frame, MFCC, IMFCC, LFCC and NGCC are the first num_ceps coefficients of the orthonormal DCT of the requested type of the log of that frame's mel, inverse mel, linear or gammatone energies; GFCC uses the cube root of the gammatone energies, MSRCC the gamma-th power of the mel energies, BFCC the log of the equal-loudness compressed bark energies and PSRCC the gamma-th power of the mel-weighted FFT phases in degrees [0, 360). Exact zeros are replaced by machine epsilon before a logarithm, and the result is a float array of shape (number of frames, num_ceps).",
     ["inputs", "configurations"],
     "for every signal and every combination of fs, num_ceps <= nfilts, window, nfft, band edges, scale, dct_type 1-4, gamma and conversion approach",
     "Tests check output shapes and ParameterErrors; no test compares a single coefficient with an independent value.",
     [F + x for x in ("mfcc.py", "lfcc.py", "bfcc.py", "gfcc.py", "ngcc.py", "msrcc.py", "psrcc.py")],
     [("nonlinearity then dct(type, norm='ortho')[:, :num_ceps]", "each extractor")],
     ["extractor results against an independent reference pipeline"])

prop("C11", "Energy, liftering and normalisation act last, in order, as documented",
     "With use_energy the first coefficient of every frame is replaced by the log of that frame's total power (sum of |FFT|^2/nfft) and nothing else changes; liftering then multiplies column n by n^lift (column 0 by 1) for 0 < lift <= 10, by 1 + L/2*sin(pi*(n+1)/L) for lift = -L < 0, and leaves the features unchanged otherwise; normalisation is applied to the liftered result and equals the documented formula for mvn, ms, vn and mn. The same options give the same transformation in every extractor that offers them.",
     ["inputs", "configurations"],
     "for every extractor, signal and combination of use_energy, lifter and normalize",
     "Tests compare lifter and normalisation with the same helper on one wav file, one option at a time; order and energy values are unchecked.",
     [U + "cepstral.py"] + ALLF,
     [("normalisation formulas", U + "cepstral.py:normalize_ceps"), ("lifter", U + "cepstral.py:lifter_ceps"), ("use_energy -> lifter -> normalize", "tail of each extractor")],
     ["option-on results against option-off results transformed by the reference"])

prop("C12", "A filter bank passed in is used as given, whatever its parameters say",
     "Passing the bank that the parameters describe gives the same features as passing none, for every extractor that accepts one. Passing any other matrix of suitable width uses exactly that matrix (permuting, zeroing or scaling its rows permutes, zeroes or scales the corresponding energies) and the bank parameters then have no further influence on the result.",
     ["inputs", "configurations"],
     "for every extractor with an fbanks parameter and every non-negative matrix of shape (nfilts, nfft//2+1)",
     "Tests check equality with the predefined bank for one configuration.",
     [F + x for x in ("mfcc.py", "lfcc.py", "bfcc.py", "gfcc.py", "ngcc.py", "msrcc.py", "psrcc.py", "pncc.py", "rplp.py")],
     [("if fbanks is None: compute", "each extractor")],
     ["results with and without fbanks"])

prop("C13", "LPC coefficients are the optimal linear predictor of each windowed frame",
     "For every frame the returned coefficients start with 1 and solve the autocorrelation normal equations of the windowed frame, so no other predictor of that order has a smaller residual energy, and the returned gain term equals that minimal residual energy (never negative, never above the frame energy). A signal generated by a stable all-pole model is recovered, the prediction polynomial is minimum phase, and a silent frame yields the trivial predictor with error 0.",
     ["inputs", "configurations"],
     "for every signal, order, sampling rate, window and pre-emphasis setting",
     "Tests assert the shape only; they passed while the window was ignored and the error term was wrong.",
     [F + "lpc.py"],
     [("Toeplitz normal equations", F + "lpc.py:__lpc_helper"), ("frames/windows", F + "lpc.py:lpc")],
     ["a and e of every frame against the normal equations"])

prop("C14", "LPCC are the cepstrum of the LPC model of each frame",
     "For every frame, LPCC coefficient 0 is the log of the LPC error and coefficients 1..n are the power series coefficients of log(1/A(z)) for that frame's prediction polynomial A. The conversion from LPC to cepstrum obeys the same recursion for any stable polynomial, whether fewer or more cepstra than coefficients are requested.",
     ["inputs", "configurations"],
     "for every signal and LPC configuration, and for every polynomial, error and number of cepstra passed to the conversion",
     "Tests assert shapes and lifter/normalisation self-consistency; they passed with a wrong recursion.",
     [F + "lpc.py"],
     [("recursion", F + "lpc.py:lpc2lpcc")],
     ["lpcc rows against a reference cepstrum", "lpc2lpcc on random stable polynomials"])

prop("C15", "PLP and RASTA-PLP are the LPC cepstra of the loudness-compressed spectrum",
     "PLP equals, frame by frame, the LPC cepstrum of the inverse FFT of the loudness-compressed bark spectrum; RASTA-PLP additionally filters the log energy of every critical band along time with the RASTA band-pass (numerator [2,1,0,-1,-2]/10, pole 0.94, first four frames reset to zero), each band independently of the others. RASTA-PLP is therefore unaffected by a constant gain on the signal and never looks at later frames.",
     ["inputs", "configurations"],
     "for every signal, order, window, nfft, bank parameters, lifter and normalisation",
     "Tests assert shapes and lifter/normalisation self-consistency; they passed with the RASTA filter running across bands.",
     [F + "rplp.py", F + "lpc.py", U + "filters.py"],
     [("RASTA filter per band", U + "filters.py:rasta_filter"), ("equal loudness and cube root, ifft, lpc, lpc2lpcc", F + "rplp.py:__rastaplp")],
     ["plp/rplp rows and rasta_filter results against references, gain metamorphic pairs"])

prop("C16", "The constant-Q transform and CQCC measure geometric frequency bins",
     "The constant-Q spectrogram has one row per bin frequency f0*2^(k/bins_per_octave) within [low_freq, high_freq] whose window ceil(Q*fs/f) fits into nfft samples, and one column per frame; each entry is the inner product of the windowed frame with that bin's windowed complex exponential centred in the FFT frame, with spectral kernel values up to the threshold set to zero. CQCC are the first num_ceps coefficients of the orthonormal DCT of the log power of those bins per frame after resampling along the frames by the requested ratio.",
     ["inputs", "configurations"],
     "for every signal, window, nfft, octave/bin/f0/q_rate/threshold setting, resampling ratio and DCT type",
     "Tests assert shapes only.",
     [U + "spectral.py", F + "cqcc.py"],
     [("sparse spectral kernel", U + "spectral.py:compute_constant_qtransform"), ("log, resample, dct", F + "cqcc.py:cqcc")],
     ["transform values against a time-domain inner product reference", "cqcc against a reference tail"])

prop("C17", "PNCC implements the published stages on every frame and channel",
     "Medium-time power averages the 2M+1 surrounding frames, the asymmetric filter tracks each channel from an initial state of 0.9 times the first value using the rising or falling constant at each step, temporal masking follows the decaying peak, spectral weights are averaged over all channels within N of each channel, power is normalised by the running mean, and PNCC is the orthonormal DCT of the 1/15-th power of the result. No frame's features depend on frames more than M later.",
     ["inputs", "configurations"],
     "for every signal and option, and for every non-negative matrix passed to the individual stages",
     "Tests assert shapes only; they passed with the first channel excluded from smoothing and the initial state lost.",
     [F + "pncc.py"],
     [("stage functions", F + "pncc.py")],
     ["each stage's input and output as called by pncc", "pncc against a reference pipeline"])

prop("C18", "Every extractor returns finite features on any finite signal",
     "On silence, leading, trailing or embedded runs of zeros, constants, impulses, alternating or clipped signals, integer full-scale and very quiet or loud signals, with filters that cover no FFT bin and at the shortest length of exactly one frame, every spectrogram and extractor (without normalisation) returns an array of the documented shape with no NaN or infinity and raises nothing. Pitch and dominant frequency estimation return finite values as well.",
     ["inputs", "configurations"],
     "for every finite signal of at least one frame and every valid configuration",
     "Tests use one speech recording, which never hits an empty filter, a zero frame or a singular autocorrelation.",
     ALLF + [Q + "fundamental_frequencies.py", Q + "dominant_frequencies.py", U + "preprocessing.py"],
     [("zero_handling before log and powers", U + "preprocessing.py:zero_handling"), ("pseudo-inverse", F + "lpc.py:__lpc_helper")],
     ["results and exceptions under degenerate signals"])

prop("C19", "Features of a frame depend only on that frame's samples",
     "Row i of every frame-wise extractor and spectrogram depends only on the samples of frame i (plus the preceding sample when pre-emphasis is on): changing samples elsewhere, appending or dropping samples, or processing the signal in segments cut at multiples of the hop leaves it unchanged, and delaying the signal by k hops shifts the rows by k. PNCC rows may depend on all earlier frames but only two later ones, RASTA-PLP rows on no later frame.",
     ["inputs", "configurations"],
     "for every signal, window, hop, edit position and extractor option other than normalisation, resampling and RASTA/PNCC history",
     "Tests only run whole recordings.",
     ALLF + [U + "preprocessing.py", Q + "dominant_frequencies.py", Q + "fundamental_frequencies.py"],
     [("per-frame processing along axis 1", "all extractors")],
     ["pairs of runs on edited, truncated, extended and shifted signals"])

prop("C20", "Dominant frequency is the frequency of the strongest FFT bin of each frame",
     "For every frame the reported dominant frequency is k*fs/nfft rounded to 3 decimals, where k is the bin with the largest magnitude of the nfft-point FFT of the windowed frame, so a stationary tone is reported within one bin width of its true frequency for every sampling rate and FFT size. With the Butterworth option the same holds for the band-pass filtered signal, and one value is returned per frame.",
     ["inputs", "configurations"],
     "for every signal, fs, nfft, window, hop, cut-off pair",
     "The test compares the result with itself through a rough range check; it passed while tones were reported at twice their frequency.",
     [Q + "dominant_frequencies.py"],
     [("rfft, argmax, frequency axis", Q + "dominant_frequencies.py:get_dominant_frequencies")],
     ["returned frequencies against an independent FFT argmax and against synthetic tones"])

prop("C21", "YIN pitch estimates follow the cumulative mean normalised difference",
     "For every frame the difference function is sum_j (x[j]-x[j+tau])^2, the normalised function is its cumulative-mean normalisation with value 1 at lag 0, and the pitch is fs divided by the first lag in [fs/high_freq, fs/low_freq) where it drops below the threshold, followed downhill to the local minimum, or 0 if there is none; the harmonic rate is the value at that lag, or the overall minimum. A clean periodic signal is therefore reported with its period to the nearest lag, silent frames are unvoiced, and the four result arrays have one entry per frame start time.",
     ["inputs", "configurations"],
     "for every signal (any dtype), fs, window, hop, search range and threshold",
     "Tests run one recording and check ranges.",
     [Q + "fundamental_frequencies.py"],
     [("difference via fftconvolve and cumulative sums", Q + "fundamental_frequencies.py:compute_difference"), ("lag search", Q + "fundamental_frequencies.py:get_pitch")],
     ["the four results against a brute-force YIN"])

prop("C22", "Spectral statistics equal their definitions on the magnitude spectrum",
     "For every spectrum the centroid (of any order), spread, skewness, kurtosis, normalised entropy, flatness, roll-off bin and flux equal their documented formulas on the magnitudes with bin frequencies from 0 to fs/2, and the combined extraction returns those values, plus the mean, rms, standard deviation and variance of the magnitudes, for the nfft-point one-sided spectrum of the signal. All are real numbers; centroid lies within [0, fs/2], entropy and flatness within [0, 1], and the shape measures do not change with the signal's gain.",
     ["inputs", "configurations"],
     "for every signal, sampling rate and nfft, and every complex or real spectrum with non-zero energy",
     "Tests call the functions on one file and compare rough ranges or the function with itself; they passed with a wrong roll-off, complex means and a misplaced frequency axis.",
     [F + "spfeats.py"],
     [("formulas", F + "spfeats.py")],
     ["each statistic against the definition, alone and in extract_feats"])

prop("C23", "Deltas are the windowed linear slopes with replicated edges",
     "For every matrix and window size w, delta[r, t] equals the sum over k = -floor(w/2)..floor(w/2) of k*x[r, t+k], with the first and last columns repeated beyond the edges, so the result has the shape of the input and rows do not influence each other. Constants have zero delta, ramps a constant delta away from the edges, and the operation is linear and can be chained for higher-order deltas.",
     ["inputs", "configurations"],
     "for every matrix (any shape with at least one row and column, any numeric dtype) and window size",
     "Tests check one matrix.",
     [U + "cepstral.py"],
     [("edge replication and FIR", U + "cepstral.py:deltas")],
     ["deltas against a direct sum"])

prop("C24", "Invalid parameters are rejected everywhere and valid boundaries accepted",
     "Every filter bank, and every spectrogram or extractor that builds one, raises ParameterError for a negative low_freq or a high_freq above fs/2 (the constant-Q functions for the latter), every filter bank extractor for fewer filters than cepstra, and every framed extractor for a window shorter than its hop, whatever the signal and other options; unknown window, scale, normalisation or mel approach names raise an error instead of being ignored. The boundary values low_freq = 0, high_freq = fs/2, num_ceps = nfilts and win_len = win_hop are accepted and give regular results.",
     ["inputs", "configurations"],
     "for every entry point, violated parameter, magnitude of the violation and setting of the other options",
     "Tests check one violation value per function, with all other options fixed.",
     ALLF + [B + "mel_fbanks.py", B + "bark_fbanks.py", B + "gammatone_fbanks.py", U + "preprocessing.py", U + "exceptions.py"],
     [("run checks block", "each bank/extractor"), ("win_len < win_hop", U + "preprocessing.py:framing")],
     ["exceptions raised by each entry point"])

prop("C25", "Signal gain acts on features as the theory says",
     "Multiplying the signal by g > 0 multiplies spectrograms by g^2, LPC errors by g^2, GFCC by g^(2/3), MSRCC by g^(2*gamma) and constant-Q values by g; it adds one and the same constant vector (the DCT of the constant 2*log g) to every frame of MFCC, IMFCC, LFCC, NGCC and CQCC, and 2*log g to LPCC coefficient 0 only. LPC coefficients, PSRCC, RASTA-PLP, pitch and dominant frequencies do not change, and flipping the sign of the signal changes nothing but PSRCC and the sign of constant-Q values.",
     ["inputs", "configurations"],
     "for every signal without exactly silent bands, every gain over many orders of magnitude, and every option other than normalisation",
     "No test compares two related signals.",
     ALLF + [Q + "fundamental_frequencies.py", Q + "dominant_frequencies.py"],
     [("no absolute thresholds except exact zero", U + "preprocessing.py:zero_handling")],
     ["pairs of results for scaled signals"])

prop("C26", "Equal sample values give equal features in any representation",
     "A signal given as a list, a tuple, a non-contiguous or reversed view, a read-only or Fortran-ordered array, or with any integer or floating dtype that represents the samples exactly gives the same features as the plain float64 array. The framed extractors accept an (N,1) column as the same signal as well. Integer samples never wrap around or get truncated at any stage, and sampling rates or numeric options given as numpy scalars or equal floats behave as the Python numbers.",
     ["inputs", "configurations"],
     "for every extractor and every representation of the same values, including full-scale int16/int32/uint8 samples",
     "Tests pass the int16 array read from one wav file (and never compare with float).",
     ALLF + [U + "preprocessing.py", Q + "fundamental_frequencies.py", Q + "dominant_frequencies.py"],
     [("copy into a fresh array; windowing in float64", U + "preprocessing.py:stride_trick, windowing"), ("float64 cast", Q + "fundamental_frequencies.py:compute_difference")],
     ["results for re-encoded signals"])

prop("C27", "Plots show the data they are given",
     "The plotting helpers draw every filter of the bank against the given reference frequencies with the second axis labelled by the requested perceptual scale, show every feature frame in order with the first coefficient at the bottom, and show a spectrogram in dB relative to its maximum clipped to the requested dynamic range over the given extent. Labels, title and size are those requested and the data passed in are not modified.",
     ["inputs", "configurations"],
     "for every matrix (also all zero, single row or column) and labelling option",
     "Tests only call the helpers and check that a figure exists.",
     [U + "vis.py"],
     [("dB conversion and clipping", U + "vis.py:show_spectrogram"), ("imshow(feats.T)", U + "vis.py:show_features"), ("tick labels", U + "vis.py:tick_function")],
     ["the matplotlib figure that results from each call"])

prop("C28", "Omitted options mean their documented neutral values",
     "For every entry point, leaving out window, high_freq, fbanks, lifter or normalize means a 25 ms hamming window with a 10 ms hop, fs/2, the bank described by the parameters, no liftering and no normalisation; passing the documented default values explicitly, by keyword or by position in the documented order, changes nothing. A lifter of 0 or above 10, a pre-emphasis coefficient of 0 and a resampling ratio of 1 are no-ops.",
     ["inputs", "configurations"],
     "for every entry point, signal, sampling rate and subset of options left out",
     "Tests pass all options explicitly and never compare with the defaults.",
     ALLF + [B + "mel_fbanks.py", B + "bark_fbanks.py", B + "gammatone_fbanks.py", B + "linear_fbanks.py", U + "preprocessing.py"],
     [("signature defaults; high_freq or fs/2; window or SlidingWindow()", "each entry point")],
     ["pairs of calls with options omitted and spelled out"])

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
