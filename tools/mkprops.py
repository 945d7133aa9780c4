#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as a script so that the statements stay readable)."""
import json, os
P = []
def p(i, title, stmt, over, text, why, files, mech, obs, state=()):
    assert len(title) <= 80, (i, len(title))
    P.append(dict(id=i, title=title, statement=" ".join(stmt.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=obs, hook_needed=None)))
F = "spafe/features/"; U = "spafe/utils/"; B = "spafe/fbanks/"; Q = "spafe/frequencies/"
ALLF = [F + x + ".py" for x in "mfcc lfcc bfcc gfcc ngcc msrcc psrcc pncc lpc rplp cqcc".split()]
ALLB = [B + x + "_fbanks.py" for x in "mel linear bark gammatone".split()]

p("C01", "Invalid parameters are rejected with ParameterError, valid ones never are",
  """Every filter-bank constructor, and every spectrogram or feature extractor that builds its own bank, raises ParameterError
  when low_freq is negative or high_freq exceeds fs/2 (the CQT family checks high_freq only); every cepstral extractor with a
  filter count raises it when that count is smaller than the number of coefficients asked for, and every
  spectrogram, frame-based extractor, framing itself and the dominant-frequency tracker raise it when the window is shorter than the hop. On a valid combination, including the boundaries high_freq = fs/2,
  filter count = coefficient count and window = hop, no ParameterError is raised and a result is returned.""",
  ["inputs", "configurations"], "every public entry point, every combination of the checked parameters around their boundaries",
  "Tests probe a few far-from-boundary invalid values per function; they do not enumerate functions x parameters x boundary sides.",
  ALLB + ALLF + [U + "preprocessing.py", U + "exceptions.py"],
  [("explicit comparisons raising ParameterError", "heads of the bank constructors, extractors and framing()")],
  ["exception class or return of each public call"])
p("C02", "Framing cuts the signal into exactly the frames implied by length and hop",
  """For a signal of N samples, window length L = int(win_len*fs) and hop S = int(win_hop*fs) with 1 <= S <= L <= N, framing returns
  L together with exactly floor((N-L)/S)+1 frames, and sample j of frame m is sample m*S+j of the signal, bit for bit and in the
  input's dtype. No sample outside the signal is ever read, and only an incomplete tail is dropped.""",
  ["inputs", "configurations"], "all N, L, S, sampling rates, dtypes and memory layouts of the signal",
  "Tests check one wav file and default windows; off-by-one frame counts and overlap errors depend on (N-L) mod S.",
  [U + "preprocessing.py"], [("frame count formula and stride arithmetic", "stride_trick()/framing()")],
  ["return value of framing and stride_trick"], [("frame index", "position m*S of the frame in the signal", U + "preprocessing.py")])
p("C03", "Windowing multiplies every frame by the named symmetric taper",
  """Windowing returns frames multiplied sample by sample by the symmetric taper of the given length that the name denotes (Hann,
  Bartlett, Kaiser with beta 14, Blackman or Hamming), the same taper for every frame. Each extractor applies the taper its window
  option names, and the default option is a 25 ms Hamming window every 10 ms.""",
  ["inputs", "configurations"], "all five window types, all frame lengths including 1, 2 and odd ones, all extractors",
  "Tests compare windowing on one length; a swapped or periodic taper in one branch or one extractor keeps shapes and passes.",
  [U + "preprocessing.py"] + ALLF, [("taper table", "windowing()"), ("SlidingWindow defaults", U + "preprocessing.py")],
  ["return of windowing; output of extractors under each window type"])
p("C04", "Pre-emphasis is y[n]=x[n]-c*x[n-1] and every extractor honours its coefficient",
  """Pre-emphasis with coefficient c returns y[0] = x[0] and y[n] = x[n] - c*x[n-1] for every later sample, over the whole signal.
  For every spectrogram and feature extractor that offers it, calling with pre-emphasis on and coefficient c gives the same output
  as pre-emphasising the signal with c first and calling with pre-emphasis off; switched off, the coefficient has no influence.""",
  ["inputs", "configurations"], "all signals, all coefficients, all extractors with a pre_emph option",
  "Tests run the default coefficient 0.97 almost everywhere and compare shapes, so an ignored or hard-wired coefficient passes.",
  [U + "preprocessing.py"] + ALLF, [("lfilter([1,-c],[1])", "pre_emphasis()"), ("if pre_emph: forwarding of the coefficient", "each extractor")],
  ["return of pre_emphasis; extractor outputs with pre-emphasis on/off"])
p("C05", "Mel and linear banks are the triangles spaced evenly on their scale",
  """The mel (linear) filter bank has nfilts rows over the nfft//2+1 FFT bin frequencies; row j is the triangle, in Hz, with peak 1 at
  the j-th of nfilts centres spaced evenly in mel (Hz) strictly between low_freq and high_freq and with feet at the neighbouring
  centres or band edges, and 0 outside. The returned centre frequencies are these centres in mel (Hz), ascending.""",
  ["configurations"], "all nfilts, nfft (odd and even), fs, band edges, both mel formulas",
  "Tests check ranges and shape for a handful of configurations; wrong edges, centres or bin frequencies change values only.",
  [B + "mel_fbanks.py", B + "linear_fbanks.py"], [("edge/centre arithmetic and slope masks", "mel_filter_banks_helper()")],
  ["return of mel_filter_banks and linear_filter_banks"])
p("C06", "Inverse-mel bank is the mel bank mirrored inside the band",
  """Row j of the inverse-mel filter bank is row j of the mel bank with the same parameters reflected about the middle of the band
  [low_freq, high_freq], so every triangle's value at frequency f equals the mel triangle's value at low_freq+high_freq-f. The
  returned centres are the mel values of the reflected centres and the weights are never negative.""",
  ["configurations"], "all nfilts, nfft, fs, band edges (not only 0..fs/2), both mel formulas",
  "Tests only check shape and sign for the default band.", [B + "mel_fbanks.py"],
  [("mirror of edges and centres", "mel_filter_banks_helper() imel branch")], ["return of inverse_mel_filter_banks"])
p("C07", "Bark bank follows the critical-band curve around evenly spaced bark centres",
  """The bark filter bank has nfilts centres spaced evenly in bark from low_freq to high_freq inclusive, returned ascending in bark.
  At every FFT bin between the bins of the first centre (inclusive) and the last centre (exclusive) the weight depends only on the
  bark distance d to the centre: 0 for d < -1.3 or d > 2.5, 10^(2.5(d+0.5)) up to -0.5, 1 inside (-0.5,0.5), 10^(-(d-0.5)) above;
  all other bins are 0.""",
  ["configurations"], "all nfilts, nfft, fs, band edges and the six bark formulas",
  "Tests look at shape and value range for few configurations and never at the curve.", [B + "bark_fbanks.py"],
  [("Fm() curve, bin range", "bark_filter_banks()")], ["return of bark_filter_banks and of the curve function"])
p("C08", "Gammatone bank is the unit-peak 4th-order gammatone response per ERB centre",
  """Row j of the gammatone filter bank is the magnitude response of the fourth-order gammatone filter with the j-th centre frequency,
  evaluated at the nfft//2+1 FFT bin frequencies and normalised to a maximum of exactly 1. The nfilts centres are spaced evenly on the
  ERB-rate scale from low_freq up to just below high_freq, ascending, and are returned in ERB units.""",
  ["configurations"], "all nfilts, nfft, fs, band edges", "Tests check range, shape and only one configuration of values.",
  [B + "gammatone_fbanks.py"], [("centre formula, gain, pole/zero product, max normalisation", "gammatone_filter_banks()")],
  ["return of gammatone_filter_banks and generate_center_frequencies"])
p("C09", "The scale option only reweights bank rows by a linear ramp over frequency",
  """For every bank constructor, scale='constant' leaves the filters at their unit-peak weights, and 'ascendant' ('descendant')
  multiplies the filter with the k-th lowest (highest) centre frequency by k/nfilts and changes nothing else, the centres included.
  Every spectrogram or extractor forwards its scale option, so its result equals the one obtained with that scaled bank supplied explicitly.""",
  ["configurations", "inputs"], "all banks, all extractors with a scale option, all nfilts",
  "Tests only check that scaled banks lie in a value range.", [U + "filters.py"] + ALLB + ALLF,
  [("scale_fbank() ramps and their application", "bank constructors")], ["bank returns; extractor outputs under each scale"])
p("C10", "Frequency-scale conversions are exact, strictly increasing and mutually inverse",
  """For every documented formula, the Hz-to-mel, Hz-to-bark and Hz-to-ERB conversions return the formula's value, are strictly
  increasing in frequency, and are undone by the opposite conversion over the audible range, elementwise on arrays for
  every formula whose opposite conversion accepts arrays. The default formula is the documented one (O'Shaughnessy mel, Wang bark, Glasberg ERB).""",
  ["inputs"], "all frequencies in the valid range, all nine formulas, scalars and arrays",
  "Tests sample a few values and compare some formulas against themselves.", [U + "converters.py"],
  [("closed formulas", "hz2mel/mel2hz/hz2bark/bark2hz/hz2erb/erb2hz")], ["return of the six converters"])
p("C11", "Spectrograms are windowed-frame power spectra weighted by the bank",
  """Each of the mel, linear, bark and ERB spectrograms returns a pair: the magnitudes |FFT| of the windowed (optionally pre-emphasised)
  frames on bins 0..nfft//2, one row per frame, and the matrix whose entry (m,j) is the sum over bins of magnitude^2/nfft times the weight of
  filter j of its own bank. Frames longer than nfft are truncated to nfft samples and shorter ones zero-padded.""",
  ["inputs", "configurations"], "all signals and option combinations of the four spectrograms",
  "Tests plot or check shapes; power/scale/bank mix-ups survive.", [F + x + ".py" for x in ("mfcc", "lfcc", "bfcc", "gfcc")],
  [("fft, squaring, dot with bank", "*_spectrogram()")], ["return of the four spectrogram functions"])
p("C12", "Log-cepstra equal the orthonormal DCT of the log bank energies of each frame",
  """MFCC, IMFCC, LFCC and NGCC are, row by row, the first num_ceps coefficients of the orthonormal DCT of the chosen type of
  the natural logarithm of the frame's power spectrum weighted by the mel, inverse-mel, linear or gammatone bank respectively; BFCC does the
  same with the bark bank after the documented equal-loudness/cube-root power law. A bank energy of exactly zero enters the logarithm as machine epsilon.""",
  ["inputs", "configurations"], "all signals, banks, DCT types, coefficient and filter counts",
  "Tests compare shapes and relations between calls, hardly ever values.", [F + x + ".py" for x in ("mfcc", "lfcc", "bfcc", "ngcc")],
  [("zero_handling, log, dct, slice", "tails of the extractors")], ["return of mfcc, imfcc, lfcc, ngcc, bfcc"])
p("C13", "Root-cepstra equal the DCT of the power-law compressed bank outputs",
  """GFCC is the orthonormal DCT of the cube root of the gammatone-weighted power spectrum, MSRCC of the mel-weighted power
  spectrum raised to gamma, and PSRCC of the mel-weighted FFT phase in degrees, wrapped to [0,360), raised to gamma; all keep the first num_ceps coefficients.
  The exponent given by the caller is the one used, and zero bank outputs enter a negative power as machine epsilon.""",
  ["inputs", "configurations"], "all signals, exponents, banks, DCT types",
  "Tests compare shapes only and always use the default exponent.", [F + x + ".py" for x in ("gfcc", "msrcc", "psrcc")],
  [("power law, phase wrapping, dct", "gfcc(), msrcc(), psrcc()")], ["return of gfcc, msrcc, psrcc"])
p("C14", "use_energy replaces only the first coefficient, by the frame's log energy",
  """For every extractor with the option, turning use_energy on replaces the first coefficient of each frame by the natural log of that
  frame's total power, the sum over bins 0..nfft//2 of |FFT|^2/nfft of the windowed frame (machine epsilon if the frame is silent).
  All other coefficients are exactly those obtained with the option off.""",
  ["inputs", "configurations"], "all signals, all seven-plus extractors offering the option, any lifter/normalisation afterwards",
  "Tests check one relation on one file for some extractors.", [F + x + ".py" for x in ("mfcc", "lfcc", "bfcc", "gfcc", "ngcc", "msrcc", "psrcc")],
  [("use_energy branch", "each extractor")], ["extractor outputs with the option on and off"])
p("C15", "Liftering reweights coefficient columns by the documented law and nothing else",
  """A lifter L with 1 <= L <= 10 multiplies coefficient i by i^L (coefficient 0 by 1), a negative L multiplies coefficient i by 1+(|L|/2)*sin(pi*(i+1)/|L|),
  and 0, None or L > 10 leave the coefficients unchanged. Every extractor's liftered output is its unliftered output liftered, applied
  before normalisation.""",
  ["inputs", "configurations"], "all matrices, all lifter values of both signs, all extractors with the option",
  "Tests check one or two lifter values on one file.", [U + "cepstral.py"] + ALLF,
  [("lifter_ceps branches", U + "cepstral.py"), ("if lifter:", "each extractor")], ["return of lifter_ceps; extractor outputs"])
p("C16", "Cepstral normalisations have the documented effect and commute into extractors",
  """With x the coefficient matrix, 'ms' subtracts each column's mean, 'mvn' does so and divides by the standard deviation of all
  entries of x, 'vn' only divides by that deviation, and 'mn' subtracts the overall mean and divides by the overall range.
  Every extractor's normalised output is the normalisation of its un-normalised (possibly liftered) output.""",
  ["inputs", "configurations"], "all non-constant matrices, all four types, all extractors with the option",
  "Tests check column means on one file.", [U + "cepstral.py"] + ALLF,
  [("normalize_ceps table", U + "cepstral.py"), ("if normalize:", "each extractor")], ["return of normalize_ceps; extractor outputs"])
p("C17", "Deltas are the slope-weighted sums over the edge-replicated window",
  """Deltas with window w return a matrix of the input's shape whose entry (r,t) is the sum over k = -h..h, h = floor(w/2), of k*x[r,t+k], where
  positions left (right) of the matrix take the row's first (last) value. Consequently a row constant in time has zero deltas and a linear ramp has a constant delta
  away from the edges.""",
  ["inputs", "configurations"], "all matrices (also with fewer columns than the window), all window widths odd and even",
  "Tests check shape and sum on one file.", [U + "cepstral.py"], [("edge padding and lfilter slice", "deltas()")], ["return of deltas"])
p("C18", "PNCC follows its power-normalisation chain frame by frame",
  """PNCC computes, from gammatone-weighted |FFT|^power/nfft, medium-time power over +-2 frames, an asymmetric (0.999/0.5) noise floor starting at 0.9 of the
  first frame, floor subtraction with half-wave rectification, temporal masking (0.85/0.2), the excitation switch at twice the floor, weight smoothing over +-4 channels
  clipped to the channel range, and a recursive (0.999) mean power normalisation. The coefficients are the orthonormal DCT of the 15th root of the result;
  each recursive stage uses only the current and earlier frames of its own input and never produces a negative power.""",
  ["inputs", "histories"], "all signals and frame histories (rising/falling power sequences of any length), all options",
  "Tests compare shapes; the recursions branch per frame and channel and are never compared with an oracle.", [F + "pncc.py"],
  [("asymmetric filter, masking, smoothing, normalisation loops", F + "pncc.py")], ["return of pncc and of its stage functions"],
  [("lower envelope, peak power, mean power", "recursive per-channel state over frames", F + "pncc.py")])
p("C19", "LPC solves the autocorrelation normal equations of each windowed frame",
  """For every windowed frame with non-zero energy, the returned coefficients start with 1 and satisfy the Yule-Walker equations of order (order-1) built
  from the frame's own autocorrelation, so no other predictor of that order has a smaller residual energy. The returned error is that minimal residual energy (non-negative,
  at most the frame energy), and a silent frame gives the coefficients 1,0,...,0 and error 0.""",
  ["inputs", "configurations"], "all signals, orders, windows and frame lengths",
  "Tests compare shapes.", [F + "lpc.py"], [("autocorrelation, toeplitz solve, error", "LPC helper")], ["return of lpc"])
p("C20", "LPCC follow the cepstral recursion from the frame's LPC model",
  """Converting predictor coefficients a (a[0]=1) and error e into n cepstra returns c[0] = ln e (machine epsilon if e is 0), c[m] = a[m] + sum over k=1..m-1 of (k/m) c[k] a[m-k] for m
  below the model length, and the same sum restricted to valid a-indices beyond it, for n smaller, equal or larger than the model length. The LPCC extractor returns, per frame, this conversion of
  the frame's LPC result with `order` coefficients, then liftered and normalised as asked.""",
  ["inputs", "configurations"], "all coefficient vectors, errors and lengths; all signals and orders",
  "Tests check one conversion shape.", [F + "lpc.py"], [("recursion loops", "lpc2lpcc()"), ("per-frame loop", "lpcc()")], ["return of lpc2lpcc and lpcc"])
p("C21", "PLP and RASTA-PLP are the LPCC of the compressed bark auditory spectrum",
  """PLP weights each frame's power spectrum with the bark bank, applies the documented equal-loudness curve and cube root, takes the magnitude of the inverse FFT of length nfft as the signal of an LPC
  analysis of the given order, and returns its cepstral recursion. RASTA-PLP does the same with the log auditory spectrum of every band first passed through the RASTA filter along time and
  exponentiated; the two entry points differ in nothing else.""",
  ["inputs", "configurations"], "all signals, orders, banks and windows with at least five frames for RASTA",
  "Tests compare shapes; RASTA along the wrong axis or a swapped flag passes.", [F + "rplp.py", U + "filters.py"],
  [("auditory spectrum, loudness, ifft, LPC", "shared PLP routine"), ("do_rasta flag", "plp()/rplp()")], ["return of plp and rplp"])
p("C22", "RASTA filtering treats every trajectory independently and removes its mean",
  """The RASTA filter outputs zero for the first four samples of each row and from then on the recursion y[t] = 0.94 y[t-1] + (2x[t]+x[t-1]-x[t-3]-2x[t-4])/10 with the delays taken from the row itself.
  Each row's output depends on that row alone, a constant row gives zero everywhere, and adding a constant to a row changes nothing.""",
  ["inputs"], "all matrices with at least five columns, any number and order of rows",
  "Tests use a single comparison on one matrix.", [U + "filters.py"], [("numerator/denominator, initial state per row", "rasta_filter()")], ["return of rasta_filter"],
  [("filter delay line", "four delayed inputs and last output of the current row", U + "filters.py")])
p("C23", "The constant-Q transform correlates each frame with the thresholded Q-kernels",
  """The transform has one row per analysed pitch f0*2^(k/bins) inside [low_freq, high_freq] whose window of ceil(Q*fs/f) samples fits nfft, Q = q_rate/(2^(1/bins)-1), and one column per frame.
  Entry (k,m) is 1/nfft times the sum over FFT bins of the frame's spectrum and the conjugate of the spectrum of the centred, tapered, unit-gain complex exponential at that pitch, kernel values of magnitude
  at or below the threshold being dropped.""",
  ["inputs", "configurations"], "all frames, fs, f0, octaves, bins, thresholds, nfft, windows",
  "Tests check shape for two parameter sets.", [U + "spectral.py", F + "cqcc.py"], [("kernel construction and product", "compute_constant_qtransform()")], ["return of compute_constant_qtransform and cqt_spectrogram"])
p("C24", "CQCC are the DCT of the resampled log power of the constant-Q transform",
  """CQCC takes the natural log of the squared magnitude of the constant-Q spectrogram (machine epsilon for zeros), Fourier-resamples it along time to int(frames*resampling_ratio) rows, and returns the first num_ceps coefficients
  of the orthonormal DCT over pitches. With resampling_ratio 1 row m depends on frame m alone.""",
  ["inputs", "configurations"], "all signals, ratios above and below 1, DCT types, option combinations",
  "Tests check shapes at default options.", [F + "cqcc.py"], [("log, resample, dct", "cqcc()")], ["return of cqcc"])
p("C25", "YIN returns the first sub-threshold dip of each window's normalised difference",
  """For every analysis window (starts 0, hop, 2*hop, ... strictly before N - window length) YIN forms the cumulative-mean-normalised difference function of that window; the pitch is fs/tau for the first local minimum reached
  from the first lag in [fs/high_freq, fs/low_freq) below the threshold, and 0 if no lag is below it. The reported rate is the function's value there (its overall minimum when there is no pitch), the argmin
  output is fs over the global minimum's lag if that exceeds the shortest lag and 0 otherwise, and times are start/fs.""",
  ["inputs", "configurations"], "all difference functions, lag bounds and thresholds; all signals incl. silent and periodic ones",
  "The search loop's behaviour depends on plateaus, ties and range ends that three sampled signals do not reach.", [Q + "fundamental_frequencies.py"],
  [("difference, normalisation, search loop", "compute_difference/compute_cmnd/get_pitch/compute_yin")], ["return of the four functions"],
  [("tau", "current lag of the search", "get_pitch()")])
p("C26", "Dominant frequency is the frequency of each windowed frame's spectral peak",
  """For every frame the dominant-frequency tracker returns the frequency k*fs/nfft (rounded to 3 decimals) of a bin 0..nfft//2 with maximal magnitude of the windowed frame's nfft-point FFT, one value per frame in order.
  With the band-pass option, the signal is first filtered by the 6th-order Butterworth band-pass with the given cut-offs; a pure tone well inside the band is reported within one bin.""",
  ["inputs", "configurations"], "all signals, fs, nfft odd/even, windows, cut-offs",
  "Tests check type and range only.", [Q + "dominant_frequencies.py"], [("argmax over rfft, frequency axis", "get_dominant_frequencies()")], ["return of get_dominant_frequencies"])
p("C27", "Spectral descriptors equal their defining formulas",
  """Centroid, spread, skewness and kurtosis are the documented magnitude-weighted moments over the bin frequencies |fftfreq|, entropy is the Shannon entropy of the normalised magnitudes over log N, flatness is the geometric over the arithmetic mean,
  roll-off is the first bin whose cumulative magnitude reaches k times the total, and flux is the p-norm of consecutive magnitude differences. The combined extraction returns these, with the moments taken on the full and the rest
  on the one-sided nfft-point spectrum, plus mean, RMS, standard deviation and variance of the one-sided spectrum.""",
  ["inputs", "configurations"], "all spectra (real or complex, any length), k, p, fs, nfft",
  "There is no test for these functions at all.", [F + "spfeats.py"], [("closed formulas", F + "spfeats.py")], ["return of each descriptor and of extract_feats"])
p("C28", "Calls are pure: results depend only on arguments, in any history or thread",
  """Whatever calls were made before, in whatever order and from however many threads at once, a call with equal arguments returns the same results, and it never modifies the arguments it was given (signal, window object, bank, matrix).
  A later call never changes a result returned earlier.""",
  ["histories", "schedules", "inputs"], "all interleavings of all public calls sharing signals, windows and banks",
  "Tests make each call once from a fresh fixture and never look at the arguments or earlier results again.", ALLF + ALLB + [U + "preprocessing.py", U + "cepstral.py", U + "spectral.py", U + "filters.py", Q + "fundamental_frequencies.py", Q + "dominant_frequencies.py"],
  [("no module state, copies before in-place writes", "all public functions")], ["arguments and results before and after every call of a session"],
  [("module-level state", "must not exist or not be observable", "whole package")])
p("C29", "Features of any finite signal are finite, silence included",
  """For every signal with at least one frame whose non-zero samples lie between 1e-30 and 1e6 in magnitude, including all-zero signals, signals with silent stretches, constants, impulses and full-scale 16-bit audio, every frame-based feature
  extractor and spectrogram returns only finite numbers and raises nothing, and so do the dominant-frequency and (constants apart) pitch trackers. Normalisations that divide by a zero spread are exempt.""",
  ["inputs"], "all finite signals incl. degenerate ones, all extractors and options", "Tests use one recorded speech file that never exercises log or division by zero.",
  ALLF + [U + "preprocessing.py"], [("zero_handling guards", "log, power and division sites of each extractor")], ["extractor outputs"])
p("C30", "Features are frame-local: a frame's row depends on that frame's samples only",
  """For every extractor without recursive frame state, with pre-emphasis and normalisation off, row m of the output is determined by samples m*S..m*S+L-1 alone: changing samples outside leaves it unchanged, dropping the first k hops
  shifts the rows by k, and appending samples only appends rows. For PNCC and RASTA-PLP rows do not depend on later frames beyond the documented two-frame look-ahead.""",
  ["inputs", "histories"], "all signals, prefixes, shifts and edits; all extractors", "Tests never compare outputs of related signals.",
  ALLF + [U + "preprocessing.py"], [("per-frame processing", "all extractors")], ["extractor outputs on related signals"])
p("C31", "A supplied filter bank is used as given and replaces the built-in one exactly",
  """Supplying the bank that the matching constructor returns for the same parameters gives the same result as supplying none, for every spectrogram and extractor with the option. Supplying any other matrix with one row per filter and nfft//2+1 columns gives
  the result defined by exactly those weights, independently of the band-edge, scale and conversion options.""",
  ["inputs", "configurations"], "all banks (built-in, permuted, random non-negative), all extractors with an fbanks option",
  "Tests pass the matching built-in bank for a few extractors and check shapes.", ALLF, [("if fbanks is None", "each extractor")], ["extractor outputs with and without supplied banks"])
p("C32", "Output shapes follow from the arguments alone",
  """Every frame-based extractor returns one row per frame (the frame count implied by signal, window and hop) and min(num_ceps, available) columns of real floats; spectrograms return (frames x filters) and (frames x nfft//2+1), banks (filters x nfft//2+1) with filters centres,
  LPC (frames x order) and (frames x 1), and the constant-Q spectrogram (pitches x frames).""",
  ["inputs", "configurations"], "all public extractors and option combinations", "Tests check shapes for one file at default windows.",
  ALLF + ALLB, [("slicing and allocation", "all extractors")], ["shape and dtype of every return"])
p("C33", "Results do not depend on how the same samples are represented",
  """The same sample values given as 64-bit floats, as a strided, reversed-and-restored, read-only or column (N x 1) array, as a Python list, or, for values exactly representable there, as 32-bit floats or 16/32-bit integers give the same features up to the rounding of the
  representation, for every extractor that accepts the representation.""",
  ["inputs"], "all signals x representations x extractors", "Tests use the dtype that scipy's wav reader returns.",
  ALLF + [U + "preprocessing.py"], [("stride computation on a copied array, float promotion", "framing()/pre_emphasis()")], ["extractor outputs per representation"])
p("C34", "Plots show exactly the data they are given",
  """A displayed spectrogram image is 10*log10 of the magnitudes relative to the maximum, floored at 1e-10 and at dbf below the peak, over the requested extent; displayed features are the transposed matrix; displayed banks are one curve per
  filter against the given frequencies, with upper tick labels the mel, bark or ERB values of the lower ticks. Plotting does not modify its inputs.""",
  ["inputs", "configurations"], "all matrices, ranges, dbf and bank types", "Tests only check that a figure was drawn.",
  [U + "vis.py"], [("dB conversion, tick conversion", "show_spectrogram/show_fbanks/show_features/tick_function")], ["artists of the drawn figure"])
p("C35", "Scaling the signal scales features by the law of each feature",
  """Multiplying the signal by a > 0 multiplies spectrogram energies by a^2 and magnitudes by a, shifts only the first orthonormal DCT-II coefficient of MFCC, IMFCC, LFCC and NGCC by 2*ln(a)*sqrt(nfilts), multiplies GFCC by a^(2/3) and MSRCC by a^(2*gamma), leaves PSRCC, dominant
  frequencies, YIN pitches and LPC coefficients unchanged, and multiplies the LPC error by a^2. CQT values scale by a.""",
  ["inputs"], "all signals and gains (no band of exactly zero energy)", "Tests never compare scaled inputs.", ALLF + [Q + "fundamental_frequencies.py", Q + "dominant_frequencies.py"],
  [("linearity of every stage before the non-linearity", "all extractors")], ["extractor outputs for x and a*x"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")
print(len(P))
