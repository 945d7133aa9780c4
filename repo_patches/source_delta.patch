From 01cc0c5c8c94d538e7d2d68f0c2fe47f56b12f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:43 +0000
Subject: [PATCH 01/29] fix: honour pre_emph_coeff in gfcc, lfcc, bfcc, lpc and
 lpcc

The extractors accepted pre_emph_coeff but always filtered with 0.97.
---
 spafe/features/bfcc.py | 2 +-
 spafe/features/gfcc.py | 2 +-
 spafe/features/lfcc.py | 2 +-
 spafe/features/lpc.py  | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/spafe/features/bfcc.py b/spafe/features/bfcc.py
index b7a1d17..e0154e2 100644
--- a/spafe/features/bfcc.py
+++ b/spafe/features/bfcc.py
@@ -157,7 +157,7 @@ def bark_spectrogram(
 
     # pre-emphasis
     if pre_emph:
-        sig = pre_emphasis(sig=sig, pre_emph_coeff=0.97)
+        sig = pre_emphasis(sig=sig, pre_emph_coeff=pre_emph_coeff)
 
     # init window
     if window is None:
diff --git a/spafe/features/gfcc.py b/spafe/features/gfcc.py
index 3b9e868..6afb514 100644
--- a/spafe/features/gfcc.py
+++ b/spafe/features/gfcc.py
@@ -135,7 +135,7 @@ def erb_spectrogram(
 
     # pre-emphasis
     if pre_emph:
-        sig = pre_emphasis(sig=sig, pre_emph_coeff=0.97)
+        sig = pre_emphasis(sig=sig, pre_emph_coeff=pre_emph_coeff)
 
     # init window
     if window is None:
diff --git a/spafe/features/lfcc.py b/spafe/features/lfcc.py
index 2c916c0..d99b49a 100644
--- a/spafe/features/lfcc.py
+++ b/spafe/features/lfcc.py
@@ -127,7 +127,7 @@ def linear_spectrogram(
 
     # pre-emphasis
     if pre_emph:
-        sig = pre_emphasis(sig=sig, pre_emph_coeff=0.97)
+        sig = pre_emphasis(sig=sig, pre_emph_coeff=pre_emph_coeff)
 
     # init window
     if window is None:
diff --git a/spafe/features/lpc.py b/spafe/features/lpc.py
index f522467..d0f56b3 100644
--- a/spafe/features/lpc.py
+++ b/spafe/features/lpc.py
@@ -176,7 +176,7 @@ def lpc(
     order = order - 1
     # pre-emphasis
     if pre_emph:
-        sig = pre_emphasis(sig=sig, pre_emph_coeff=0.97)
+        sig = pre_emphasis(sig=sig, pre_emph_coeff=pre_emph_coeff)
 
     # init window
     if window is None:
@@ -313,7 +313,7 @@ def lpcc(
     order = order - 1
     # pre-emphasis
     if pre_emph:
-        sig = pre_emphasis(sig=sig, pre_emph_coeff=0.97)
+        sig = pre_emphasis(sig=sig, pre_emph_coeff=pre_emph_coeff)
 
     # init window
     if window is None:
-- 
2.43.0


From c0aad64b4173ea2c4ae70fa880c2c76f838ac05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:43 +0000
Subject: [PATCH 02/29] fix: compute lpc and lpcc from the windowed frames

The window was computed and then ignored (win_type had no effect), and integer
signals overflowed in the autocorrelation of the raw integer frames.
---
 spafe/features/lpc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spafe/features/lpc.py b/spafe/features/lpc.py
index d0f56b3..9d07016 100644
--- a/spafe/features/lpc.py
+++ b/spafe/features/lpc.py
@@ -193,7 +193,7 @@ def lpc(
     a_mat = np.zeros((len(windows), order + 1))
     e_vec = np.zeros((len(windows), 1))
 
-    for i, windowed_frame in enumerate(frames):
+    for i, windowed_frame in enumerate(windows):
         a, e = __lpc_helper(windowed_frame, order)
         a_mat[i, :] = a
         e_vec[i] = e
@@ -329,7 +329,7 @@ def lpcc(
 
     # compute lpccs
     lpccs = np.zeros((len(windows), order + 1))
-    for i, windowed_frame in enumerate(frames):
+    for i, windowed_frame in enumerate(windows):
         a, e = __lpc_helper(windowed_frame, order)
         lpcc_coeffs = lpc2lpcc(a, e, order + 1)
         lpccs[i, :] = np.array(lpcc_coeffs)
-- 
2.43.0


From 4cd487976fea866861ee3b9482d1f94b8da0d2d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:43 +0000
Subject: [PATCH 03/29] fix: compute the linear prediction error from the
 autocorrelation lags 0..p

auto_corr[0] of a 'full' correlation is the most negative lag, not lag 0, and
the remaining terms were paired with the wrong coefficients.
---
 spafe/features/lpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spafe/features/lpc.py b/spafe/features/lpc.py
index 9d07016..d15f55f 100644
--- a/spafe/features/lpc.py
+++ b/spafe/features/lpc.py
@@ -81,7 +81,7 @@ def __lpc_helper(frame, order):
 
     phi = np.dot(linalg.inv(linalg.toeplitz(r[:-1])), -r[1:])
     a = np.concatenate(([1.0], phi))
-    e = auto_corr[0] + sum(ac_k * a_k for ac_k, a_k in zip(auto_corr[1:], a))
+    e = np.dot(r, a)
     return a, np.sqrt(e**2)
 
 
-- 
2.43.0


From 67504d1f0651496d47b751afc5cb815f1087541e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:43 +0000
Subject: [PATCH 04/29] fix: use the previous cepstral coefficients in the
 lpc2lpcc recursion

The recursion multiplied by the not yet computed C[m] (still 1) instead of C[k];
for nceps > len(a) it skipped C[len(a)] and indexed past the end of a.
---
 spafe/features/lpc.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/spafe/features/lpc.py b/spafe/features/lpc.py
index d15f55f..6e7fffd 100644
--- a/spafe/features/lpc.py
+++ b/spafe/features/lpc.py
@@ -219,8 +219,8 @@ def lpc2lpcc(a, e, nceps):
 
             C_{m}=\\left\\{\\begin{array}{l}
             log_{e}(p), & \\text{if } m = 0 \\\\
-            a_{m} + \\sum_{k=1}^{m-1} \\frac{k}{m} C_{m} a_{m-k} , & \\text{if } 1 <= m <= p \\\\
-            \\sum_{k=m-p}^{m-1} \\frac{k}{m} C_{m} a_{m-k} , & \\text{if } m > p \\end{array}\\right.
+            a_{m} + \\sum_{k=1}^{m-1} \\frac{k}{m} C_{k} a_{m-k} , & \\text{if } 1 <= m <= p \\\\
+            \\sum_{k=m-p}^{m-1} \\frac{k}{m} C_{k} a_{m-k} , & \\text{if } m > p \\end{array}\\right.
 
     References:
         .. [Makhoul] : Makhoul, J. (1975). Linear prediction: A tutorial review.
@@ -234,12 +234,11 @@ def lpc2lpcc(a, e, nceps):
 
     c[0] = np.log(zero_handling(e))
 
-    for m in range(1, p):
-        c[m] = a[m] + sum([(k / m) * c[m] * a[m - k] for k in range(1, m)])
+    for m in range(1, min(p, nceps)):
+        c[m] = a[m] + sum([(k / m) * c[k] * a[m - k] for k in range(1, m)])
 
-    if nceps > p:
-        for m in range(p + 1, nceps):
-            c[m] = sum([(k / m) * c[m] * a[m - k] for k in range(m - p, m)])
+    for m in range(p, nceps):
+        c[m] = sum([(k / m) * c[k] * a[m - k] for k in range(m - p + 1, m)])
 
     return c
 
-- 
2.43.0


From 090a4081b8b1ba079f4da5d92fd04d1ae7f23751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:43 +0000
Subject: [PATCH 05/29] fix: handle silent frames in the linear prediction
 analysis

lpc, lpcc and plp raised LinAlgError (singular matrix) on any all-zero frame.
---
 spafe/features/lpc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spafe/features/lpc.py b/spafe/features/lpc.py
index 6e7fffd..43afbab 100644
--- a/spafe/features/lpc.py
+++ b/spafe/features/lpc.py
@@ -79,6 +79,10 @@ def __lpc_helper(frame, order):
     auto_corr = np.correlate(frame, frame, "full")
     r[:nx] = auto_corr[frame.size - 1 : frame.size + order]
 
+    # a silent frame is perfectly predicted by zeros (its autocorrelation matrix is singular)
+    if r[0] == 0:
+        return np.concatenate(([1.0], np.zeros(order))), 0.0
+
     phi = np.dot(linalg.inv(linalg.toeplitz(r[:-1])), -r[1:])
     a = np.concatenate(([1.0], phi))
     e = np.dot(r, a)
-- 
2.43.0


From 9731d225a1c72999b804b42bf4f603ad60b9ca6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:10 +0000
Subject: [PATCH 06/29] fix: keep msrcc finite when a filter captures no energy

0 ** gamma is infinite for the default negative gamma, so silent frames gave NaN rows.
---
 spafe/features/msrcc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spafe/features/msrcc.py b/spafe/features/msrcc.py
index 14953e9..6827313 100644
--- a/spafe/features/msrcc.py
+++ b/spafe/features/msrcc.py
@@ -151,7 +151,7 @@ def msrcc(
     )
 
     # -> (.)^(gamma)
-    features = features**gamma
+    features = zero_handling(features) ** gamma
 
     # -> DCT(.)
     msrccs = dct(x=features, type=dct_type, axis=1, norm="ortho")[:, :num_ceps]
-- 
2.43.0


From 6ef16ba19f8d329b3d09ef0b067e9a603a8f0b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:10 +0000
Subject: [PATCH 07/29] fix: keep psrcc finite when the phase spectrum of a
 frame is zero

The infinities were replaced by features.max(), which is infinite itself, so
silent frames gave NaN rows.
---
 spafe/features/psrcc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spafe/features/psrcc.py b/spafe/features/psrcc.py
index 635afd4..ddb5de0 100644
--- a/spafe/features/psrcc.py
+++ b/spafe/features/psrcc.py
@@ -172,7 +172,7 @@ def psrcc(
     features = np.dot(fft_phases, fbanks.T)
 
     # -> (.)^(gamma)
-    features = features**gamma
+    features = zero_handling(features) ** gamma
 
     # assign 0 to values to be computed based on negative phases (otherwise results in nan)
     features[np.isnan(features)] = 0
-- 
2.43.0


From 2da18fbde2e9619eb0bdabcbe2496bb85a641bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:10 +0000
Subject: [PATCH 08/29] fix: keep the initial state of the PNCC asymmetric
 lowpass filter

The recursion started at frame 0, reading frame -1 (the zero-filled last row)
and overwriting the initial value.
---
 spafe/features/pncc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spafe/features/pncc.py b/spafe/features/pncc.py
index edc0735..72497a9 100644
--- a/spafe/features/pncc.py
+++ b/spafe/features/pncc.py
@@ -84,7 +84,7 @@ def asymmetric_lowpass_filtering(
     Q_tilde_out[0,] = 0.9 * Q_tilde_in[0,]
 
     # compute asymmetric nonlinear filter
-    for m in range(Q_tilde_out.shape[0]):
+    for m in range(1, Q_tilde_out.shape[0]):
         Q1 = lm_a * Q_tilde_out[m - 1, :] + (1 - lm_a) * Q_tilde_in[m, :]
         Q2 = lm_b * Q_tilde_out[m - 1, :] + (1 - lm_b) * Q_tilde_in[m, :]
 
-- 
2.43.0


From da7d15e0307ff4e8b77542992a5e494651cd1f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:10 +0000
Subject: [PATCH 09/29] fix: average over the whole channel range in the PNCC
 weight smoothing

The documented sum runs over channels l1..l2 inclusive of channels 1..L; the
zero based code skipped the first channel and dropped the upper end of the range
while still dividing by l2 - l1 + 1.
---
 spafe/features/pncc.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/spafe/features/pncc.py b/spafe/features/pncc.py
index 72497a9..a58416e 100644
--- a/spafe/features/pncc.py
+++ b/spafe/features/pncc.py
@@ -163,11 +163,14 @@ def weight_smoothing(
     S_tilde = np.zeros_like(R_tilde)
     for m in range(R_tilde.shape[0]):
         for l in range(R_tilde.shape[1]):
-            l1 = max(l - N, 1)
-            l2 = min(l + N, L)
+            l1 = max(l - N, 0)
+            l2 = min(l + N, L - 1)
             # compute smoothing output
             S_tilde[m, l] = (1 / float(l2 - l1 + 1)) * sum(
-                [R_tilde[m, lprime] / Q_tilde[m, lprime] for lprime in range(l1, l2)]
+                [
+                    R_tilde[m, lprime] / Q_tilde[m, lprime]
+                    for lprime in range(l1, l2 + 1)
+                ]
             )
 
     return S_tilde
-- 
2.43.0


From 57b4c0fa4bd77bdadfc9af89681eafa8f81c36da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:10 +0000
Subject: [PATCH 10/29] fix: keep pncc finite on silent frames

The weight smoothing divided 0 by 0 where the medium time power is zero.
---
 spafe/features/pncc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spafe/features/pncc.py b/spafe/features/pncc.py
index a58416e..cc661e6 100644
--- a/spafe/features/pncc.py
+++ b/spafe/features/pncc.py
@@ -21,6 +21,7 @@ from ..utils.preprocessing import (
     pre_emphasis,
     framing,
     windowing,
+    zero_handling,
     SlidingWindow,
 )
 
@@ -160,6 +161,7 @@ def weight_smoothing(
         and :math:`\\tilde{S}` is the time-averaged, frequency-averaged transfer function.
     """
     L = nfilts
+    Q_tilde = zero_handling(Q_tilde)
     S_tilde = np.zeros_like(R_tilde)
     for m in range(R_tilde.shape[0]):
         for l in range(R_tilde.shape[1]):
-- 
2.43.0


From 5050a2bdcbafaa62c5658ab3ee97313b8c213407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:10 +0000
Subject: [PATCH 11/29] fix: filter every row of rasta_filter from its own
 initial state

The initial state was overwritten with the final state of the previous row, so
each row depended on all the rows before it.
---
 spafe/utils/filters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spafe/utils/filters.py b/spafe/utils/filters.py
index e03b74f..c51bed6 100644
--- a/spafe/utils/filters.py
+++ b/spafe/utils/filters.py
@@ -33,12 +33,12 @@ def rasta_filter(x: np.ndarray) -> np.ndarray:
     numer = (-1 * numer) / np.sum(numer**2)
     denom = np.array([1, -0.94])
 
-    z = signal.lfilter_zi(numer, 1)
+    zi = signal.lfilter_zi(numer, 1)
     y = np.zeros((x.shape))
 
     for i in range(x.shape[0]):
         # FIR for initial state response compuation
-        y1, z = signal.lfilter(numer, 1, x[i, 0:4], axis=0, zi=z * x[i, 0])
+        y1, z = signal.lfilter(numer, 1, x[i, 0:4], axis=0, zi=zi * x[i, 0])
         y1 = y1 * 0
 
         # IIR
-- 
2.43.0


From 670bc6ea9e92f260357a969fe8f95664e48a6f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:10 +0000
Subject: [PATCH 12/29] fix: apply the RASTA filter of rplp along time

RASTA filters the time trajectory of each critical band (one band per row, as in
the reference implementation); rplp passed frames as rows, so the filter ran
across the bands of each frame.
---
 spafe/features/rplp.py | 2 +-
 spafe/utils/filters.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/spafe/features/rplp.py b/spafe/features/rplp.py
index ff44527..32a2d5d 100644
--- a/spafe/features/rplp.py
+++ b/spafe/features/rplp.py
@@ -142,7 +142,7 @@ def __rastaplp(
         nl_aspectrum = np.log(auditory_spectrum)
 
         # next do rasta filtering
-        ras_nl_aspectrum = rasta_filter(nl_aspectrum)
+        ras_nl_aspectrum = rasta_filter(nl_aspectrum.T).T
 
         # do inverse log
         auditory_spectrum = np.exp(ras_nl_aspectrum)
diff --git a/spafe/utils/filters.py b/spafe/utils/filters.py
index c51bed6..76811ef 100644
--- a/spafe/utils/filters.py
+++ b/spafe/utils/filters.py
@@ -26,8 +26,8 @@ def rasta_filter(x: np.ndarray) -> np.ndarray:
 
     Note:
         - default filter is single pole at 0.94
-        - rows of x = number of frames
-        - cols of x = critical bands
+        - rows of x = critical bands
+        - cols of x = number of frames
     """
     numer = np.arange(-2, 3)
     numer = (-1 * numer) / np.sum(numer**2)
-- 
2.43.0


From d4ef439c70498a34e83bf5ac0a61a98272a39e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:21 +0000
Subject: [PATCH 13/29] fix: keep rplp defined when a band captures no energy

The log of an empty band is -inf, which made the linear prediction raise.
---
 spafe/features/rplp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spafe/features/rplp.py b/spafe/features/rplp.py
index 32a2d5d..2665045 100644
--- a/spafe/features/rplp.py
+++ b/spafe/features/rplp.py
@@ -21,6 +21,7 @@ from ..utils.preprocessing import (
     pre_emphasis,
     framing,
     windowing,
+    zero_handling,
     SlidingWindow,
 )
 
@@ -139,7 +140,7 @@ def __rastaplp(
     # rasta filtering
     if do_rasta:
         # put in log domain
-        nl_aspectrum = np.log(auditory_spectrum)
+        nl_aspectrum = np.log(zero_handling(auditory_spectrum))
 
         # next do rasta filtering
         ras_nl_aspectrum = rasta_filter(nl_aspectrum.T).T
-- 
2.43.0


From 426f88d15a608f474a0903ed42a4771c96307d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:21:40 +0000
Subject: [PATCH 14/29] fix: accept the default high_freq in
 inverse_mel_filter_banks

The documented default (None, meaning fs / 2) raised TypeError, as did imfcc.
---
 spafe/fbanks/mel_fbanks.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spafe/fbanks/mel_fbanks.py b/spafe/fbanks/mel_fbanks.py
index 105a70c..cd8355f 100644
--- a/spafe/fbanks/mel_fbanks.py
+++ b/spafe/fbanks/mel_fbanks.py
@@ -298,6 +298,9 @@ def inverse_mel_filter_banks(
         - :py:func:`spafe.fbanks.linear_fbanks.linear_filter_banks`
         - :py:func:`spafe.fbanks.bark_fbanks.bark_filter_banks`
     """
+    # init freqs
+    high_freq = high_freq or fs / 2
+
     # inverse scaler value
     scales = {
         "ascendant": "descendant",
-- 
2.43.0


From 5c066a5ff99bb8d9c11d7473fb903132c664d4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:00 +0000
Subject: [PATCH 15/29] fix: evaluate the mel, inverse mel and linear filters
 at the fft bin frequencies

The triangles were sampled on a grid from low_freq to high_freq, so unless the
band was exactly 0..fs/2 every filter was applied to the wrong fft bins (a
300-3000 Hz bank weighted energy up to fs/2). The inverse mel bank is now the
mirror image within the requested band and reports matching center frequencies.
---
 spafe/fbanks/mel_fbanks.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/spafe/fbanks/mel_fbanks.py b/spafe/fbanks/mel_fbanks.py
index cd8355f..7e8f277 100644
--- a/spafe/fbanks/mel_fbanks.py
+++ b/spafe/fbanks/mel_fbanks.py
@@ -71,7 +71,7 @@ def mel_filter_banks_helper(
     if high_freq > (fs / 2):
         raise ParameterError(ErrorMsgs["high_freq"])
 
-    if fb_type == "mel":
+    if fb_type in ("mel", "imel"):
         # convert bounding freqs
         low_mel = hz2mel(low_freq, conversion_approach)
         high_mel = hz2mel(high_freq, conversion_approach)
@@ -90,6 +90,16 @@ def mel_filter_banks_helper(
         lower_edges_hz = mel2hz(lower_edges_mel, conversion_approach)
         upper_edges_hz = mel2hz(upper_edges_mel, conversion_approach)
         center_freqs = center_freqs_mel
+
+        # inverse mel: mirror the filters around the middle of the frequency band
+        if fb_type == "imel":
+            mirror = low_freq + high_freq
+            lower_edges_hz, upper_edges_hz = (
+                mirror - upper_edges_hz,
+                mirror - lower_edges_hz,
+            )
+            center_freqs_hz = mirror - center_freqs_hz
+            center_freqs = hz2mel(center_freqs_hz, conversion_approach)
     else:
         # compute points evenly spaced in frequency (points are in Hz)
         delta_hz = abs(high_freq - low_freq) / (nfilts + 1)
@@ -101,7 +111,8 @@ def mel_filter_banks_helper(
         center_freqs_hz = scale_freqs[1:-1]
         center_freqs = center_freqs_hz
 
-    freqs = np.linspace(low_freq, high_freq, nfft // 2 + 1)
+    # frequencies of the fft bins
+    freqs = np.fft.rfftfreq(nfft, 1 / fs)
     fbank = np.zeros((nfilts, nfft // 2 + 1))
 
     for j, (center, lower, upper) in enumerate(
@@ -308,26 +319,16 @@ def inverse_mel_filter_banks(
         "constant": "constant",
     }
 
-    # generate inverse mel fbanks by inversing regular mel fbanks
-    imel_fbanks, mel_freqs = mel_filter_banks_helper(
+    # generate inverse mel fbanks by mirroring regular mel fbanks
+    imel_fbanks, imel_center_freqs = mel_filter_banks_helper(
         nfilts=nfilts,
         nfft=nfft,
         fs=fs,
         low_freq=low_freq,
         high_freq=high_freq,
         scale=scales[scale],
-        fb_type="mel",
+        fb_type="imel",
         conversion_approach=conversion_approach,
     )
 
-    # inverse regular filter banks
-    for i, pts in enumerate(imel_fbanks):
-        imel_fbanks[i] = pts[::-1]
-
-    # get inverse freqs
-    imel_center_freqs = [
-        hz2mel(freq, conversion_approach)
-        for freq in (high_freq - mel2hz(mel_freqs, conversion_approach))
-    ]
-
     return np.abs(imel_fbanks), imel_center_freqs
-- 
2.43.0


From c18745d6960f7a816ee64b3429cee16e4a31d69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:00 +0000
Subject: [PATCH 16/29] fix: invert the Terhardt bark conversion with its own
 constant

hz2bark uses 13.3, bark2hz divided by 13, so the two were not inverses.
---
 spafe/utils/converters.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spafe/utils/converters.py b/spafe/utils/converters.py
index d90c006..6b94cb1 100644
--- a/spafe/utils/converters.py
+++ b/spafe/utils/converters.py
@@ -143,7 +143,7 @@ def hz2bark(f: float, approach: BarkConversionApproach = "Wang") -> float:
 
         Terhardt              (1979) :
             - :math:`fb = 13.3*tan^{-1}(\\frac{0.75 . f}{1000})`
-            - :math:`f  = (1000/0.75)*tan(\\frac{fb}{13})`
+            - :math:`f  = (1000/0.75)*tan(\\frac{fb}{13.3})`
 
         Zwicker & Terhardt    (1980) :
             - :math:`fb = 8.7 + 14.2 . log10(\\frac{f}{1000})`
@@ -214,7 +214,7 @@ def bark2hz(fb: float, approach: BarkConversionApproach = "Wang") -> float:
 
         Terhardt              (1979) :
             - :math:`fb = 13.3*tan^{-1}(\\frac{0.75 . f}{1000})`
-            - :math:`f  = (1000/0.75)*tan(\\frac{fb}{13})`
+            - :math:`f  = (1000/0.75)*tan(\\frac{fb}{13.3})`
 
         Zwicker & Terhardt    (1980) :
             - :math:`fb = 8.7 + 14.2 . log10(\\frac{f}{1000})`
@@ -262,7 +262,7 @@ def bark2hz(fb: float, approach: BarkConversionApproach = "Wang") -> float:
     elif approach == "Schroeder":
         return 650 * np.sinh(fb / 7)
     elif approach == "Terhardt":
-        return (1000 / 0.75) * np.tan(fb / 13)
+        return (1000 / 0.75) * np.tan(fb / 13.3)
     elif approach == "Zwicker":
         return 10 ** (((fb - 8.7) / 14.2) + 3)
     elif approach == "Traunmueller":
-- 
2.43.0


From 0e7dad9b25c0f4ef73d8326d10752eb1997a54e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:16 +0000
Subject: [PATCH 17/29] fix: make the Traunmueller hz2bark the inverse of
 bark2hz

The conversion was linear in f (f / (1 + 1960) instead of f / (f + 1960)) and
lacked the end corrections that bark2hz undoes; at 8 kHz it returned 107 Bark and
bark filter banks of that scale failed or were empty.
---
 spafe/utils/converters.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/spafe/utils/converters.py b/spafe/utils/converters.py
index 6b94cb1..f375a43 100644
--- a/spafe/utils/converters.py
+++ b/spafe/utils/converters.py
@@ -150,7 +150,7 @@ def hz2bark(f: float, approach: BarkConversionApproach = "Wang") -> float:
             - :math:`f  = 10^{(\\frac{fb-8.7}{14.2} + 3)}`
 
         Traunmueller          (1983) :
-            - :math:`fb = (\\frac{26.81*f}{1+1960}) - 0.53`
+            - :math:`fb = (\\frac{26.81*f}{f+1960}) - 0.53`
             - :math:`f  = 1960 . (\\frac{fb+0.53}{26.28-fb})`
 
         Wang, Sekey & Gersho  (1992) :
@@ -187,7 +187,13 @@ def hz2bark(f: float, approach: BarkConversionApproach = "Wang") -> float:
     elif approach == "Zwicker":
         return 8.7 + 14.2 * np.log10(f / 1000)
     elif approach == "Traunmueller":
-        return ((26.28 * f) / (1 + 1960)) - 0.53
+        fb = ((26.81 * f) / (f + 1960)) - 0.53
+        # corrections of the low and high ends of the scale
+        return np.where(
+            fb < 2,
+            fb + 0.15 * (2 - fb),
+            np.where(fb > 20.1, fb + 0.22 * (fb - 20.1), fb),
+        )[()]
     else:
         return 6 * np.arcsinh(f / 600)
 
@@ -223,7 +229,7 @@ def bark2hz(fb: float, approach: BarkConversionApproach = "Wang") -> float:
             *!* might raise RuntimeWarning: divide by zero encountered in log10
 
         Traunmueller          (1983) :
-            - :math:`fb = (\\frac{26.81*f}{1+1960}) - 0.53`
+            - :math:`fb = (\\frac{26.81*f}{f+1960}) - 0.53`
             - :math:`f  = 1960 . (\\frac{fb+0.53}{26.28-fb})`
 
         Wang, Sekey & Gersho  (1992) :
-- 
2.43.0


From e1ceee55c9b521c2fb7c9f3198e904310ff8ec72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:38 +0000
Subject: [PATCH 18/29] fix: read the dominant frequency on the rfft frequency
 axis

The half spectrum of rfft was paired with the two sided axis of a
len(spectrum)-point fft: a 1 kHz tone was reported near 2 kHz and tones above
fs/4 as negative frequencies, which only_positive then dropped.
---
 spafe/frequencies/dominant_frequencies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spafe/frequencies/dominant_frequencies.py b/spafe/frequencies/dominant_frequencies.py
index afbbd0c..866c618 100644
--- a/spafe/frequencies/dominant_frequencies.py
+++ b/spafe/frequencies/dominant_frequencies.py
@@ -142,7 +142,7 @@ def get_dominant_frequencies(
         power_spectrum = (1 / nfft) * magnitude_spectrum**2
 
         # get all frequncies and  only keep positive frequencies
-        frequencies = np.fft.fftfreq(len(power_spectrum), 1 / fs)
+        frequencies = np.fft.rfftfreq(nfft, 1 / fs)
 
         # get id for max spectrum
         idx = np.argmax(power_spectrum)
-- 
2.43.0


From 120e39b09f6218e3f03d4bad97442992d162b366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:38 +0000
Subject: [PATCH 19/29] fix: pass the spectrum to spectral_rolloff in
 extract_feats

The call passed (fs, spectrum) for (spectrum, k) and returned fs * spectrum.
---
 spafe/features/spfeats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spafe/features/spfeats.py b/spafe/features/spfeats.py
index f887da9..8b448ec 100644
--- a/spafe/features/spfeats.py
+++ b/spafe/features/spfeats.py
@@ -327,7 +327,7 @@ def extract_feats(sig: np.ndarray, fs: int, nfft: int = 512) -> SpectralFeats:
     feats["spectral_entropy"] = spectral_entropy(spectrum)
     feats["spectral_spread"] = spectral_spread(sig, fs, spectrum)
     feats["spectral_flatness"] = spectral_flatness(spectrum)
-    feats["spectral_rolloff"] = spectral_rolloff(fs, spectrum)
+    feats["spectral_rolloff"] = spectral_rolloff(spectrum)
     feats["spectral_flux"] = spectral_flux(spectrum)
     feats["spectral_mean"] = np.mean(spectrum)
     feats["spectral_rms"] = np.sqrt(np.mean(spectrum**2))
-- 
2.43.0


From 63fc7c78d91a2eb28d5d809736359b2cccb9ee8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:38 +0000
Subject: [PATCH 20/29] fix: return the roll-off bin from spectral_rolloff

The function returned the amount k * total instead of the frequency bin below
which that share of the spectrum is contained, as documented.
---
 spafe/features/spfeats.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spafe/features/spfeats.py b/spafe/features/spfeats.py
index 8b448ec..818b72f 100644
--- a/spafe/features/spfeats.py
+++ b/spafe/features/spfeats.py
@@ -229,7 +229,9 @@ def spectral_rolloff(spectrum: np.ndarray, k: float = 0.85) -> float:
     magnitude_spectrum = np.abs(spectrum)
 
     # compute the spectral rolloff point
-    i = k * np.sum(magnitude_spectrum)
+    i = np.argmax(
+        np.cumsum(magnitude_spectrum) >= k * np.sum(magnitude_spectrum)
+    )
     return i
 
 
-- 
2.43.0


From b09736ac3d0a0fc2c653253d251cc9e8ddcf366d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:38 +0000
Subject: [PATCH 21/29] fix: return the weighted standard deviation from
 spectral_spread

A misplaced parenthesis squared the sum of the deviations and returned an array
with one value per bin instead of the documented scalar.
---
 spafe/features/spfeats.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spafe/features/spfeats.py b/spafe/features/spfeats.py
index 818b72f..a345185 100644
--- a/spafe/features/spfeats.py
+++ b/spafe/features/spfeats.py
@@ -183,7 +183,7 @@ def spectral_spread(sig: np.ndarray, fs: int, spectrum: np.ndarray) -> float:
 
     # compute spread
     spread = np.sqrt(
-        ((np.sum(freqs - mu1) ** 2) * magnitude_spectrum) / np.sum(magnitude_spectrum)
+        np.sum((freqs - mu1) ** 2 * magnitude_spectrum) / np.sum(magnitude_spectrum)
     )
     return spread
 
-- 
2.43.0


From 3916b2e1c4243310df1448fdd23790d190aac800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:38 +0000
Subject: [PATCH 22/29] fix: compute the spectral moments of extract_feats on
 matching frequencies

The moments use the frequencies of a two sided fft but were given the rfft half
spectrum, so a 1 kHz tone had its centroid near 2 kHz.
---
 spafe/features/spfeats.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/spafe/features/spfeats.py b/spafe/features/spfeats.py
index a345185..d9910f2 100644
--- a/spafe/features/spfeats.py
+++ b/spafe/features/spfeats.py
@@ -321,13 +321,15 @@ def extract_feats(sig: np.ndarray, fs: int, nfft: int = 512) -> SpectralFeats:
 
     # compute the fft
     spectrum = np.fft.rfft(a=sig, n=nfft)
+    # two sided spectrum, matching the frequencies used by the spectral moments
+    full_spectrum = np.fft.fft(a=sig, n=nfft)
 
     # spectral features
-    feats["spectral_centroid"] = spectral_centroid(fs, spectrum)
-    feats["spectral_skewness"] = spectral_skewness(sig, fs, spectrum)
-    feats["spectral_kurtosis"] = spectral_kurtosis(sig, fs, spectrum)
+    feats["spectral_centroid"] = spectral_centroid(fs, full_spectrum)
+    feats["spectral_skewness"] = spectral_skewness(sig, fs, full_spectrum)
+    feats["spectral_kurtosis"] = spectral_kurtosis(sig, fs, full_spectrum)
     feats["spectral_entropy"] = spectral_entropy(spectrum)
-    feats["spectral_spread"] = spectral_spread(sig, fs, spectrum)
+    feats["spectral_spread"] = spectral_spread(sig, fs, full_spectrum)
     feats["spectral_flatness"] = spectral_flatness(spectrum)
     feats["spectral_rolloff"] = spectral_rolloff(spectrum)
     feats["spectral_flux"] = spectral_flux(spectrum)
-- 
2.43.0


From 5457ac4a5a0f1d16d8e2b428c8d5943819573c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:56 +0000
Subject: [PATCH 23/29] fix: normalize the spectrum before computing
 spectral_entropy

The entropy of [Misra] is that of the spectrum normalized to a probability mass
function; without it the value was unbounded and scaled with the signal, and an
empty bin made it NaN.
---
 spafe/features/spfeats.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/spafe/features/spfeats.py b/spafe/features/spfeats.py
index d9910f2..1ce0ad0 100644
--- a/spafe/features/spfeats.py
+++ b/spafe/features/spfeats.py
@@ -13,6 +13,8 @@ from scipy import stats
 
 from typing_extensions import TypedDict
 
+from ..utils.preprocessing import zero_handling
+
 
 class SpectralFeats(TypedDict):
     spectral_skewness: float
@@ -138,20 +140,17 @@ def spectral_entropy(spectrum: np.ndarray) -> float:
     Note:
         .. math::
 
-            S_{entropy} &= \\frac{\sum_{n=0}^{N}(f_{k} - \\mu_{1})^{3} . a_k}{\\mu_{2}^{3} . \sum_{n=0}^{N}a_{k}}\\\\
+            S_{entropy} &= \\frac{- \\sum_{k=0}^{N-1} p_k . log(p_k)}{log(N)}, \\text{ with } p_k = \\frac{a_k}{\\sum_{k=0}^{N-1} a_k}\\\\
 
     References:
         .. [Misra] : Misra, H., S. Ikbal, H. Bourlard, and H. Hermansky.
                     "Spectral Entropy Based Feature for Robust ASR." 2004 IEEE
                     International Conference on Acoustics, Speech, and Signal Processing.
     """
-    # compute magnitude spectrum, and centroids
+    # compute magnitude spectrum, and normalize it to a probability mass function
     magnitude_spectrum = np.abs(spectrum)
-    en = (
-        -1
-        * np.sum(magnitude_spectrum * np.log(magnitude_spectrum))
-        / np.log(len(magnitude_spectrum))
-    )
+    pmf = magnitude_spectrum / np.sum(magnitude_spectrum)
+    en = -1 * np.sum(pmf * np.log(zero_handling(pmf))) / np.log(len(pmf))
     return en
 
 
-- 
2.43.0


From 23f31a376997e3f5d110bdda81f55d9856fd56f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:56 +0000
Subject: [PATCH 24/29] fix: keep no cqt bin when none fits the fft size

A slice from -0 kept all the frequencies, and the kernel loop then raised
IndexError.
---
 spafe/utils/spectral.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spafe/utils/spectral.py b/spafe/utils/spectral.py
index c3cea8d..f7cb82f 100644
--- a/spafe/utils/spectral.py
+++ b/spafe/utils/spectral.py
@@ -91,7 +91,7 @@ def compute_constant_qtransform(
     win_lens = win_lens[win_lens <= nfft]
 
     # filter center freqs and count number of pitches & frames
-    cqt_freqs = cqt_freqs[-1 * len(win_lens) :]
+    cqt_freqs = cqt_freqs[len(cqt_freqs) - len(win_lens) :]
     n_pitch = len(cqt_freqs)
     n_frames = len(frames)
 
-- 
2.43.0


From 2cc3909aa95c894c63b69a33a61819199e4f4aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:56 +0000
Subject: [PATCH 25/29] fix: apply pre-emphasis along time for (N x 1) signals

lfilter works on the last axis by default, so the documented (Nx1) column
signals were returned unfiltered.
---
 spafe/utils/preprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spafe/utils/preprocessing.py b/spafe/utils/preprocessing.py
index eef8d6a..b9d7c8f 100644
--- a/spafe/utils/preprocessing.py
+++ b/spafe/utils/preprocessing.py
@@ -69,7 +69,7 @@ def pre_emphasis(sig: np.ndarray, pre_emph_coeff: float = 0.97) -> np.ndarray:
 
             y[t] = x[t] - \\alpha \\times x[t-1]
     """
-    return lfilter([1, -pre_emph_coeff], [1], sig)
+    return lfilter([1, -pre_emph_coeff], [1], sig, axis=0)
 
 
 def stride_trick(a: np.ndarray, stride_length: int, stride_step: int) -> np.ndarray:
-- 
2.43.0


From 082d40dfd0bfe8daa92b407cbb1666785de27cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:02 +0000
Subject: [PATCH 26/29] fix: keep lifter weights in floating point so that
 large lifters do not overflow

---
 spafe/utils/cepstral.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spafe/utils/cepstral.py b/spafe/utils/cepstral.py
index 282c57b..8e92b15 100644
--- a/spafe/utils/cepstral.py
+++ b/spafe/utils/cepstral.py
@@ -83,7 +83,7 @@ def lifter_ceps(ceps: np.ndarray, lift: int = 3) -> np.ndarray:
         return ceps
 
     elif lift > 0:
-        lift_vec = np.array([1] + [i**lift for i in range(1, ceps.shape[1])])
+        lift_vec = np.array([1.0] + [float(i) ** lift for i in range(1, ceps.shape[1])])
         lift_mat = np.diag(lift_vec)
         return np.dot(ceps, lift_mat)
 
-- 
2.43.0


From 8557c3685a374c3febd933b1e156ae858d1651dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:23 +0000
Subject: [PATCH 27/29] fix: measure spectral_rolloff against the cumulated
 total, so that k=1 reaches it

---
 spafe/features/spfeats.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/spafe/features/spfeats.py b/spafe/features/spfeats.py
index 1ce0ad0..41f9ac4 100644
--- a/spafe/features/spfeats.py
+++ b/spafe/features/spfeats.py
@@ -228,9 +228,8 @@ def spectral_rolloff(spectrum: np.ndarray, k: float = 0.85) -> float:
     magnitude_spectrum = np.abs(spectrum)
 
     # compute the spectral rolloff point
-    i = np.argmax(
-        np.cumsum(magnitude_spectrum) >= k * np.sum(magnitude_spectrum)
-    )
+    cumulative = np.cumsum(magnitude_spectrum)
+    i = np.argmax(cumulative >= k * cumulative[-1])
     return i
 
 
-- 
2.43.0


From e1f7a4b3220f220dd25d6ba9e8bc65e6568b436e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:30:12 +0000
Subject: [PATCH 28/29] fix: filter with second-order sections in
 get_dominant_frequencies

The transfer function form of the 6th-order Butterworth band-pass is
numerically unstable for the default cut-offs at 44.1 kHz and above, so the
filtered signal diverged and the reported frequencies were wrong.
---
 spafe/frequencies/dominant_frequencies.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/spafe/frequencies/dominant_frequencies.py b/spafe/frequencies/dominant_frequencies.py
index 866c618..c1d5549 100644
--- a/spafe/frequencies/dominant_frequencies.py
+++ b/spafe/frequencies/dominant_frequencies.py
@@ -118,10 +118,14 @@ def get_dominant_frequencies(
     """
     if butter_filter:
         # apply Band pass Butterworth filter
-        b, a = signal.butter(
-            6, [(lower_cutoff * 2) / fs, (upper_cutoff * 2) / fs], "band"
+        # (second-order sections: the transfer function form is numerically unstable)
+        sos = signal.butter(
+            6,
+            [(lower_cutoff * 2) / fs, (upper_cutoff * 2) / fs],
+            "band",
+            output="sos",
         )
-        sig = signal.lfilter(b, a, sig)
+        sig = signal.sosfilt(sos, sig, axis=0)
 
     # -> framing
     frames, frame_length = framing(sig=sig, fs=fs, win_len=win_len, win_hop=win_hop)
-- 
2.43.0


From 62fef42dc5cee41ef17b820bb04df853b148a282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:46 +0000
Subject: [PATCH 29/29] fix: pre-emphasis of integer samples with an integer
 coefficient

---
 spafe/utils/preprocessing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/spafe/utils/preprocessing.py b/spafe/utils/preprocessing.py
index b9d7c8f..8bbada8 100644
--- a/spafe/utils/preprocessing.py
+++ b/spafe/utils/preprocessing.py
@@ -69,6 +69,7 @@ def pre_emphasis(sig: np.ndarray, pre_emph_coeff: float = 0.97) -> np.ndarray:
 
             y[t] = x[t] - \\alpha \\times x[t-1]
     """
+    pre_emph_coeff = float(pre_emph_coeff)  # lfilter has no integer arithmetic
     return lfilter([1, -pre_emph_coeff], [1], sig, axis=0)
 
 
-- 
2.43.0

