From d4ab004fc88469320c48ee00bcdbdcc5775132ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:44 +0000
Subject: [PATCH 01/33] fix: honour pre_emph_coeff in bark/erb/linear
 spectrograms, lpc and lpcc

The pre-emphasis coefficient was hard-coded to 0.97.
---
 spafe/features/bfcc.py | 2 +-
 spafe/features/gfcc.py | 2 +-
 spafe/features/lfcc.py | 2 +-
 spafe/features/lpc.py  | 4 ++--
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/spafe/features/bfcc.py b/spafe/features/bfcc.py
index b7a1d17..e0154e2 100644
--- a/spafe/features/bfcc.py
+++ b/spafe/features/bfcc.py
@@ -157,7 +157,7 @@ def bark_spectrogram(
 
     # pre-emphasis
     if pre_emph:
-        sig = pre_emphasis(sig=sig, pre_emph_coeff=0.97)
+        sig = pre_emphasis(sig=sig, pre_emph_coeff=pre_emph_coeff)
 
     # init window
     if window is None:
diff --git a/spafe/features/gfcc.py b/spafe/features/gfcc.py
index 3b9e868..6afb514 100644
--- a/spafe/features/gfcc.py
+++ b/spafe/features/gfcc.py
@@ -135,7 +135,7 @@ def erb_spectrogram(
 
     # pre-emphasis
     if pre_emph:
-        sig = pre_emphasis(sig=sig, pre_emph_coeff=0.97)
+        sig = pre_emphasis(sig=sig, pre_emph_coeff=pre_emph_coeff)
 
     # init window
     if window is None:
diff --git a/spafe/features/lfcc.py b/spafe/features/lfcc.py
index 2c916c0..d99b49a 100644
--- a/spafe/features/lfcc.py
+++ b/spafe/features/lfcc.py
@@ -127,7 +127,7 @@ def linear_spectrogram(
 
     # pre-emphasis
     if pre_emph:
-        sig = pre_emphasis(sig=sig, pre_emph_coeff=0.97)
+        sig = pre_emphasis(sig=sig, pre_emph_coeff=pre_emph_coeff)
 
     # init window
     if window is None:
diff --git a/spafe/features/lpc.py b/spafe/features/lpc.py
index f522467..d0f56b3 100644
--- a/spafe/features/lpc.py
+++ b/spafe/features/lpc.py
@@ -176,7 +176,7 @@ def lpc(
     order = order - 1
     # pre-emphasis
     if pre_emph:
-        sig = pre_emphasis(sig=sig, pre_emph_coeff=0.97)
+        sig = pre_emphasis(sig=sig, pre_emph_coeff=pre_emph_coeff)
 
     # init window
     if window is None:
@@ -313,7 +313,7 @@ def lpcc(
     order = order - 1
     # pre-emphasis
     if pre_emph:
-        sig = pre_emphasis(sig=sig, pre_emph_coeff=0.97)
+        sig = pre_emphasis(sig=sig, pre_emph_coeff=pre_emph_coeff)
 
     # init window
     if window is None:
-- 
2.43.0


From 186cc696b300531b9618a5dfa882e6b701484268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:44 +0000
Subject: [PATCH 02/33] fix: compute lpc and lpcc from the windowed frames

The windowed frames were computed and then ignored, so window.win_type had no
effect and int16 signals overflowed in the autocorrelation.
---
 spafe/features/lpc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spafe/features/lpc.py b/spafe/features/lpc.py
index d0f56b3..9d07016 100644
--- a/spafe/features/lpc.py
+++ b/spafe/features/lpc.py
@@ -193,7 +193,7 @@ def lpc(
     a_mat = np.zeros((len(windows), order + 1))
     e_vec = np.zeros((len(windows), 1))
 
-    for i, windowed_frame in enumerate(frames):
+    for i, windowed_frame in enumerate(windows):
         a, e = __lpc_helper(windowed_frame, order)
         a_mat[i, :] = a
         e_vec[i] = e
@@ -329,7 +329,7 @@ def lpcc(
 
     # compute lpccs
     lpccs = np.zeros((len(windows), order + 1))
-    for i, windowed_frame in enumerate(frames):
+    for i, windowed_frame in enumerate(windows):
         a, e = __lpc_helper(windowed_frame, order)
         lpcc_coeffs = lpc2lpcc(a, e, order + 1)
         lpccs[i, :] = np.array(lpcc_coeffs)
-- 
2.43.0


From ead26233b240f2455779bd657e6f572aa75a22d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:58 +0000
Subject: [PATCH 03/33] fix: lpc error term is the prediction error r[0] +
 sum(a[k] * r[k])

It was computed from the negative-lag end of the full autocorrelation.
---
 spafe/features/lpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spafe/features/lpc.py b/spafe/features/lpc.py
index 9d07016..d15f55f 100644
--- a/spafe/features/lpc.py
+++ b/spafe/features/lpc.py
@@ -81,7 +81,7 @@ def __lpc_helper(frame, order):
 
     phi = np.dot(linalg.inv(linalg.toeplitz(r[:-1])), -r[1:])
     a = np.concatenate(([1.0], phi))
-    e = auto_corr[0] + sum(ac_k * a_k for ac_k, a_k in zip(auto_corr[1:], a))
+    e = np.dot(r, a)
     return a, np.sqrt(e**2)
 
 
-- 
2.43.0


From 1e0e12adc047fbc16fd8d4a53837f091c71293de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:18:58 +0000
Subject: [PATCH 04/33] fix: lpc, lpcc and plp no longer raise LinAlgError on
 silent frames

The autocorrelation matrix of a silent frame is singular; use the
pseudo-inverse (minimum-norm solution) instead of the inverse.
---
 spafe/features/lpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spafe/features/lpc.py b/spafe/features/lpc.py
index d15f55f..456a3dc 100644
--- a/spafe/features/lpc.py
+++ b/spafe/features/lpc.py
@@ -79,7 +79,7 @@ def __lpc_helper(frame, order):
     auto_corr = np.correlate(frame, frame, "full")
     r[:nx] = auto_corr[frame.size - 1 : frame.size + order]
 
-    phi = np.dot(linalg.inv(linalg.toeplitz(r[:-1])), -r[1:])
+    phi = np.dot(linalg.pinv(linalg.toeplitz(r[:-1])), -r[1:])
     a = np.concatenate(([1.0], phi))
     e = np.dot(r, a)
     return a, np.sqrt(e**2)
-- 
2.43.0


From e8948478b1e8c507e38fb74b558e40a8b3578225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:51 +0000
Subject: [PATCH 05/33] fix: lpc2lpcc implements the LPC-to-cepstrum recursion

The sum used the not yet computed c[m] instead of c[k], the sign did not match
the error-filter convention of lpc(), and c[p] was never computed when more
cepstra than LPCs are requested.
---
 spafe/features/lpc.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/spafe/features/lpc.py b/spafe/features/lpc.py
index 456a3dc..2254215 100644
--- a/spafe/features/lpc.py
+++ b/spafe/features/lpc.py
@@ -218,9 +218,11 @@ def lpc2lpcc(a, e, nceps):
         .. math::
 
             C_{m}=\\left\\{\\begin{array}{l}
-            log_{e}(p), & \\text{if } m = 0 \\\\
-            a_{m} + \\sum_{k=1}^{m-1} \\frac{k}{m} C_{m} a_{m-k} , & \\text{if } 1 <= m <= p \\\\
-            \\sum_{k=m-p}^{m-1} \\frac{k}{m} C_{m} a_{m-k} , & \\text{if } m > p \\end{array}\\right.
+            log_{e}(e), & \\text{if } m = 0 \\\\
+            -a_{m} - \\sum_{k=1}^{m-1} \\frac{k}{m} C_{k} a_{m-k} , & \\text{if } 1 <= m <= p \\\\
+            -\\sum_{k=m-p}^{m-1} \\frac{k}{m} C_{k} a_{m-k} , & \\text{if } m > p \\end{array}\\right.
+
+        where the prediction error filter is :math:`A(z) = 1 + \\sum_{k=1}^{p} a_{k} z^{-k}`.
 
     References:
         .. [Makhoul] : Makhoul, J. (1975). Linear prediction: A tutorial review.
@@ -234,12 +236,11 @@ def lpc2lpcc(a, e, nceps):
 
     c[0] = np.log(zero_handling(e))
 
-    for m in range(1, p):
-        c[m] = a[m] + sum([(k / m) * c[m] * a[m - k] for k in range(1, m)])
+    for m in range(1, min(p, nceps)):
+        c[m] = -a[m] - sum([(k / m) * c[k] * a[m - k] for k in range(1, m)])
 
-    if nceps > p:
-        for m in range(p + 1, nceps):
-            c[m] = sum([(k / m) * c[m] * a[m - k] for k in range(m - p, m)])
+    for m in range(p, nceps):
+        c[m] = -sum([(k / m) * c[k] * a[m - k] for k in range(m - p + 1, m)])
 
     return c
 
-- 
2.43.0


From cc4b434bdef5492f4a28cc42c150849722783d70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:19:51 +0000
Subject: [PATCH 06/33] fix: align mel, inverse mel and linear filter banks
 with the FFT bins

The filter bank columns are FFT bins, but the triangles were sampled on a grid
spanning [low_freq, high_freq], so with a restricted band every filter was
applied to the wrong bins. The inverse mel bank is now mirrored inside the band
instead of reversing columns, returns the matching center frequencies, and no
longer fails when high_freq is left to its default.
---
 spafe/fbanks/mel_fbanks.py | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/spafe/fbanks/mel_fbanks.py b/spafe/fbanks/mel_fbanks.py
index 105a70c..c74b5bb 100644
--- a/spafe/fbanks/mel_fbanks.py
+++ b/spafe/fbanks/mel_fbanks.py
@@ -56,7 +56,7 @@ def mel_filter_banks_helper(
 
     Tip:
         - :code:`scale` : can take the following options ["constant", "ascendant", "descendant"].
-        - :code:`fb_type` : can take the following options ["mel", "lin"].
+        - :code:`fb_type` : can take the following options ["mel", "imel", "lin"].
         - :code:`conversion_approach` : can take the following options ["Oshaghnessy", "Beranek", "Lindsay"].
           Note that the use of different options than the default can lead to unexpected behavior/issues.
 
@@ -71,7 +71,7 @@ def mel_filter_banks_helper(
     if high_freq > (fs / 2):
         raise ParameterError(ErrorMsgs["high_freq"])
 
-    if fb_type == "mel":
+    if fb_type in ("mel", "imel"):
         # convert bounding freqs
         low_mel = hz2mel(low_freq, conversion_approach)
         high_mel = hz2mel(high_freq, conversion_approach)
@@ -90,6 +90,15 @@ def mel_filter_banks_helper(
         lower_edges_hz = mel2hz(lower_edges_mel, conversion_approach)
         upper_edges_hz = mel2hz(upper_edges_mel, conversion_approach)
         center_freqs = center_freqs_mel
+
+        if fb_type == "imel":
+            # mirror the filters in the [low_freq, high_freq] band
+            center_freqs_hz = low_freq + high_freq - center_freqs_hz
+            lower_edges_hz, upper_edges_hz = (
+                low_freq + high_freq - upper_edges_hz,
+                low_freq + high_freq - lower_edges_hz,
+            )
+            center_freqs = hz2mel(center_freqs_hz, conversion_approach)
     else:
         # compute points evenly spaced in frequency (points are in Hz)
         delta_hz = abs(high_freq - low_freq) / (nfilts + 1)
@@ -101,7 +110,7 @@ def mel_filter_banks_helper(
         center_freqs_hz = scale_freqs[1:-1]
         center_freqs = center_freqs_hz
 
-    freqs = np.linspace(low_freq, high_freq, nfft // 2 + 1)
+    freqs = np.fft.rfftfreq(nfft, 1 / fs)
     fbank = np.zeros((nfilts, nfft // 2 + 1))
 
     for j, (center, lower, upper) in enumerate(
@@ -305,26 +314,16 @@ def inverse_mel_filter_banks(
         "constant": "constant",
     }
 
-    # generate inverse mel fbanks by inversing regular mel fbanks
-    imel_fbanks, mel_freqs = mel_filter_banks_helper(
+    # generate inverse mel fbanks by mirroring regular mel fbanks
+    imel_fbanks, imel_center_freqs = mel_filter_banks_helper(
         nfilts=nfilts,
         nfft=nfft,
         fs=fs,
         low_freq=low_freq,
         high_freq=high_freq,
         scale=scales[scale],
-        fb_type="mel",
+        fb_type="imel",
         conversion_approach=conversion_approach,
     )
 
-    # inverse regular filter banks
-    for i, pts in enumerate(imel_fbanks):
-        imel_fbanks[i] = pts[::-1]
-
-    # get inverse freqs
-    imel_center_freqs = [
-        hz2mel(freq, conversion_approach)
-        for freq in (high_freq - mel2hz(mel_freqs, conversion_approach))
-    ]
-
     return np.abs(imel_fbanks), imel_center_freqs
-- 
2.43.0


From c1ab0a7aac268dd0d67ad5e19b326cfdbc008f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:08 +0000
Subject: [PATCH 07/33] fix: Terhardt bark2hz is the inverse of hz2bark (13.3,
 not 13)

---
 spafe/utils/converters.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spafe/utils/converters.py b/spafe/utils/converters.py
index d90c006..6b94cb1 100644
--- a/spafe/utils/converters.py
+++ b/spafe/utils/converters.py
@@ -143,7 +143,7 @@ def hz2bark(f: float, approach: BarkConversionApproach = "Wang") -> float:
 
         Terhardt              (1979) :
             - :math:`fb = 13.3*tan^{-1}(\\frac{0.75 . f}{1000})`
-            - :math:`f  = (1000/0.75)*tan(\\frac{fb}{13})`
+            - :math:`f  = (1000/0.75)*tan(\\frac{fb}{13.3})`
 
         Zwicker & Terhardt    (1980) :
             - :math:`fb = 8.7 + 14.2 . log10(\\frac{f}{1000})`
@@ -214,7 +214,7 @@ def bark2hz(fb: float, approach: BarkConversionApproach = "Wang") -> float:
 
         Terhardt              (1979) :
             - :math:`fb = 13.3*tan^{-1}(\\frac{0.75 . f}{1000})`
-            - :math:`f  = (1000/0.75)*tan(\\frac{fb}{13})`
+            - :math:`f  = (1000/0.75)*tan(\\frac{fb}{13.3})`
 
         Zwicker & Terhardt    (1980) :
             - :math:`fb = 8.7 + 14.2 . log10(\\frac{f}{1000})`
@@ -262,7 +262,7 @@ def bark2hz(fb: float, approach: BarkConversionApproach = "Wang") -> float:
     elif approach == "Schroeder":
         return 650 * np.sinh(fb / 7)
     elif approach == "Terhardt":
-        return (1000 / 0.75) * np.tan(fb / 13)
+        return (1000 / 0.75) * np.tan(fb / 13.3)
     elif approach == "Zwicker":
         return 10 ** (((fb - 8.7) / 14.2) + 3)
     elif approach == "Traunmueller":
-- 
2.43.0


From 7c2c4bcfa3dc39d42e57da2a46007bda14e7cf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:08 +0000
Subject: [PATCH 08/33] fix: Traunmueller hz2bark is the inverse of bark2hz

---
 spafe/utils/converters.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/spafe/utils/converters.py b/spafe/utils/converters.py
index 6b94cb1..c7922c9 100644
--- a/spafe/utils/converters.py
+++ b/spafe/utils/converters.py
@@ -150,7 +150,7 @@ def hz2bark(f: float, approach: BarkConversionApproach = "Wang") -> float:
             - :math:`f  = 10^{(\\frac{fb-8.7}{14.2} + 3)}`
 
         Traunmueller          (1983) :
-            - :math:`fb = (\\frac{26.81*f}{1+1960}) - 0.53`
+            - :math:`fb = (\\frac{26.81*f}{f+1960}) - 0.53`
             - :math:`f  = 1960 . (\\frac{fb+0.53}{26.28-fb})`
 
         Wang, Sekey & Gersho  (1992) :
@@ -187,7 +187,7 @@ def hz2bark(f: float, approach: BarkConversionApproach = "Wang") -> float:
     elif approach == "Zwicker":
         return 8.7 + 14.2 * np.log10(f / 1000)
     elif approach == "Traunmueller":
-        return ((26.28 * f) / (1 + 1960)) - 0.53
+        return __traunmueller_correction(((26.81 * f) / (1960 + f)) - 0.53)
     else:
         return 6 * np.arcsinh(f / 600)
 
@@ -223,7 +223,7 @@ def bark2hz(fb: float, approach: BarkConversionApproach = "Wang") -> float:
             *!* might raise RuntimeWarning: divide by zero encountered in log10
 
         Traunmueller          (1983) :
-            - :math:`fb = (\\frac{26.81*f}{1+1960}) - 0.53`
+            - :math:`fb = (\\frac{26.81*f}{f+1960}) - 0.53`
             - :math:`f  = 1960 . (\\frac{fb+0.53}{26.28-fb})`
 
         Wang, Sekey & Gersho  (1992) :
@@ -273,6 +273,15 @@ def bark2hz(fb: float, approach: BarkConversionApproach = "Wang") -> float:
         return 600 * np.sinh(fb / 6)
 
 
+def __traunmueller_correction(fi: float) -> float:
+    """
+    Low and high end correction of the Traunmueller approach (inverted by
+    :code:`__traunmueller_helper`).
+    """
+    fi = np.where(fi < 2, fi + 0.15 * (2 - fi), fi)
+    return np.where(fi > 20.1, fi + 0.22 * (fi - 20.1), fi)[()]
+
+
 def __traunmueller_helper(fi: float) -> float:
     """
     Helper funtion for the Traunmueller approach.
-- 
2.43.0


From 149b988c26178cf043226322d4e7628ff9857e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:08 +0000
Subject: [PATCH 09/33] fix: dominant frequencies are read on the rfft
 frequency axis

---
 spafe/frequencies/dominant_frequencies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spafe/frequencies/dominant_frequencies.py b/spafe/frequencies/dominant_frequencies.py
index afbbd0c..866c618 100644
--- a/spafe/frequencies/dominant_frequencies.py
+++ b/spafe/frequencies/dominant_frequencies.py
@@ -142,7 +142,7 @@ def get_dominant_frequencies(
         power_spectrum = (1 / nfft) * magnitude_spectrum**2
 
         # get all frequncies and  only keep positive frequencies
-        frequencies = np.fft.fftfreq(len(power_spectrum), 1 / fs)
+        frequencies = np.fft.rfftfreq(nfft, 1 / fs)
 
         # get id for max spectrum
         idx = np.argmax(power_spectrum)
-- 
2.43.0


From e1eeda4c0249da28f76e6d18717c20f78ad9f565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:08 +0000
Subject: [PATCH 10/33] fix: spectral moments use the frequency axis of the
 one-sided spectrum

---
 spafe/features/spfeats.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spafe/features/spfeats.py b/spafe/features/spfeats.py
index f887da9..252b516 100644
--- a/spafe/features/spfeats.py
+++ b/spafe/features/spfeats.py
@@ -52,7 +52,7 @@ def spectral_centroid(fs: int, spectrum: np.ndarray, i: int = 1) -> float:
     magnitude_spectrum = np.abs(spectrum)
 
     # compute positive frequencies
-    freqs = np.abs(np.fft.fftfreq(len(spectrum), 1.0 / fs))
+    freqs = np.linspace(0, fs / 2, len(spectrum))
 
     # return weighted mean
     sc = np.sum(magnitude_spectrum * freqs**i) / np.sum(magnitude_spectrum)
@@ -83,7 +83,7 @@ def spectral_skewness(sig: np.ndarray, fs: int, spectrum: np.ndarray):
     mu2 = spectral_centroid(fs, spectrum, i=2)
 
     # compute positive frequencies
-    freqs = np.abs(np.fft.fftfreq(len(spectrum), 1.0 / fs))
+    freqs = np.linspace(0, fs / 2, len(spectrum))
 
     # return weighted mean
     sk = np.sum(magnitude_spectrum * (freqs - mu1) ** 3) / (
@@ -116,7 +116,7 @@ def spectral_kurtosis(sig: np.ndarray, fs: int, spectrum: np.ndarray) -> float:
     mu2 = spectral_centroid(fs, spectrum, i=2)
 
     # compute positive frequencies
-    freqs = np.abs(np.fft.fftfreq(len(spectrum), 1.0 / fs))
+    freqs = np.linspace(0, fs / 2, len(spectrum))
 
     # return weighted mean
     sk = np.sum(magnitude_spectrum * (freqs - mu1) ** 4) / (
@@ -176,7 +176,7 @@ def spectral_spread(sig: np.ndarray, fs: int, spectrum: np.ndarray) -> float:
     magnitude_spectrum = np.abs(spectrum)
 
     # compute positive frequencies
-    freqs = np.abs(np.fft.fftfreq(len(spectrum), 1.0 / fs))
+    freqs = np.linspace(0, fs / 2, len(spectrum))
 
     # get centroid
     mu1 = spectral_centroid(fs, spectrum)
-- 
2.43.0


From 53dd26272e31f5c6a1ed5826920c3ab3993c4ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:08 +0000
Subject: [PATCH 11/33] fix: spectral_spread returns the weighted deviation
 around the centroid

---
 spafe/features/spfeats.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spafe/features/spfeats.py b/spafe/features/spfeats.py
index 252b516..4ac6a5c 100644
--- a/spafe/features/spfeats.py
+++ b/spafe/features/spfeats.py
@@ -170,7 +170,7 @@ def spectral_spread(sig: np.ndarray, fs: int, spectrum: np.ndarray) -> float:
 
     Note:
         .. math::
-            S_{spread} = \\sqrt{\\sum{0}{N}\\frac{(f_k - \\mu_{1}) . s_k}{\\sum{0}{N}a_k}}
+            S_{spread} = \\sqrt{\\sum{0}{N}\\frac{(f_k - \\mu_{1})^{2} . a_k}{\\sum{0}{N}a_k}}
     """
     # compute magnitude spectrum
     magnitude_spectrum = np.abs(spectrum)
@@ -183,7 +183,7 @@ def spectral_spread(sig: np.ndarray, fs: int, spectrum: np.ndarray) -> float:
 
     # compute spread
     spread = np.sqrt(
-        ((np.sum(freqs - mu1) ** 2) * magnitude_spectrum) / np.sum(magnitude_spectrum)
+        np.sum(((freqs - mu1) ** 2) * magnitude_spectrum) / np.sum(magnitude_spectrum)
     )
     return spread
 
-- 
2.43.0


From 5018b929877364e1e9ff2cefe2e72ada1fa427a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:08 +0000
Subject: [PATCH 12/33] fix: spectral_rolloff returns the roll-off bin of the
 given spectrum

---
 spafe/features/spfeats.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/spafe/features/spfeats.py b/spafe/features/spfeats.py
index 4ac6a5c..99014bb 100644
--- a/spafe/features/spfeats.py
+++ b/spafe/features/spfeats.py
@@ -223,13 +223,14 @@ def spectral_rolloff(spectrum: np.ndarray, k: float = 0.85) -> float:
                                    (Default is 0.85).
 
     Returns:
-        (float) : spectral rolloff point.
+        (float) : spectral rolloff point (frequency bin index).
     """
     # convert to frequency domain
     magnitude_spectrum = np.abs(spectrum)
 
     # compute the spectral rolloff point
-    i = k * np.sum(magnitude_spectrum)
+    cumulative_sum = np.cumsum(magnitude_spectrum)
+    i = int(np.argmax(cumulative_sum >= k * cumulative_sum[-1]))
     return i
 
 
@@ -327,7 +328,7 @@ def extract_feats(sig: np.ndarray, fs: int, nfft: int = 512) -> SpectralFeats:
     feats["spectral_entropy"] = spectral_entropy(spectrum)
     feats["spectral_spread"] = spectral_spread(sig, fs, spectrum)
     feats["spectral_flatness"] = spectral_flatness(spectrum)
-    feats["spectral_rolloff"] = spectral_rolloff(fs, spectrum)
+    feats["spectral_rolloff"] = spectral_rolloff(spectrum)
     feats["spectral_flux"] = spectral_flux(spectrum)
     feats["spectral_mean"] = np.mean(spectrum)
     feats["spectral_rms"] = np.sqrt(np.mean(spectrum**2))
-- 
2.43.0


From 2649b372c49c662ccac64c85ffaaac03c5abe82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:08 +0000
Subject: [PATCH 13/33] fix: spectral_entropy normalises the spectrum to a
 probability mass function

---
 spafe/features/spfeats.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/spafe/features/spfeats.py b/spafe/features/spfeats.py
index 99014bb..96aac2f 100644
--- a/spafe/features/spfeats.py
+++ b/spafe/features/spfeats.py
@@ -13,6 +13,8 @@ from scipy import stats
 
 from typing_extensions import TypedDict
 
+from ..utils.preprocessing import zero_handling
+
 
 class SpectralFeats(TypedDict):
     spectral_skewness: float
@@ -138,20 +140,17 @@ def spectral_entropy(spectrum: np.ndarray) -> float:
     Note:
         .. math::
 
-            S_{entropy} &= \\frac{\sum_{n=0}^{N}(f_{k} - \\mu_{1})^{3} . a_k}{\\mu_{2}^{3} . \sum_{n=0}^{N}a_{k}}\\\\
+            S_{entropy} = -\\frac{\sum_{k}p_{k} . log(p_{k})}{log(N)} \\quad with \\quad p_{k} = \\frac{a_{k}}{\sum_{k}a_{k}}
 
     References:
         .. [Misra] : Misra, H., S. Ikbal, H. Bourlard, and H. Hermansky.
                     "Spectral Entropy Based Feature for Robust ASR." 2004 IEEE
                     International Conference on Acoustics, Speech, and Signal Processing.
     """
-    # compute magnitude spectrum, and centroids
+    # compute magnitude spectrum, and convert it into a probability mass function
     magnitude_spectrum = np.abs(spectrum)
-    en = (
-        -1
-        * np.sum(magnitude_spectrum * np.log(magnitude_spectrum))
-        / np.log(len(magnitude_spectrum))
-    )
+    pmf = magnitude_spectrum / np.sum(magnitude_spectrum)
+    en = -1 * np.sum(pmf * np.log(zero_handling(pmf))) / np.log(len(pmf))
     return en
 
 
-- 
2.43.0


From c24e27744b39f7a9e77a734a7cb092fab2f5603e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:08 +0000
Subject: [PATCH 14/33] fix: spectral mean, rms, std and variance are those of
 the magnitude spectrum

---
 spafe/features/spfeats.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spafe/features/spfeats.py b/spafe/features/spfeats.py
index 96aac2f..0fae059 100644
--- a/spafe/features/spfeats.py
+++ b/spafe/features/spfeats.py
@@ -329,8 +329,8 @@ def extract_feats(sig: np.ndarray, fs: int, nfft: int = 512) -> SpectralFeats:
     feats["spectral_flatness"] = spectral_flatness(spectrum)
     feats["spectral_rolloff"] = spectral_rolloff(spectrum)
     feats["spectral_flux"] = spectral_flux(spectrum)
-    feats["spectral_mean"] = np.mean(spectrum)
-    feats["spectral_rms"] = np.sqrt(np.mean(spectrum**2))
-    feats["spectral_std"] = np.std(spectrum)
-    feats["spectral_variance"] = np.var(spectrum)
+    feats["spectral_mean"] = np.mean(np.abs(spectrum))
+    feats["spectral_rms"] = np.sqrt(np.mean(np.abs(spectrum) ** 2))
+    feats["spectral_std"] = np.std(np.abs(spectrum))
+    feats["spectral_variance"] = np.var(np.abs(spectrum))
     return feats
-- 
2.43.0


From 24292deedf9326f8fb531516c9f6e36b3b6624e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:31 +0000
Subject: [PATCH 15/33] fix: PNCC asymmetric lowpass filter keeps its initial
 state

---
 spafe/features/pncc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spafe/features/pncc.py b/spafe/features/pncc.py
index edc0735..72497a9 100644
--- a/spafe/features/pncc.py
+++ b/spafe/features/pncc.py
@@ -84,7 +84,7 @@ def asymmetric_lowpass_filtering(
     Q_tilde_out[0,] = 0.9 * Q_tilde_in[0,]
 
     # compute asymmetric nonlinear filter
-    for m in range(Q_tilde_out.shape[0]):
+    for m in range(1, Q_tilde_out.shape[0]):
         Q1 = lm_a * Q_tilde_out[m - 1, :] + (1 - lm_a) * Q_tilde_in[m, :]
         Q2 = lm_b * Q_tilde_out[m - 1, :] + (1 - lm_b) * Q_tilde_in[m, :]
 
-- 
2.43.0


From 107fc58694775b299fe47a6e1f245fcf3392b314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:31 +0000
Subject: [PATCH 16/33] fix: PNCC weight smoothing averages over all channels
 in [l1, l2]

---
 spafe/features/pncc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spafe/features/pncc.py b/spafe/features/pncc.py
index 72497a9..8a93a1d 100644
--- a/spafe/features/pncc.py
+++ b/spafe/features/pncc.py
@@ -163,11 +163,11 @@ def weight_smoothing(
     S_tilde = np.zeros_like(R_tilde)
     for m in range(R_tilde.shape[0]):
         for l in range(R_tilde.shape[1]):
-            l1 = max(l - N, 1)
-            l2 = min(l + N, L)
+            l1 = max(l - N, 0)
+            l2 = min(l + N, L - 1)
             # compute smoothing output
             S_tilde[m, l] = (1 / float(l2 - l1 + 1)) * sum(
-                [R_tilde[m, lprime] / Q_tilde[m, lprime] for lprime in range(l1, l2)]
+                [R_tilde[m, lprime] / Q_tilde[m, lprime] for lprime in range(l1, l2 + 1)]
             )
 
     return S_tilde
-- 
2.43.0


From 4852bc25fc25c896cc18b788240e6f4ae388c638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:31 +0000
Subject: [PATCH 17/33] fix: PNCC of silent channels is finite (no 0/0 in the
 weight smoothing)

---
 spafe/features/pncc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spafe/features/pncc.py b/spafe/features/pncc.py
index 8a93a1d..001d0e2 100644
--- a/spafe/features/pncc.py
+++ b/spafe/features/pncc.py
@@ -21,6 +21,7 @@ from ..utils.preprocessing import (
     pre_emphasis,
     framing,
     windowing,
+    zero_handling,
     SlidingWindow,
 )
 
@@ -160,6 +161,7 @@ def weight_smoothing(
         and :math:`\\tilde{S}` is the time-averaged, frequency-averaged transfer function.
     """
     L = nfilts
+    Q_tilde = zero_handling(Q_tilde)
     S_tilde = np.zeros_like(R_tilde)
     for m in range(R_tilde.shape[0]):
         for l in range(R_tilde.shape[1]):
-- 
2.43.0


From d792f894e96adea7ea946bc83deccda696a61596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:31 +0000
Subject: [PATCH 18/33] fix: msrcc of silent bands is finite

---
 spafe/features/msrcc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spafe/features/msrcc.py b/spafe/features/msrcc.py
index 14953e9..6827313 100644
--- a/spafe/features/msrcc.py
+++ b/spafe/features/msrcc.py
@@ -151,7 +151,7 @@ def msrcc(
     )
 
     # -> (.)^(gamma)
-    features = features**gamma
+    features = zero_handling(features) ** gamma
 
     # -> DCT(.)
     msrccs = dct(x=features, type=dct_type, axis=1, norm="ortho")[:, :num_ceps]
-- 
2.43.0


From f450d5841d7d2a295e2b316071df6a2160034b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:31 +0000
Subject: [PATCH 19/33] fix: psrcc replaces infinities by the largest finite
 value

---
 spafe/features/psrcc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spafe/features/psrcc.py b/spafe/features/psrcc.py
index 635afd4..1542db9 100644
--- a/spafe/features/psrcc.py
+++ b/spafe/features/psrcc.py
@@ -177,7 +177,8 @@ def psrcc(
     # assign 0 to values to be computed based on negative phases (otherwise results in nan)
     features[np.isnan(features)] = 0
     # assign max to values to be computed based on 0 phases (otherwise results in inf)
-    features[np.isinf(features)] = features.max()
+    infs = np.isinf(features)
+    features[infs] = np.max(features[~infs], initial=0)
 
     # -> DCT(.)
     psrccs = dct(x=features, type=dct_type, axis=1, norm="ortho")[:, :num_ceps]
-- 
2.43.0


From 80b7c3ccae6ee1d088ccbc5c8b99c845e216e999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:31 +0000
Subject: [PATCH 20/33] fix: rplp of silent bands is finite

---
 spafe/features/rplp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spafe/features/rplp.py b/spafe/features/rplp.py
index ff44527..0227fff 100644
--- a/spafe/features/rplp.py
+++ b/spafe/features/rplp.py
@@ -21,6 +21,7 @@ from ..utils.preprocessing import (
     pre_emphasis,
     framing,
     windowing,
+    zero_handling,
     SlidingWindow,
 )
 
@@ -139,7 +140,7 @@ def __rastaplp(
     # rasta filtering
     if do_rasta:
         # put in log domain
-        nl_aspectrum = np.log(auditory_spectrum)
+        nl_aspectrum = np.log(zero_handling(auditory_spectrum))
 
         # next do rasta filtering
         ras_nl_aspectrum = rasta_filter(nl_aspectrum)
-- 
2.43.0


From b45e491b43b0252c0258f57d8cf1853606be17ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:23:31 +0000
Subject: [PATCH 21/33] fix: rasta_filter filters each critical band along time

---
 spafe/utils/filters.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spafe/utils/filters.py b/spafe/utils/filters.py
index e03b74f..c6b590a 100644
--- a/spafe/utils/filters.py
+++ b/spafe/utils/filters.py
@@ -36,14 +36,14 @@ def rasta_filter(x: np.ndarray) -> np.ndarray:
     z = signal.lfilter_zi(numer, 1)
     y = np.zeros((x.shape))
 
-    for i in range(x.shape[0]):
+    for i in range(x.shape[1]):
         # FIR for initial state response compuation
-        y1, z = signal.lfilter(numer, 1, x[i, 0:4], axis=0, zi=z * x[i, 0])
+        y1, zf = signal.lfilter(numer, 1, x[0:4, i], axis=0, zi=z * x[0, i])
         y1 = y1 * 0
 
         # IIR
-        y2, _ = signal.lfilter(numer, denom, x[i, 4 : x.shape[1]], axis=0, zi=z)
-        y[i, :] = np.append(y1, y2)
+        y2, _ = signal.lfilter(numer, denom, x[4 : x.shape[0], i], axis=0, zi=zf)
+        y[:, i] = np.append(y1, y2)
     return y
 
 
-- 
2.43.0


From ffc8ba0ee63ca128e76fcf0f8fdbb74ff998a03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:28 +0000
Subject: [PATCH 22/33] fix: stride_trick never reads past the end of a
 two-dimensional signal

---
 spafe/utils/preprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spafe/utils/preprocessing.py b/spafe/utils/preprocessing.py
index eef8d6a..3241db9 100644
--- a/spafe/utils/preprocessing.py
+++ b/spafe/utils/preprocessing.py
@@ -89,7 +89,7 @@ def stride_trick(a: np.ndarray, stride_length: int, stride_step: int) -> np.ndar
         https://numpy.org/doc/stable/reference/generated/numpy.lib.stride_tricks.sliding_window_view.html
     """
     a = np.array(a)
-    nrows = ((a.size - stride_length) // stride_step) + 1
+    nrows = ((a.shape[0] - stride_length) // stride_step) + 1
     n = a.strides[0]
     return np.lib.stride_tricks.as_strided(
         a, shape=(nrows, stride_length), strides=(stride_step * n, n)
-- 
2.43.0


From fb4baac92a1874a8a2c4bbf91cd33d6aa8338979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:28 +0000
Subject: [PATCH 23/33] fix: pre_emphasis filters a Nx1 signal along time

---
 spafe/utils/preprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spafe/utils/preprocessing.py b/spafe/utils/preprocessing.py
index 3241db9..861c667 100644
--- a/spafe/utils/preprocessing.py
+++ b/spafe/utils/preprocessing.py
@@ -69,7 +69,7 @@ def pre_emphasis(sig: np.ndarray, pre_emph_coeff: float = 0.97) -> np.ndarray:
 
             y[t] = x[t] - \\alpha \\times x[t-1]
     """
-    return lfilter([1, -pre_emph_coeff], [1], sig)
+    return lfilter([1, -pre_emph_coeff], [1], sig, axis=0)
 
 
 def stride_trick(a: np.ndarray, stride_length: int, stride_step: int) -> np.ndarray:
-- 
2.43.0


From d5f6de52d815625a9d663fc36f477f268b2954c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:28 +0000
Subject: [PATCH 24/33] fix: lifter_ceps does not overflow to object arrays for
 many coefficients

---
 spafe/utils/cepstral.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spafe/utils/cepstral.py b/spafe/utils/cepstral.py
index 282c57b..7574dc5 100644
--- a/spafe/utils/cepstral.py
+++ b/spafe/utils/cepstral.py
@@ -83,7 +83,7 @@ def lifter_ceps(ceps: np.ndarray, lift: int = 3) -> np.ndarray:
         return ceps
 
     elif lift > 0:
-        lift_vec = np.array([1] + [i**lift for i in range(1, ceps.shape[1])])
+        lift_vec = np.array([1] + [float(i) ** lift for i in range(1, ceps.shape[1])])
         lift_mat = np.diag(lift_vec)
         return np.dot(ceps, lift_mat)
 
-- 
2.43.0


From 043b83ac49ecb3765b210b49d65bbc3a94fe95e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:42 +0000
Subject: [PATCH 25/33] fix: pre_emphasis accepts integer coefficients with
 integer signals

---
 spafe/utils/preprocessing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spafe/utils/preprocessing.py b/spafe/utils/preprocessing.py
index 861c667..545b452 100644
--- a/spafe/utils/preprocessing.py
+++ b/spafe/utils/preprocessing.py
@@ -69,7 +69,7 @@ def pre_emphasis(sig: np.ndarray, pre_emph_coeff: float = 0.97) -> np.ndarray:
 
             y[t] = x[t] - \\alpha \\times x[t-1]
     """
-    return lfilter([1, -pre_emph_coeff], [1], sig, axis=0)
+    return lfilter([1.0, -pre_emph_coeff], [1], sig, axis=0)
 
 
 def stride_trick(a: np.ndarray, stride_length: int, stride_step: int) -> np.ndarray:
-- 
2.43.0


From 646d0637b44ae3cf4590336bd26df0803ebe3c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:06 +0000
Subject: [PATCH 26/33] fix: lpc solves the normal equations stably for smooth
 frames

---
 spafe/features/lpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spafe/features/lpc.py b/spafe/features/lpc.py
index 2254215..7efd7f3 100644
--- a/spafe/features/lpc.py
+++ b/spafe/features/lpc.py
@@ -79,7 +79,7 @@ def __lpc_helper(frame, order):
     auto_corr = np.correlate(frame, frame, "full")
     r[:nx] = auto_corr[frame.size - 1 : frame.size + order]
 
-    phi = np.dot(linalg.pinv(linalg.toeplitz(r[:-1])), -r[1:])
+    phi = linalg.lstsq(linalg.toeplitz(r[:-1]), -r[1:])[0]
     a = np.concatenate(([1.0], phi))
     e = np.dot(r, a)
     return a, np.sqrt(e**2)
-- 
2.43.0


From 51db75975c717c7150d6e0f8abae516dae1888ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:18 +0000
Subject: [PATCH 27/33] fix: YIN difference function is never negative (no
 infinite harmonic rates)

---
 spafe/frequencies/fundamental_frequencies.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spafe/frequencies/fundamental_frequencies.py b/spafe/frequencies/fundamental_frequencies.py
index 41cf80b..12b31fa 100644
--- a/spafe/frequencies/fundamental_frequencies.py
+++ b/spafe/frequencies/fundamental_frequencies.py
@@ -70,7 +70,7 @@ def compute_difference(x: np.ndarray, tau_max: int) -> np.ndarray:
     rt_0 = x_cum_sum[w:0:-1]
     rt = conv[w - 1 :]
     tmp = rt_0 + rt_tau_0 - 2 * rt
-    return tmp[:tau_max]
+    return np.maximum(tmp[:tau_max], 0)
 
 
 def compute_cmnd(d_t: np.ndarray, tau: int) -> np.ndarray:
-- 
2.43.0


From 57ae0a6f95470d5f4831173a687bf9b1803f3db0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:27:48 +0000
Subject: [PATCH 28/33] fix: bark filter bank does not overflow with numpy
 integer sampling rates

---
 spafe/fbanks/bark_fbanks.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spafe/fbanks/bark_fbanks.py b/spafe/fbanks/bark_fbanks.py
index c62a805..8e9e0b7 100644
--- a/spafe/fbanks/bark_fbanks.py
+++ b/spafe/fbanks/bark_fbanks.py
@@ -163,7 +163,7 @@ def bark_filter_banks(
     for j in range(0, nfilts):
         for i in range(int(bins[0]), int(bins[nfilts - 1])):
             fc = bark_center_freqs[j]
-            fb = hz2bark((i * fs) / (nfft + 1), conversion_approach)
+            fb = hz2bark(i * (fs / (nfft + 1)), conversion_approach)
             fbank[j, i] = Fm(fb, fc)
 
     # compute scaling
-- 
2.43.0


From 573c9a8ee5a0d836c0ed1e85091ed3b1a6979c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:37 +0000
Subject: [PATCH 29/33] fix: pncc accepts a filter bank with any number of rows

---
 spafe/features/pncc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spafe/features/pncc.py b/spafe/features/pncc.py
index 001d0e2..ca0c4da 100644
--- a/spafe/features/pncc.py
+++ b/spafe/features/pncc.py
@@ -434,13 +434,13 @@ def pncc(
     R_tilde = asymmetric_noise_suppression_with_temporal_masking(Q_tilde)
 
     ## 3. weight smoothing
-    S_tilde = weight_smoothing(R_tilde, Q_tilde, nfilts=nfilts)
+    S_tilde = weight_smoothing(R_tilde, Q_tilde, nfilts=P.shape[1])
 
     # -> time frequency normalization
     T = P * S_tilde
 
     # -> mean power normalization
-    U = mean_power_normalization(T, nfilts=nfilts)
+    U = mean_power_normalization(T, nfilts=P.shape[1])
 
     # -> power law non-linearity
     V = U ** (1 / 15)
-- 
2.43.0


From 075a6b11a817684636c16e8c2f313820c2915761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:13 +0000
Subject: [PATCH 30/33] fix: hz2bark does not overflow with small numpy integer
 frequencies

---
 spafe/utils/converters.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spafe/utils/converters.py b/spafe/utils/converters.py
index c7922c9..81b3487 100644
--- a/spafe/utils/converters.py
+++ b/spafe/utils/converters.py
@@ -179,7 +179,7 @@ def hz2bark(f: float, approach: BarkConversionApproach = "Wang") -> float:
     if approach == "Wang":
         return 6 * np.arcsinh(f / 600)
     elif approach == "Tjomov":
-        return 6.7 * np.arcsinh((f + 20) / 600)
+        return 6.7 * np.arcsinh((f + 20.0) / 600)
     elif approach == "Schroeder":
         return 7 * np.arcsinh(f / 650)
     elif approach == "Terhardt":
@@ -187,7 +187,7 @@ def hz2bark(f: float, approach: BarkConversionApproach = "Wang") -> float:
     elif approach == "Zwicker":
         return 8.7 + 14.2 * np.log10(f / 1000)
     elif approach == "Traunmueller":
-        return __traunmueller_correction(((26.81 * f) / (1960 + f)) - 0.53)
+        return __traunmueller_correction(((26.81 * f) / (1960.0 + f)) - 0.53)
     else:
         return 6 * np.arcsinh(f / 600)
 
-- 
2.43.0


From ffd2557e1ca2fcb0f86b467c6bb19400e3fefdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:31:13 +0000
Subject: [PATCH 31/33] fix: Traunmueller bark2hz accepts arrays like every
 other conversion

---
 spafe/utils/converters.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/spafe/utils/converters.py b/spafe/utils/converters.py
index 81b3487..f1eed6f 100644
--- a/spafe/utils/converters.py
+++ b/spafe/utils/converters.py
@@ -286,12 +286,11 @@ def __traunmueller_helper(fi: float) -> float:
     """
     Helper funtion for the Traunmueller approach.
     """
-    if fi < 2:
-        return (fi - 0.3) / (0.85)
-    elif fi > 20.1:
-        return (fi + 4.422) / 1.22
-    else:
-        return fi
+    return np.where(
+        fi < 2,
+        (fi - 0.3) / (0.85),
+        np.where(fi > 20.1, (fi + 4.422) / 1.22, fi),
+    )[()]
 
 
 MelConversionApproach = Literal["Oshaghnessy", "Lindsay"]
-- 
2.43.0


From 1a75fd515ba1119ff16ceb54d103853edfe4d2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:56:12 +0000
Subject: [PATCH 32/33] fix: inverse mel and linear filter banks do not
 overflow with small numpy integer band edges

---
 spafe/fbanks/mel_fbanks.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spafe/fbanks/mel_fbanks.py b/spafe/fbanks/mel_fbanks.py
index c74b5bb..6080cb7 100644
--- a/spafe/fbanks/mel_fbanks.py
+++ b/spafe/fbanks/mel_fbanks.py
@@ -71,6 +71,9 @@ def mel_filter_banks_helper(
     if high_freq > (fs / 2):
         raise ParameterError(ErrorMsgs["high_freq"])
 
+    # small numpy integers would overflow in the sums and differences below
+    low_freq, high_freq = float(low_freq), float(high_freq)
+
     if fb_type in ("mel", "imel"):
         # convert bounding freqs
         low_mel = hz2mel(low_freq, conversion_approach)
-- 
2.43.0


From f84a853ed9463db6f8bb86d76dcc6ca984b16f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:36 +0000
Subject: [PATCH 33/33] fix: psrcc of a frame does not depend on the other
 frames

---
 spafe/features/psrcc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spafe/features/psrcc.py b/spafe/features/psrcc.py
index 1542db9..0bad525 100644
--- a/spafe/features/psrcc.py
+++ b/spafe/features/psrcc.py
@@ -176,9 +176,10 @@ def psrcc(
 
     # assign 0 to values to be computed based on negative phases (otherwise results in nan)
     features[np.isnan(features)] = 0
-    # assign max to values to be computed based on 0 phases (otherwise results in inf)
+    # assign max of the frame to values to be computed based on 0 phases (otherwise results in inf)
     infs = np.isinf(features)
-    features[infs] = np.max(features[~infs], initial=0)
+    frame_max = np.max(features, axis=1, keepdims=True, initial=0, where=~infs)
+    features = np.where(infs, frame_max, features)
 
     # -> DCT(.)
     psrccs = dct(x=features, type=dct_type, axis=1, norm="ortho")[:, :num_ceps]
-- 
2.43.0

