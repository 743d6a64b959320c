"""C25 gain and sign laws."""
import numpy as np

import api
import refs as R
import signals as S
from common import make, feat, first, bank_has_empty, cq_power, cqt_is_noise, pair_close
from core import Skip

ID = "C25"
RULE = "case = one extractor on x and on g*x (power-of-two and arbitrary gains over 16 decades) or on -x, judged against the closed-form law; non-trivial when the law was evaluated"
N = {"quick": 28000, "thorough": 224000}
MIN = {"oracle:gain": 2200, "oracle:sign": 1100, "oracle:invariant": 830}
ENTRIES = api.SPECTRO + ["mfcc", "imfcc", "lfcc", "ngcc", "gfcc", "msrcc", "psrcc", "lpc", "lpcc", "cqt_spectrogram", "cqcc", "rplp", "get_dominant_frequencies", "compute_yin", "bfcc", "plp", "pncc"]


def run(ctx, rng, i):
    name = ENTRIES[i % len(ENTRIES)]
    sign = (i // len(ENTRIES)) % 4 == 3
    g = -1.0 if sign else float(S.pick(rng, [2.0**k for k in (-30, -20, -10, -3, -1, 1, 2, 7, 15, 25)] + [10.0 ** rng.uniform(-7, 7), 10.0 ** rng.uniform(-2, 2)]))
    if name in ("get_dominant_frequencies", "compute_yin"):
        fs = S.pick(rng, S.FS)
        wl, wh, wt = S.window(rng, fs)
        if name == "compute_yin":
            wl = max(wl, 0.025)
        L, H = S.lengths(wl, wh, fs)
        x, k = S.regular(rng, L + int(rng.integers(1, 8)) * H, fs, S.pick(rng, ["white", "harmonic", "speechlike"]))
        if sign and rng.uniform() < 0.3:
            x, k = S.hostile(rng, len(x), fs, "int16")
            x = np.asarray(x, float)
            x[rng.uniform(size=len(x)) < 0.05] = -32768.0
        if not sign:
            g = 2.0 ** int(rng.integers(-30, 30))  # exact, so no decision can turn
        ctx.describe(entry=name, g=g, fs=fs, wl=wl, wh=wh, signal=k, n=len(x))
        if name == "compute_yin":
            call = lambda s: ctx.call(api.fn(name), s, fs, win_len=wl, win_hop=wh)
        else:
            nf = S.nfft_for(rng, L)
            bf = bool(rng.uniform() < 0.3) and fs > 7000
            call = lambda s: ctx.call(api.fn(name), s, fs, nfft=nf, win_len=wl, win_hop=wh, win_type=wt, butter_filter=bf)
        pair_close(ctx, name, call(x * g), call(x), "sign" if sign else "invariant", rtol=1e-9)
        return
    kinds = ["white", "ar", "speechlike"] if name in ("lpc", "lpcc", "plp", "rplp", "pncc") else ["white", "ar", "speechlike", "harmonic", "pink", "wav"]
    x, c, k = make(ctx, rng, name, max_frames=12, small=True, kinds=kinds)
    x = x / np.abs(x).max()
    ctx.describe(g=g)
    if name in ("bfcc", "plp", "pncc") and not sign:
        raise Skip("no gain law")
    if name in api.FAMILY and name not in api.SPECTRO and bank_has_empty(c, name):
        raise Skip("filters covering no bin")
    if name in api.CEPS and name != "psrcc" and not api.Ref(name, x, c).good.all():
        raise Skip("conditioning")
    if name == "psrcc" and (not api.ref_static(name, x, c)[1].all() or sign):
        raise Skip("phase rounding")
    if name == "cqcc" and not cq_power(x, c)[1]:
        raise Skip("conditioning")
    if name == "cqt_spectrogram" and cqt_is_noise(x, c):
        raise Skip("conditioning")
    key = "sign" if sign else "gain"
    a, b = api.arrays(feat(ctx, name, x, c)), api.arrays(feat(ctx, name, x * g, c))
    ag = abs(g)
    if name in api.SPECTRO:
        ctx.close(b[0], a[0] * ag**2, key, rtol=1e-9)
        ctx.close(b[1], a[1] * ag, key, rtol=1e-9)
    elif name == "gfcc":
        ctx.close(b[0], a[0] * ag ** (2 / 3), key, rtol=1e-7)
    elif name == "msrcc":
        ctx.close(b[0], a[0] * ag ** (2 * c["gamma"]), key, rtol=1e-6)
    elif name == "cqt_spectrogram":
        ctx.close(b[0], a[0] * g, key, rtol=1e-8)
    elif name == "lpc":
        ctx.close(b[0], a[0], key, rtol=1e-6)
        ctx.close(b[1], a[1] * ag**2, key, rtol=1e-6)
    elif name == "lpcc":
        w = a[0].copy()
        w[:, 0] += 2 * np.log(ag)
        ctx.close(b[0], w, key, rtol=1e-6)
    elif name in ("mfcc", "imfcc", "lfcc", "ngcc", "cqcc"):
        n = c["nfilts"] if name != "cqcc" else len(R.cqt_freqs(c["fs"], c["low_freq"], c["high_freq"], c["nfft"], c["number_of_octaves"], c["number_of_bins_per_octave"], c["f0"], c["q_rate"])[0])
        if name == "cqcc":
            # bins whose kernel is entirely below the threshold hold log(eps) whatever the signal
            live = np.abs(cq_power(x, c)[0]).max(axis=1) > 0
        else:
            live = np.ones(n, bool)
        off = R.dct(2 * np.log(ag) * live[None, :], c["dct_type"], c["num_ceps"])
        ctx.close(b[0], a[0] + off, key, rtol=1e-6)
    else:
        ctx.close(b[0], a[0], "sign" if sign else "invariant", rtol=1e-5 if name in ("rplp", "plp") else 1e-7)
